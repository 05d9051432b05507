//! Known findings: recorded in known-findings.txt, not repaired.

use sql_parse::{parse_statements, Issues, Spanned};
use std::process::{Command, Stdio};

/// Findings of the property that still fail
pub fn run(id: &str) -> Vec<String> {
    let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string());
    let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", d)) else { return Vec::new() };
    let mut r = Vec::new();
    for l in s.lines() {
        let Some(l) = l.strip_prefix(&format!("known: property={} input=", id)) else { continue };
        let (name, text) = l.split_once(' ').unwrap_or((l, ""));
        let st = Command::new(std::env::current_exe().unwrap()).args(["probe", name]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        if st.is_ok_and(|s| !s.success()) {
            r.push(format!("input={} {}", name, text.trim()));
        }
    }
    r
}

pub fn probe(name: &str) {
    if name == "do-block" {
        let text = "DO $$ BEGIN SELECT 1; END $$";
        let mut issues = Issues::new(text);
        let o = sql_parse::ParseOptions::new().dialect(sql_parse::SQLDialect::PostgreSQL);
        let s = sql_parse::parse_statement(text, &mut issues, &o);
        assert!(s.is_none_or(|s| s.span() == (0..text.len())), "position of DO");
        return;
    }
    let text = match name {
        "binary-chain" => format!("SELECT 1{};", " + 1".repeat(20_000)),
        "prefix-chain" => format!("SELECT {}1;", "NOT ".repeat(20_000)),
        "postfix-chain" => format!("SELECT 1{};", " IS NULL".repeat(20_000)),
        "in-chain" => format!("SELECT 1{};", " IN (1)".repeat(20_000)),
        "join-chain" => format!("SELECT * FROM a{};", " JOIN b".repeat(4000)),
        _ => return,
    };
    let mut issues = Issues::new(&text);
    let s = parse_statements(&text, &mut issues, &Default::default());
    for s in &s {
        let _ = s.span();
        let _ = format!("{:?}", s);
        drop(s.clone());
    }
    drop(s);
    let _ = format!("{}", issues);
}
