//! What a simulated run gets: its choices, its counters and its trace.

use crate::choice::Choices;
use crate::exec::Check;
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if let Some(x) = self.n.get_mut(k) {
            *x += v;
        } else {
            self.n.insert(k.to_string(), v);
        }
    }
}

pub struct Ctx {
    pub c: Choices,
    pub st: Stats,
    pub thorough: bool,
    /// Written when tracing a replay
    pub trace: Option<Vec<String>>,
    pub sample: Option<String>,
}

impl Ctx {
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        // printed at once, as the run may end the process
        if self.trace.is_some() {
            println!("{}", f());
        }
    }
    pub fn fault(&mut self, k: &str) {
        self.st.add(&format!("fault.{}", k), 1);
    }
    pub fn faults(&mut self, k: &str, n: u64) {
        if n > 0 {
            self.st.add(&format!("fault.{}", k), n);
        }
    }
    pub fn meter(&mut self, m: &crate::exec::Meter) {
        self.st.add("parses", 1);
        self.st.add("steps", m.steps());
    }
    /// Count a state or interleaving reached
    pub fn reached(&mut self, h: u64) {
        if self.st.distinct.len() < 2_000_000 {
            self.st.distinct.insert(h);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Check,
    /// Runs in the quick tier
    pub quick: u64,
    /// Seconds of the thorough tier
    pub thorough_s: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}
