//! Does what is returned say what the text at its position says?

use crate::exec::Diag;
use std::ops::Range;

/// Printed form of a statement as a tree
#[derive(Debug, Clone)]
pub enum V {
    /// Named value with its fields, as in `Name { field: … }` or `Name(…)`
    Node(String, Vec<(String, V)>),
    List(Vec<V>),
    Tuple(Vec<V>),
    Range(Range<usize>),
    Str(String),
    Num(String),
}

struct P<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.b.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || self.b[self.i] == b'_') {
            self.i += 1;
        }
        self.s[st..self.i].to_string()
    }
    fn list(&mut self, end: u8) -> Option<Vec<V>> {
        let mut v = Vec::new();
        loop {
            if self.eat(end) {
                return Some(v);
            }
            v.push(self.val()?);
            self.eat(b',');
        }
    }
    fn string(&mut self) -> Option<String> {
        let mut v = String::new();
        let s = &self.s[self.i..];
        let mut it = s.char_indices();
        it.next();
        while let Some((o, c)) = it.next() {
            match c {
                '"' => {
                    self.i += o + 1;
                    return Some(v);
                }
                '\\' => match it.next()?.1 {
                    'n' => v.push('\n'),
                    'r' => v.push('\r'),
                    't' => v.push('\t'),
                    '0' => v.push('\0'),
                    'u' => {
                        it.next();
                        let mut n = 0u32;
                        for (_, c) in it.by_ref() {
                            if c == '}' {
                                break;
                            }
                            n = n * 16 + c.to_digit(16)?;
                        }
                        v.push(char::from_u32(n)?);
                    }
                    c => v.push(c),
                },
                c => v.push(c),
            }
        }
        None
    }
    fn val(&mut self) -> Option<V> {
        self.ws();
        match *self.b.get(self.i)? {
            b'"' => Some(V::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                Some(V::List(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Some(V::Tuple(self.list(b')')?))
            }
            b'0'..=b'9' | b'-' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || matches!(self.b[self.i], b'.' | b'-')) {
                    self.i += 1;
                }
                let t = &self.s[st..self.i];
                if let Some((a, b)) = t.split_once("..") {
                    return Some(V::Range(a.parse().ok()?..b.parse().ok()?));
                }
                Some(V::Num(t.to_string()))
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let w = self.word();
                if self.b.get(self.i) == Some(&b'(') {
                    self.i += 1;
                    let mut l = self.list(b')')?;
                    if w == "Some" && l.len() == 1 {
                        return l.pop();
                    }
                    return Some(V::Node(w, l.into_iter().enumerate().map(|(i, v)| (i.to_string(), v)).collect()));
                }
                if self.b.get(self.i) == Some(&b' ') && self.b.get(self.i + 1) == Some(&b'{') {
                    self.i += 2;
                    let mut f = Vec::new();
                    loop {
                        if self.eat(b'}') {
                            return Some(V::Node(w, f));
                        }
                        self.ws();
                        let n = self.word();
                        if !self.eat(b':') {
                            return None;
                        }
                        let v = self.val()?;
                        f.push((n, v));
                        self.eat(b',');
                    }
                }
                Some(V::Node(w, Vec::new()))
            }
            _ => None,
        }
    }
}

pub fn parse(s: &str) -> Option<V> {
    let mut p = P { s, b: s.as_bytes(), i: 0 };
    let v = p.val()?;
    p.ws();
    (p.i == s.len()).then_some(v)
}

/// Words of a text in upper case without comments and blanks
pub fn words(t: &str) -> String {
    let mut r = String::new();
    let b = t.as_bytes();
    let mut i = 0;
    let mut gap = false;
    while i < b.len() {
        let rest = &t[i..];
        let line = rest.starts_with("--") || rest.starts_with("//");
        if line {
            i += rest.find(['\n', '\r']).map(|x| x + 1).unwrap_or(rest.len());
            gap = true;
        } else if rest.starts_with("/*") {
            i += rest[2..].find("*/").map(|x| x + 4).unwrap_or(rest.len());
            gap = true;
        } else {
            let c = rest.chars().next().unwrap();
            i += c.len_utf8();
            if c.is_ascii_whitespace() || c == '\u{b}' {
                gap = true;
                continue;
            }
            if gap && !r.is_empty() {
                r.push(' ');
            }
            gap = false;
            r.extend(c.to_uppercase());
        }
    }
    r
}

/// Collect every context with a position and the words there
pub fn contexts(v: &V, path: &str, text: &str, out: &mut dyn FnMut(String, String)) {
    match v {
        V::Range(r) => out(path.to_string(), if (r.start, r.end) == (0, 0) { "(none)".into() } else { words(&text[r.clone()]) }),
        V::Node(n, f) => {
            for (k, x) in f {
                let sib = f.iter().filter_map(|(_, v)| match v {
                    V::Node(n, f) if f.is_empty() && n != "None" => Some(n.as_str()),
                    _ => None,
                }).collect::<Vec<_>>().join("+");
                let p = format!("{}{}.{}", n, if matches!(x, V::Range(_)) && !sib.is_empty() { format!("<{}>", sib) } else { String::new() }, k);
                contexts(x, &p, text, out);
            }
        }
        V::List(l) | V::Tuple(l) => {
            let sib = l.iter().filter_map(|v| match v {
                V::Node(n, f) if f.is_empty() && n != "None" => Some(n.as_str()),
                V::Num(n) if n.len() < 8 => Some("#"),
                _ => None,
            }).collect::<Vec<_>>().join("+");
            for (i, x) in l.iter().enumerate() {
                if matches!(x, V::Range(_)) {
                    contexts(x, &format!("{}[{}]{}", path, sib, i), text, out);
                } else {
                    contexts(x, &format!("{}[]", path), text, out);
                }
            }
        }
        _ => (),
    }
}

fn squash(t: &str) -> String {
    words(t).chars().filter(|c| *c != ' ' && *c != '_').collect()
}

fn none(r: &Range<usize>) -> bool {
    (r.start, r.end) == (0, 0)
}

/// Is the word one the name of a field or variant stands for?
fn camel(n: &str) -> String {
    n.chars().filter(|c| *c != '_').flat_map(|c| c.to_uppercase()).collect()
}

const OPERATORS: &[(&str, &[&str])] = &[
    ("And", &["AND", "&&"]),
    ("Or", &["OR", "||"]),
    ("Xor", &["XOR"]),
    ("Eq", &["="]),
    ("NullSafeEq", &["<=>"]),
    ("Neq", &["<>", "!="]),
    ("Lt", &["<"]),
    ("Gt", &[">"]),
    ("LtEq", &["<="]),
    ("GtEq", &[">="]),
    ("Add", &["+"]),
    ("Subtract", &["-"]),
    ("Mult", &["*"]),
    ("Divide", &["/"]),
    ("Div", &["DIV"]),
    ("Mod", &["%", "MOD"]),
    ("BitAnd", &["&"]),
    ("BitOr", &["|"]),
    ("BitXor", &["^"]),
    ("ShiftLeft", &["<<"]),
    ("ShiftRight", &[">>"]),
    ("Like", &["LIKE"]),
    ("NotLike", &["NOTLIKE"]),
    ("Not", &["NOT"]),
    ("LogicalNot", &["!"]),
    ("Minus", &["-"]),
    ("Binary", &["BINARY"]),
];

const FUNCTIONS: &[(&str, &[&str])] = &[
    ("AddDate", &["ADDDATE", "DATEADD"]),
    ("Ceil", &["CEIL", "CEILING"]),
    ("CharacterLength", &["CHARACTERLENGTH", "CHARLENGTH"]),
    ("CurDate", &["CURDATE", "CURRENTDATE"]),
    ("CurTime", &["CURTIME", "CURRENTTIME"]),
    ("DateSub", &["DATESUB", "SUBDATE"]),
    ("DayOfMonth", &["DAYOFMONTH", "DAY"]),
    ("IfNull", &["IFNULL", "NVL"]),
    ("JsonMergePath", &["JSONMERGEPATCH"]),
    ("JsonMergePerserve", &["JSONMERGEPRESERVE"]),
    ("Now", &["NOW", "LOCALTIME", "LOCALTIMESTAMP"]),
    ("Pow", &["POW", "POWER"]),
    ("SubStr", &["SUBSTR", "SUBSTRING"]),
    ("Value", &["VALUE", "VALUES"]),
];

const TYPES: &[(&str, &[&str])] = &[("Double", &["DOUBLE", "DOUBLEPRECISION", "REAL"]), ("Float", &["FLOAT", "REAL"])];

/// What fields and variants with one position may say, where this is not
/// their own name
const WORDS: &[(&str, &str, &[&str])] = &[
    ("", "endif_span", &["ENDIF"]),
    ("", "lparen", &["("]),
    ("", "rparen", &[")"]),
    ("", "l_paren_span", &["("]),
    ("", "r_paren_span", &[")"]),
    ("", "lparen_span", &["("]),
    ("", "rparen_span", &[")"]),
    ("", "dot", &["."]),
    ("", "prefix", &["."]),
    ("", "equal_span", &["="]),
    ("", "sets", &["="]),
    ("", "database_span", &["DATABASE", "SCHEMA"]),
    ("", "modify_span", &["MODIFY", "MODIFYCOLUMN"]),
    ("", "values", &["VALUES", "VALUE"]),
    ("", "timestamp_add_span", &["TIMESTAMPADD"]),
    ("", "timestamp_diff_span", &["TIMESTAMPDIFF"]),
    ("Variable", "global", &["@@GLOBAL"]),
    ("Variable", "session", &["@@SESSION"]),
    ("OwnerTo", "span", &["OWNERTO"]),
    ("ConstraintDefinition", "span", &["CONSTRAINT"]),
    ("Index", "0", &["INDEX", "KEY"]),
    ("IndexTypeBTree", "0", &["BTREE"]),
    ("IndexTypeHash", "0", &["HASH"]),
    ("IndexTypeRTree", "0", &["RTREE"]),
    ("Primary", "0", &["PRIMARYKEY"]),
    ("FullText", "0", &["FULLTEXTINDEX", "FULLTEXTKEY"]),
    ("Spatial", "0", &["SPATIALINDEX", "SPATIALKEY"]),
    ("Unique", "0", &["UNIQUE", "UNIQUEINDEX", "UNIQUEKEY"]),
    ("InOut", "0", &["INOUT"]),
    ("Delete", "0", &["DELETE", "ONDELETE"]),
    ("Update", "0", &["UPDATE", "ONUPDATE"]),
    ("Inner", "0", &["INNERJOIN"]),
    ("Cross", "0", &["CROSSJOIN"]),
    ("Normal", "0", &["JOIN"]),
    ("Straight", "0", &["STRAIGHTJOIN"]),
    ("Left", "0", &["LEFTJOIN", "LEFTOUTERJOIN"]),
    ("Right", "0", &["RIGHTJOIN", "RIGHTOUTERJOIN"]),
    ("Natural", "0", &["NATURALJOIN"]),
    ("NaturalInner", "0", &["NATURALINNERJOIN"]),
    ("NaturalLeft", "0", &["NATURALLEFTJOIN", "NATURALLEFTOUTERJOIN"]),
    ("NaturalRight", "0", &["NATURALRIGHTJOIN", "NATURALRIGHTOUTERJOIN"]),
    ("SkipLocket", "0", &["SKIPLOCKED"]),
    ("SqlSecurityDefiner", "0", &["SQLSECURITY", "SQLSECURITYDEFINER"]),
    ("SqlSecurityDefiner", "1", &["DEFINER"]),
    ("SqlSecurityUser", "0", &["SQLSECURITY", "SQLSECURITYUSER"]),
    ("SqlSecurityUser", "1", &["USER"]),
    ("Star", "0", &["*"]),
    ("GeneratedAlways", "0", &["GENERATEDALWAYS", "GENERATEDALWAYSASIDENTITY"]),
    ("On", "1", &["ON"]),
    ("Using", "1", &["USING"]),
    ("CaseStatement", "end_span", &["END", "ENDCASE"]),
    ("CharSet", "identifier", &["CHARSET", "CHARACTERSET"]),
    ("DefaultCharSet", "identifier", &["DEFAULT", "DEFAULTCHARSET", "DEFAULTCHARACTERSET"]),
    ("DefaultCollate", "identifier", &["DEFAULT", "DEFAULTCOLLATE"]),
    ("AutoIncrement", "0", &["AUTOINCREMENT"]),
];

/// Fields that hold some text of the statement and no particular words
fn free(node: &str, field: &str) -> bool {
    matches!(node, "Identifier" | "SString" | "Invalid" | "Stdin" | "Named") || (node == "Numeric" && field == "2") || (node == "As" && field != "0")
}

pub struct Agree<'a> {
    text: &'a str,
    /// Where an error says that a number is no good
    errors: Vec<Range<usize>>,
    /// Positions compared
    pub n: u64,
    pub bad: Option<String>,
}

impl<'a> Agree<'a> {
    pub fn new(text: &'a str, diags: &[Diag]) -> Self {
        let errors = diags.iter().filter(|d| d.error).map(|d| d.span.clone()).collect();
        Agree { text, errors, n: 0, bad: None }
    }

    fn at(&self, r: &Range<usize>) -> &'a str {
        self.text.get(r.clone()).unwrap_or("")
    }

    fn is(&mut self, what: &str, r: &Range<usize>, expected: &[&str]) {
        if none(r) {
            return;
        }
        self.n += 1;
        let s = squash(self.at(r));
        if !expected.contains(&s.as_str()) && self.bad.is_none() {
            self.bad = Some(format!("{} is {:?} at {:?}, expected one of {:?}", what, self.at(r), r, expected));
        }
    }

    fn table(&mut self, what: &str, t: &[(&str, &[&str])], n: &str, r: &Range<usize>) {
        match t.iter().find(|x| x.0 == n) {
            Some(x) => self.is(&format!("{} {}", what, n), r, x.1),
            None => self.is(&format!("{} {}", what, n), r, &[&camel(n)]),
        }
    }

    fn field(&mut self, node: &str, f: &str, r: &Range<usize>) {
        if free(node, f) {
            return;
        }
        let w = WORDS.iter().find(|x| x.0 == node && x.1 == f).or_else(|| WORDS.iter().find(|x| x.0.is_empty() && x.1 == f));
        let what = format!("{}.{}", node, f);
        if let Some(w) = w {
            return self.is(&what, r, w.2);
        }
        if f.bytes().all(|c| c.is_ascii_digit()) {
            return self.is(&what, r, &[&camel(node)]);
        }
        if f == "identifier" {
            // an option
            return self.is(&what, r, &[&camel(node)]);
        }
        let n = f.strip_suffix("_span").unwrap_or(f);
        self.is(&what, r, &[&camel(n)])
    }

    fn number(&mut self, node: &str, n: &str, r: &Range<usize>) {
        if none(r) || self.errors.contains(r) {
            return;
        }
        self.n += 1;
        let t = self.at(r);
        let ok = match node {
            "Arg" => {
                t == "?" || t == "%s" || t == "%d" || t.strip_prefix('$').is_some_and(|t| t.parse::<usize>().ok().and_then(|x| x.checked_sub(1)) == n.parse().ok())
            }
            "ListHack" => t.eq_ignore_ascii_case("_LIST_"),
            _ => match (t.parse::<u64>(), n.parse::<u64>()) {
                (Ok(a), Ok(b)) => a == b,
                _ => t.parse::<f64>().ok().zip(n.parse::<f64>().ok()).is_some_and(|(a, b)| a == b),
            },
        };
        if !ok && self.bad.is_none() {
            self.bad = Some(format!("{} {} is {:?} at {:?}", node, n, t, r));
        }
    }

    pub fn check(&mut self, v: &V) {
        self.walk(v, "", "");
    }

    fn walk(&mut self, v: &V, node: &str, field: &str) {
        match v {
            V::Range(r) => self.field(node, field, r),
            V::List(l) => l.iter().for_each(|x| self.walk(x, node, field)),
            V::Tuple(l) => match l.as_slice() {
                [V::Num(n), V::Range(r)] => self.number(node, n, r),
                [V::Node(n, f), V::Range(r)] if f.is_empty() && matches!(field, "time_unit" | "unit") => self.table("unit", &[], n, r),
                [V::Node(b, f), V::Range(r)] if f.is_empty() && (b == "true" || b == "false") => self.is(&format!("{} {}", node, b), r, &if b == "true" { ["1", "TRUE"] } else { ["0", "FALSE"] }),
                [V::List(l), V::Range(r)] if field == "time_interval" => {
                    let t = crate::props::c21_value(self.at(r)).unwrap_or(self.at(r).to_string());
                    let want: Vec<Option<i64>> = t.split([':', '!', ',', '.', '-', ' ']).map(|x| x.parse().ok()).collect();
                    let got: Vec<Option<i64>> = l.iter().map(|x| if let V::Num(n) = x { n.parse().ok() } else { None }).collect();
                    self.n += 1;
                    if !none(r) && !self.errors.contains(r) && want != got && self.bad.is_none() {
                        self.bad = Some(format!("interval {:?} is {:?} at {:?}", got, self.at(r), r));
                    }
                }
                _ => l.iter().for_each(|x| self.walk(x, node, field)),
            },
            V::Node(n, f) => {
                let get = |k: &str| f.iter().find(|x| x.0 == k).map(|x| &x.1);
                let mut done: &[&str] = &[];
                match (n.as_str(), f.as_slice()) {
                    ("Binary" | "Unary", _) if get("op").is_some() => {
                        if let (Some(V::Node(o, _)), Some(V::Range(r))) = (get("op"), get("op_span")) {
                            self.table("operator", OPERATORS, o, r);
                        }
                        done = &["op", "op_span"];
                    }
                    ("In", _) if get("not_in").is_some() => {
                        if let (Some(V::Node(o, _)), Some(V::Range(r))) = (get("not_in"), get("in_span")) {
                            self.is("membership", r, &[if o == "true" { "NOTIN" } else { "IN" }]);
                        }
                        done = &["in_span"];
                    }
                    ("Is", [_, (_, V::Node(t, _)), (_, V::Range(r))]) => {
                        self.is("test", r, &[&format!("IS{}", camel(t))]);
                        done = &["1", "2"];
                    }
                    ("Bool", [(_, V::Node(b, _)), (_, V::Range(r))]) => {
                        self.is("truth value", r, &[&b.to_uppercase()]);
                        done = &["0", "1"];
                    }
                    ("Bit", [(_, V::Num(b)), (_, V::Range(r))]) => {
                        self.number(n, b, r);
                        done = &["0", "1"];
                    }
                    ("Function", [(_, V::Node(k, o)), _, (_, V::Range(r))]) => {
                        self.function(k, o, r);
                        self.known(k, r);
                        done = &["0", "2"];
                    }
                    ("WindowFunction", _) => {
                        if let (Some(V::Node(k, o)), Some(V::Range(r))) = (get("function"), get("function_span")) {
                            self.function(k, o, r);
                            self.known(k, r);
                        }
                        done = &["function", "function_span"];
                    }
                    ("Variable", _) => {
                        if let (Some(V::Node(k, o)), Some(V::Range(r))) = (get("variable"), get("variable_span")) {
                            self.function(k, o, r);
                            if k == "Other" && self.at(r).eq_ignore_ascii_case("TIME_ZONE") && self.bad.is_none() {
                                self.bad = Some(format!("TIME_ZONE is {:?} at {:?}", o, r));
                            }
                        }
                        done = &["variable", "variable_span"];
                    }
                    ("DataType", _) => {
                        if let (Some(V::Node(k, _)), Some(V::Range(r))) = (get("type_"), get("identifier")) {
                            if k != "Named" {
                                self.table("type", TYPES, k, r);
                            }
                        }
                        done = &["identifier"];
                    }
                    ("Numeric", [(_, V::Num(a)), (_, V::Num(b)), (_, V::Range(r))]) => {
                        let t = squash(self.at(r));
                        let of = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).and_then(|t| t.split_once(','));
                        let num = |x: &str| x.parse::<u64>().ok();
                        let ok = of.is_some_and(|(x, y)| num(x).is_some() && num(y).is_some() && (num(x), num(y)) == (num(a), num(b)));
                        self.n += 1;
                        if !ok && !self.errors.iter().any(|e| r.start <= e.start && e.end <= r.end) && self.bad.is_none() {
                            self.bad = Some(format!("precision {} {} is {:?} at {:?}", a, b, self.at(r), r));
                        }
                        done = &["0", "1", "2"];
                    }
                    _ => (),
                }
                for (k, x) in f {
                    if !done.contains(&k.as_str()) {
                        self.walk(x, n, k);
                    }
                }
            }
            _ => (),
        }
    }

    /// A bare word that is the name of a function with a variant is that one
    fn known(&mut self, k: &str, r: &Range<usize>) {
        if k == "Other" && crate::gen::known_function(&self.at(r).to_ascii_uppercase()) && self.bad.is_none() {
            self.bad = Some(format!("{:?} at {:?} is not taken for the function of that name", self.at(r), r));
        }
    }

    fn function(&mut self, k: &str, o: &[(String, V)], r: &Range<usize>) {
        if let ("Other", [(_, V::Str(s))]) = (k, o) {
            self.n += 1;
            if self.at(r).trim_matches(|c| c == '`' || c == '"') != s && self.bad.is_none() {
                self.bad = Some(format!("{:?} is {:?} at {:?}", s, self.at(r), r));
            }
        } else {
            self.table("function", FUNCTIONS, k, r);
        }
    }
}

/// Fields of a statement whose position was never filled in
pub fn blanks<'v>(v: &'v V, node: &'v str, field: &'v str, out: &mut Vec<(&'v str, &'v str)>) {
    match v {
        V::Range(r) if none(r) => out.push((node, field)),
        V::List(l) | V::Tuple(l) => l.iter().for_each(|x| blanks(x, node, field, out)),
        V::Node(n, f) => f.iter().for_each(|(k, x)| blanks(x, n, k, out)),
        _ => (),
    }
}

pub fn ext(v: &V) -> Option<Range<usize>> {
    match v {
        V::Range(r) => (!none(r)).then(|| r.clone()),
        V::Node(_, f) => f.iter().filter_map(|x| ext(&x.1)).reduce(|a, b| a.start.min(b.start)..a.end.max(b.end)),
        V::List(l) | V::Tuple(l) => l.iter().filter_map(ext).reduce(|a, b| a.start.min(b.start)..a.end.max(b.end)),
        _ => None,
    }
}

/// Parts of a node that are not written in the order of its fields: the
/// second before the first
const BACKWARDS: &[(&str, &str, &str)] = &[
    ("AddIndex", "if_not_exists", "constraint"),
    ("AddIndex", "index_type", "constraint"),
    ("AddIndex", "name", "constraint"),
    ("Binary", "op_span", "lhs"),
    ("CreateIndex", "index_name", "if_not_exists"),
    ("CreateTable", "identifier", "if_not_exists"),
    ("Function", "1", "2"),
    ("In", "rhs", "in_span"),
    ("Join", "join", "left"),
    ("On", "0", "1"),
    ("Using", "0", "1"),
    ("WindowFunction", "args", "function_span"),
    ("Delete.where_", "0", "1"),
    ("Select.where_", "0", "1"),
    ("Update.where_", "0", "1"),
    ("Select.having", "0", "1"),
];

/// Parts of a node written in any order
const ANY: &[(&str, &str, &str)] = &[
    ("AddIndex", "cols", "index_options"),
    ("Delete", "from_span", "tables"),
    ("Select.limit", "1", "2"),
    ("Union.limit", "1", "2"),
];

/// Are the parts of each node disjoint and in the order they are written?
pub fn order(v: &V, text: &str, n: &mut u64, bad: &mut Option<String>) {
    order_in(v, "", text, n, bad);
}

fn order_in(v: &V, at: &str, text: &str, n: &mut u64, bad: &mut Option<String>) -> Option<Range<usize>> {
    let mut parts: Vec<(&str, Range<usize>)> = Vec::new();
    const DIGITS: [&str; 4] = ["0", "1", "2", "3"];
    let node: &str = match v {
        V::Range(r) => return (!none(r)).then(|| r.clone()),
        V::Str(_) | V::Num(_) => return None,
        V::Node(k, f) => {
            for (p, x) in f {
                if let Some(r) = order_in(x, &format!("{}.{}", k, p), text, n, bad) {
                    parts.push((p, r));
                }
            }
            k
        }
        V::List(l) => {
            for x in l {
                if let Some(r) = order_in(x, at, text, n, bad) {
                    parts.push(("", r));
                }
            }
            at
        }
        V::Tuple(l) => {
            for (i, x) in l.iter().enumerate() {
                if let Some(r) = order_in(x, at, text, n, bad) {
                    parts.push((DIGITS[i.min(3)], r));
                }
            }
            at
        }
    };
    if bad.is_none() {
        let many = parts.len() > 12;
        for i in 0..parts.len() {
            for j in i + 1..if many { (i + 2).min(parts.len()) } else { parts.len() } {
                let ((a, x), (b, y)) = (&parts[i], &parts[j]);
                let is = |t: &[(&str, &str, &str)]| t.contains(&(node, *a, *b));
                *n += 1;
                let ok = if is(ANY) || x == y && (node == "DataType" || matches!(v, V::Node(_, f) if f.iter().any(|(p, x)| p == b && matches!(x, V::Node(n, _) if n == "Invalid")))) {
                    true
                } else if is(BACKWARDS) {
                    y.end <= x.start
                } else {
                    x.end <= y.start
                };
                if !ok {
                    *bad = Some(format!("{} {:?} {:?} and {} {:?} {:?} of {}", a, x, text.get(x.clone()), b, y, text.get(y.clone()), node));
                    return None;
                }
            }
        }
    }
    parts.into_iter().map(|p| p.1).reduce(|a, b| a.start.min(b.start)..a.end.max(b.end))
}

/// May hold blocks, whose own words are not kept
fn routine(kind: &str) -> bool {
    matches!(kind, "CreateTrigger" | "CreateFunction" | "Do")
}

/// Keywords of supported statements that the library does not keep
pub fn kept(kind: &str, prev: &str, word: &str) -> bool {
    match word {
        "AS" | "EXISTS" | "OFFSET" | "USING" | "CHARACTER" | "CHARSET" | "COLLATE" | "COMMENT" | "EXCEPTION" => false,
        "BEGIN" | "END" | "WHEN" | "THEN" => !routine(kind),
        "DO" => kind != "Do",
        "COLUMN" => prev != "ADD",
        "DEFAULT" => prev == "SET" || prev == "DROP",
        "SET" => prev != "CHARACTER" && kind != "CreateTable",
        "FOREIGN" | "KEY" | "REFERENCES" | "CASCADE" | "RESTRICT" | "ON" | "DELETE" => kind != "CreateTable",
        "NULL" => kind != "CreateTable" && (prev != "THEN" || !routine(kind)),
        w => !w.ends_with("_OPS"),
    }
}
