//! Generator of supported statements: what the simulated clients send.

use crate::choice::Choices;
use sql_parse::{ParseOptions, SQLArguments, SQLDialect};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls {
    Kw,
    Name,
    Str,
    Int,
    Float,
    Arg,
    Op,
    /// A word that is neither a keyword nor a name kept in the result
    Word,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    None,
    Text(String),
    Int(u64),
    Float(f64),
    /// Two numbers returned with one position that starts here
    Pair(u64, u64),
    /// Placeholder, with its own number if it has one
    Arg(Option<usize>),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    pub cls: Cls,
    /// May follow the previous token without white space
    pub glue: bool,
    /// Must be found in the result, with its value at its position
    pub track: bool,
    pub val: Val,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Opts {
    pub dialect: u8,
    pub args: u8,
    pub warn_id: bool,
    pub warn_kw: bool,
    pub list_hack: bool,
    /// Order in which the application sets them
    pub order: u8,
}

pub const MARIA: u8 = 0;
pub const PG: u8 = 1;
pub const SQLITE: u8 = 2;

impl Opts {
    /// Options under which error free scripts can be generated
    pub fn choose(c: &mut Choices) -> Opts {
        let dialect = c.below(3) as u8;
        Opts {
            dialect,
            args: c.below(4) as u8,
            warn_id: c.chance(1, 4) && dialect != PG,
            warn_kw: c.chance(1, 4),
            list_hack: c.chance(1, 4),
            order: c.below(8) as u8,
        }
    }
    pub fn choose_any(c: &mut Choices) -> Opts {
        let mut o = Opts::choose(c);
        o.warn_id = c.chance(1, 4);
        o
    }
    pub fn options(&self) -> ParseOptions {
        let dialect = || match self.dialect {
            MARIA => SQLDialect::MariaDB,
            PG => SQLDialect::PostgreSQL,
            _ => SQLDialect::Sqlite,
        };
        let arguments = || match self.args {
            0 => SQLArguments::None,
            1 => SQLArguments::QuestionMark,
            2 => SQLArguments::Percent,
            _ => SQLArguments::Dollar,
        };
        let mut p = if self.order % 2 == 0 { ParseOptions::new() } else { ParseOptions::default() };
        if self.order >= 6 {
            // the last setting of each counts
            p = p.list_hack(!self.list_hack).dialect(SQLDialect::Sqlite).warn_unquoted_identifiers(!self.warn_id);
            p = p.arguments(SQLArguments::Percent).warn_none_capital_keywords(!self.warn_kw);
        }
        for k in 0..5 {
            p = match (k * (1 + self.order % 4) + self.order) % 5 {
                0 => p.dialect(dialect()),
                1 => p.arguments(arguments()),
                2 => p.warn_unquoted_identifiers(self.warn_id),
                3 => p.warn_none_capital_keywords(self.warn_kw),
                _ => p.list_hack(self.list_hack),
            };
        }
        let q = p.clone();
        let d = q.get_dialect();
        assert!(d.is_maria() == (self.dialect == MARIA) && d.is_postgresql() == (self.dialect == PG) && d.is_sqlite() == (self.dialect == SQLITE), "dialect of the options");
        q
    }
}

#[derive(Clone, Debug)]
pub struct Stmt {
    /// Variant name of the statement returned for it
    pub kind: &'static str,
    pub toks: Vec<Tok>,
    /// Contains nested statements with their own terminators
    pub compound: bool,
    /// Followed by inline data
    pub copy: bool,
}

impl Stmt {
    /// May start or hold statement lists if words of it are damaged
    pub fn nesting(&self) -> bool {
        self.toks.iter().any(|t| {
            t.cls == Cls::Kw
                && matches!(
                    t.text.to_ascii_uppercase().as_str(),
                    "BEGIN" | "IF" | "CASE" | "DO" | "TRIGGER" | "FUNCTION"
                )
        })
    }
}

struct Kind {
    name: &'static str,
    dialects: &'static [u8],
    f: fn(&mut G),
}

const ALL: &[u8] = &[MARIA, PG, SQLITE];
const NOTPG: &[u8] = &[MARIA, SQLITE];
const ONLYPG: &[u8] = &[PG];

static KINDS: &[Kind] = &[
    Kind { name: "Select", dialects: ALL, f: |g| g.select(3) },
    Kind { name: "Select", dialects: ALL, f: |g| g.select(2) },
    Kind { name: "Union", dialects: ALL, f: |g| g.union() },
    Kind { name: "Delete", dialects: ALL, f: |g| g.delete() },
    Kind { name: "InsertReplace", dialects: ALL, f: |g| g.insert() },
    Kind { name: "InsertReplace", dialects: ALL, f: |g| g.insert() },
    Kind { name: "Update", dialects: ALL, f: |g| g.update() },
    Kind { name: "Set", dialects: ALL, f: |g| g.set() },
    Kind { name: "Signal", dialects: ALL, f: |g| g.signal() },
    Kind { name: "StartTransaction", dialects: ALL, f: |g| g.k("START TRANSACTION") },
    Kind { name: "Commit", dialects: ALL, f: |g| g.k("COMMIT") },
    Kind { name: "Begin", dialects: ALL, f: |g| g.k("BEGIN") },
    Kind { name: "End", dialects: ALL, f: |g| g.k("END") },
    Kind { name: "Return", dialects: ALL, f: |g| { g.k("RETURN"); g.expr(2) } },
    Kind { name: "If", dialects: ALL, f: |g| g.if_top() },
    Kind { name: "Case", dialects: ALL, f: |g| g.case_top() },
    Kind { name: "TruncateTable", dialects: ALL, f: |g| g.truncate() },
    Kind { name: "RenameTable", dialects: NOTPG, f: |g| g.rename() },
    Kind { name: "DropTable", dialects: ALL, f: |g| g.drop_table() },
    Kind { name: "DropView", dialects: ALL, f: |g| g.drop_list("VIEW") },
    Kind { name: "DropDatabase", dialects: ALL, f: |g| { let w = if g.c.chance(1, 2) { "SCHEMA" } else { "DATABASE" }; g.drop_one(w, false) } },
    Kind { name: "DropEvent", dialects: ALL, f: |g| g.drop_one("EVENT", true) },
    Kind { name: "DropFunction", dialects: ALL, f: |g| g.drop_one("FUNCTION", true) },
    Kind { name: "DropProcedure", dialects: ALL, f: |g| g.drop_one("PROCEDURE", true) },
    Kind { name: "DropServer", dialects: ALL, f: |g| g.drop_one("SERVER", false) },
    Kind { name: "DropTrigger", dialects: ALL, f: |g| g.drop_one("TRIGGER", true) },
    Kind { name: "DropIndex", dialects: &[MARIA, PG], f: |g| g.drop_index() },
    Kind { name: "CreateTable", dialects: ALL, f: |g| g.create_table() },
    Kind { name: "CreateTable", dialects: ALL, f: |g| g.create_table() },
    Kind { name: "CreateView", dialects: ALL, f: |g| g.create_view() },
    Kind { name: "CreateIndex", dialects: ALL, f: |g| g.create_index() },
    Kind { name: "CreateTrigger", dialects: ALL, f: |g| g.create_trigger() },
    Kind { name: "CreateFunction", dialects: ALL, f: |g| g.create_function() },
    Kind { name: "CreateTypeEnum", dialects: ONLYPG, f: |g| g.create_type() },
    Kind { name: "AlterTable", dialects: ALL, f: |g| g.alter() },
    Kind { name: "AlterTable", dialects: ALL, f: |g| g.alter() },
    Kind { name: "Do", dialects: ONLYPG, f: |g| g.do_block() },
    Kind { name: "WithQuery", dialects: ONLYPG, f: |g| g.with_query() },
    Kind { name: "Copy", dialects: ALL, f: |g| g.copy() },
];

const TIME_UNITS: &[&str] = &[
    "MICROSECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "QUARTER", "YEAR",
    "SECOND_MICROSECOND", "MINUTE_MICROSECOND", "MINUTE_SECOND", "HOUR_MICROSECOND", "HOUR_SECOND",
    "HOUR_MINUTE", "DAY_MICROSECOND", "DAY_SECOND", "DAY_MINUTE", "DAY_HOUR", "YEAR_MONTH",
];

const FUNCS: &[&str] = &[
    "ABS", "ACOS", "ADDDATE", "ADDTIME", "ADD_MONTHS", "ASCII", "ASIN", "ATAN",
    "ATAN2", "BIN", "BIT_LENGTH", "CEIL", "CEILING", "CHARACTER_LENGTH", "CHAR_LENGTH", "CHR",
    "CONCAT", "CONCAT_WS", "CONV", "CONVERT_TZ", "COS", "COT", "CRC32", "CRC32C",
    "CURDATE", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "CURTIME", "DATE", "DATEDIFF", "DATE_ADD",
    "DATE_FORMAT", "DATE_SUB", "DAY", "DAYNAME", "DAYOFMONTH", "DAYOFWEEK", "DAYOFYEAR", "DEGREES",
    "ELT", "EXP", "EXPORT_SET", "EXTRACTVALUE", "FIELD", "FIND_IN_SET", "FLOOR", "FORMAT",
    "FROM_BASE64", "FROM_DAYS", "FROM_UNIXTIME", "GREATEST", "HEX", "HOUR", "IF", "IFNULL",
    "INSERT", "REPEAT", "POSITION", "INSTR", "JSON_ARRAY", "JSON_ARRAYAGG", "JSON_ARRAY_APPEND", "JSON_ARRAY_INSERT", "JSON_ARRAY_INTERSECT", "JSON_COMPACT",
    "LAG", "LAST_DAY", "LCASE", "LEAD", "LEAST", "LEFT", "LENGTH", "LENGTHB",
    "LN", "LOAD_FILE", "LOCALTIME", "LOCALTIMESTAMP", "LOCATE", "LOG", "LOG10", "LOG2",
    "LOWER", "LPAD", "LTRIM", "MAKEDATE", "MAKETIME", "MAKE_SET", "MAX", "MICROSECOND",
    "MID", "MIN", "MINUTE", "MONTH", "MONTHNAME", "NATURAL_SORT_KEY", "NOW", "NULLIF",
    "NVL", "NVL2", "OCT", "OCTET_LENGTH", "ORD", "PERIOD_ADD", "PERIOD_DIFF", "PI",
    "POW", "POWER", "QUARTER", "QUOTE", "RADIANS", "RAND", 
    "REPLACE", "REVERSE", "RIGHT", "ROUND", "RPAD", "RTRIM", "SECOND", "SEC_TO_TIME",
    "SFORMAT", "SIGN", "SIN", "SOUNDEX", "SPACE", "SQRT", "STARTS_WITH", "STRCMP",
    "STR_TO_DATE", "SUBDATE", "SUBSTR", "SUBSTRING", "SUBSTRING_INDEX", "SUBTIME", "SUM", "SYSDATE",
    "TAN", "TIME", "TIMEDIFF", "TIMESTAMP", "TIME_FORMAT", "TIME_TO_SEC", "TO_BASE64", "TO_CHAR",
    "TO_DAYS", "TO_SECONDS", "TRIM", "TRUNCATE", "UCASE", "UNCOMPRESSED_LENGTH", "UNHEX", "UNIX_TIMESTAMP",
    "UPDATEXML", "UPPER", "UTC_DATE", "UTC_TIME", "UTC_TIMESTAMP", "VALUE", "VALUES", "WEEK",
    "WEEKDAY", "WEEKOFYEAR", "YEAR", "YEARWEEK", "DATETIME", "JSON_CONTAINS", "JSON_CONTAINS_PATH", "JSON_DEPTH",
    "JSON_DETAILED", "JSON_EQUALS", "JSON_EXISTS", "JSON_EXTRACT", "JSON_INSERT", "JSON_KEYS", "JSON_LENGTH", "JSON_LOOSE",
    "JSON_MERGE", "JSON_MERGE_PATCH", "JSON_MERGE_PRESERVE", "JSON_NORMALIZE", "JSON_OBJECT", "JSON_OBJECTAGG", "JSON_OBJECT_FILTER_KEYS", "JSON_OBJECT_TO_ARRAY",
    "JSON_OVERLAPS", "JSON_PRETTY", "JSON_QUERY", "JSON_QUOTE", "JSON_REMOVE", "JSON_REPLACE", "JSON_SCHEMA_VALID", "JSON_SEARCH",
    "JSON_SET", "JSON_TABLE", "JSON_TYPE", "JSON_UNQUOTE", "JSON_VALID", "JSON_VALUE", "STRFTIME", "EXISTS_",
];

/// Functions with a variant of their own
pub fn known_function(w: &str) -> bool {
    FUNCS.contains(&w) && !matches!(w, "TRIM" | "EXISTS_")
}

const NAME_BASES: &[&str] = &["a", "tbl", "col", "user_name", "Item", "_x", "long_identifier_name", "x", "q2z"];
const RESERVED: &[&str] = &["select", "ORDER", "from", "Table", "key", "delimiter", "group", "END", "1", "a-b", "0-"];

pub struct G<'c> {
    pub c: &'c mut Choices,
    pub o: Opts,
    pub toks: Vec<Tok>,
    compound: bool,
    copy: bool,
    n: &'c mut usize,
    fuel: usize,
    /// Nesting allowed beyond the usual
    deep: usize,
    /// List elements allowed beyond the usual
    extra: usize,
    /// Is most of what may be left out written?
    full: bool,
    kwcase: usize,
}

impl<'c> G<'c> {
    /// Length of a list
    fn len(&mut self, max: usize) -> usize {
        if self.extra > 0 && self.c.chance(1, 2) {
            let k = 1 + self.c.below(self.extra);
            self.extra -= k;
            k
        } else {
            self.c.small(max)
        }
    }
    /// How deep what is nested may go on
    fn less(&mut self, d: usize) -> usize {
        if self.deep > 0 && self.c.chance(3, 4) {
            self.deep -= 1;
            d
        } else {
            d - 1
        }
    }
    fn push(&mut self, text: String, cls: Cls, track: bool, val: Val) {
        self.toks.push(Tok { text, cls, glue: false, track, val });
    }
    /// Keywords separated by spaces
    pub fn k(&mut self, s: &str) {
        for w in s.split(' ') {
            let t = match self.kwcase {
                0 => w.to_string(),
                1 => w.to_ascii_lowercase(),
                _ => w
                    .chars()
                    .enumerate()
                    .map(|(i, c)| if i % 2 == 1 { c.to_ascii_lowercase() } else { c })
                    .collect(),
            };
            self.push(t, Cls::Kw, false, Val::None);
        }
    }
    fn p(&mut self, s: &str) {
        let glue = matches!(s, "," | ";" | ")" | "." | "(") && !matches!(self.toks.last().map(|t| t.cls), Some(Cls::Int | Cls::Float) if s == ".");
        self.push(s.to_string(), Cls::Op, false, Val::None);
        self.toks.last_mut().unwrap().glue = glue;
    }
    fn glue(&mut self) {
        self.toks.last_mut().unwrap().glue = true;
    }
    fn opt(&mut self, s: &str) -> bool {
        let b = self.c.chance(1, 2);
        if b {
            self.k(s);
        }
        b
    }
    fn rare(&mut self) -> bool {
        if self.full {
            self.c.chance(2, 3)
        } else {
            self.c.chance(1, 5)
        }
    }
    fn pg(&self) -> bool {
        self.o.dialect == PG
    }
    fn maria(&self) -> bool {
        self.o.dialect == MARIA
    }

    fn fresh(&mut self) -> String {
        *self.n += 1;
        let b = self.c.pick(NAME_BASES);
        if self.c.chance(1, 150) {
            // up to and beyond what servers allow
            let l = *self.c.pick(&[30usize, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 300, 1100]);
            let mut t = format!("{}{}", b, *self.n);
            while t.len() < l {
                t.push(*self.c.pick(&['a', 'Z', '_', '0', 'q']));
            }
            return t;
        }
        format!("{}{}", b, *self.n)
    }

    /// A name where any identifier is accepted
    fn name(&mut self) {
        self.name_t(true)
    }
    fn name_t(&mut self, track: bool) {
        let quoted = self.o.warn_id || self.c.chance(1, 3);
        if self.pg() {
            let n = self.fresh();
            if quoted {
                let n = if self.c.chance(1, 4) { format!("{} é;\u{1F600}", n) } else { n };
                self.push(format!("\"{}\"", n), Cls::Name, track, Val::Text(n));
            } else {
                self.push(n.clone(), Cls::Name, track, Val::Text(n));
            }
        } else {
            self.bt(quoted, track)
        }
    }
    fn bt(&mut self, quoted: bool, track: bool) {
        if quoted {
            let n = if self.c.chance(1, 4) { self.c.pick(RESERVED).to_string() } else { self.fresh() };
            self.push(format!("`{}`", n), Cls::Name, track, Val::Text(n));
        } else {
            let n = self.fresh();
            self.push(n.clone(), Cls::Name, track, Val::Text(n));
        }
    }
    /// A name in an expression or table reference
    fn rname(&mut self) {
        self.name()
    }
    /// A name in an expression
    fn cname(&mut self) {
        self.name()
    }
    fn qname(&mut self) {
        self.name();
        if self.c.chance(1, 4) {
            self.p(".");
            self.name();
            self.glue();
        }
    }
    fn rqname(&mut self) {
        self.rname();
        if self.c.chance(1, 4) {
            self.p(".");
            self.rname();
            self.glue();
        }
    }
    fn names(&mut self) {
        self.name();
        for _ in 0..self.len(3) {
            self.p(",");
            self.name();
        }
    }
    fn rnames(&mut self) {
        self.rname();
        for _ in 0..self.len(3) {
            self.p(",");
            self.rname();
        }
    }
    fn int_max(&mut self, max: u64) {
        let v = match self.c.below(4) {
            0 => self.c.below(10) as u64,
            1 => self.c.below(256) as u64,
            2 => max.min(4294967295),
            _ => self.c.below(100000) as u64,
        }
        .min(max);
        let t = if self.c.chance(1, 40) { format!("{:0w$}", v, w = self.c.range(2, 30)) } else { v.to_string() };
        self.push(t, Cls::Int, true, Val::Int(v));
    }
    fn int(&mut self) {
        let big = self.c.chance(1, 10);
        if big {
            let v = u64::MAX - self.c.below(3) as u64;
            self.push(v.to_string(), Cls::Int, true, Val::Int(v));
        } else {
            self.int_max(u64::MAX)
        }
    }
    fn float(&mut self) {
        let a = self.c.below(1000);
        let t = match self.c.below(3) {
            0 => format!("{}.{}", a, self.c.below(1000)),
            1 => format!("{}.", a),
            _ if self.c.chance(1, 15) => {
                let n = self.c.range(1, 24);
                let t: String = (0..n).map(|_| char::from(b'0' + self.c.below(10) as u8)).collect();
                format!("{}{}.{}{}", t, a, self.c.below(1000), t)
            }
            _ => format!(".{}", self.c.below(1000)),
        };
        let v = t.parse::<f64>().unwrap();
        self.push(t, Cls::Float, true, Val::Float(v));
    }
    fn text(&mut self) -> String {
        *self.n += 1;
        let b = self.c.pick(&["s", "", "hello world ", "; SELECT 1; -- ", "/* no comment */ ", "(,) ", "line\nbreak\r\n", "é ü \u{1F600} ", "$$ ", "% _ "]);
        if self.c.chance(1, 200) {
            let k = if self.c.chance(1, 60) { 70_000 / b.len().max(1) } else { *self.c.pick(&[20usize, 70, 300, 1200]) };
            return format!("{}{}", b.repeat(k), *self.n);
        }
        format!("{}{}", b, *self.n)
    }
    fn string(&mut self) {
        self.string_t(true)
    }
    fn string_t(&mut self, track: bool) {
        if self.c.chance(1, 12) {
            // only the quote after a backslash is decoded
            let n = self.text();
            let e = *self.c.pick(&["\\\\", "\\n", "\\%", "a\\\\\\\\", "\\\\''", "\\;"]);
            let t = if self.c.chance(1, 2) { format!("'{}{}'", n, e) } else { format!("'{}{}'", e, n) };
            return self.push(t, Cls::Str, false, Val::None);
        }
        let (mut t, mut n) = self.piece();
        // adjacent strings are one
        if self.c.chance(1, 8) {
            for _ in 0..1 + self.len(2) {
                let mut gap = String::new();
                space(self.c, &mut gap);
                let (u, m) = self.piece();
                t = format!("{}{}{}", t, gap, u);
                n.push_str(&m);
            }
        }
        self.push(t, Cls::Str, track, Val::Text(n));
    }
    /// A quoted string and its value
    fn piece(&mut self) -> (String, String) {
        let mut n = self.text();
        // in PostgreSQL double quotes are for names
        let k = if self.pg() { 3 } else { 0 };
        match k + self.c.below(9 - k) {
            0 => {
                n.push_str(" \"q\" ");
                (format!("\"{}\"", n.replace('"', "\"\"")), n)
            }
            1 => {
                n.push_str(" `tick` it's ");
                (format!("\"{}\"", n), n)
            }
            2 => (format!("\"{}\"", n), n),
            3 | 4 => {
                n.push_str(" it's");
                (format!("'{}'", n.replace('\'', "''")), n)
            }
            5 => {
                n.push_str(" \"q\" ");
                (format!("'{}'", n), n)
            }
            6 => {
                n.push_str(" it's");
                (format!("'{}'", n.replace('\'', "\\'")), n)
            }
            _ => (format!("'{}'", n), n),
        }
    }
    /// A string where the two quote kinds must be told apart by the dialect
    fn sq(&mut self, track: bool) {
        let n = self.text();
        self.push(format!("'{}'", n), Cls::Str, track, Val::Text(n));
    }

    fn arg(&mut self) -> bool {
        match self.o.args {
            1 => self.push("?".into(), Cls::Arg, true, Val::Arg(None)),
            2 => {
                let w = *self.c.pick(&["%s", "%s", "%d"]);
                self.push(w.into(), Cls::Arg, true, Val::Arg(None))
            }
            3 => {
                let n = if self.c.chance(1, 30) { *self.c.pick(&[99usize, 100, 255, 256, 257, 999, 65535, 65536, 70000, 1 << 31, 1 << 32]) } else { self.c.range(1, 12) };
                self.push(format!("${}", n), Cls::Arg, true, Val::Arg(Some(n - 1)))
            }
            _ => return false,
        }
        true
    }

    pub fn leaf(&mut self) {
        match self.c.below(11) {
            0 | 1 => self.int(),
            2 | 3 => self.col(),
            4 => self.string(),
            5 => self.float(),
            6 | 7 => {
                if !self.arg() {
                    self.col()
                }
            }
            8 => {
                let k = *self.c.pick(&["NULL", "TRUE", "FALSE"]);
                self.k(k)
            }
            9 => {
                if self.o.list_hack {
                    self.push("_LIST_".into(), Cls::Arg, true, Val::Arg(None));
                } else {
                    self.int()
                }
            }
            _ => match self.c.below(4) {
                0 => {
                    let k = *self.c.pick(&["CURRENT_TIMESTAMP", "CURRENT_DATE", "CURRENT_TIME", "LOCALTIME", "LOCALTIMESTAMP", "UTC_DATE", "UTC_TIME", "UTC_TIMESTAMP"]);
                    self.k(k)
                }
                1 => {
                    self.k("INTERVAL");
                    if self.c.chance(1, 2) {
                        self.int_max(1000);
                        // the value is kept as a list of numbers
                        self.toks.last_mut().unwrap().track = false;
                    } else {
                        let t = match self.c.below(3) {
                            0 => self.c.pick(&["1", "1:2", "1.5-6", "10 20"]).to_string(),
                            _ => {
                                let mut t = self.c.below(10000).to_string();
                                for _ in 0..self.c.small(6) {
                                    t.push(*self.c.pick(&[':', '!', ',', '.', '-', ' ']));
                                    t.push_str(&self.c.below(100).to_string());
                                }
                                t
                            }
                        };
                        self.push(format!("'{}'", t), Cls::Str, false, Val::None);
                    }
                    let u = *self.c.pick(TIME_UNITS);
                    self.k(u);
                }
                2 => {
                    let v: String = self.c.pick(&["@@global", "@@session"]).chars().map(|x| if self.c.chance(1, 3) { x.to_ascii_uppercase() } else { x }).collect();
                    self.push(v, Cls::Op, false, Val::None);
                    self.p(".");
                    if self.c.chance(1, 2) {
                        self.k("TIME_ZONE")
                    } else {
                        let n = self.fresh();
                        self.push(n, Cls::Word, false, Val::None)
                    }
                    self.glue();
                }
                _ => self.int(),
            },
        }
    }

    fn col(&mut self) {
        self.cname();
        for _ in 0..self.c.small(2) {
            self.p(".");
            self.cname();
            self.glue();
        }
    }

    /// Any expression
    pub fn expr(&mut self, d: usize) {
        self.operand(d);
        if self.fuel == 0 {
            return;
        }
        for _ in 0..self.len(3) {
            if self.fuel == 0 {
                break;
            }
            self.fuel -= 1;
            match self.c.below(9) {
                0..=4 => {
                    let op = *self.c.pick(&[
                        "+", "-", "*", "/", "=", "<=>", ">=", ">", "<=", "<", "<>", "!=", "<<", ">>", "&", "|", "||", "&&", "OR", "AND", "XOR", "LIKE", "NOT LIKE",
                    ]);
                    if op.as_bytes()[0].is_ascii_alphabetic() {
                        self.k(op)
                    } else {
                        self.push(op.to_string(), Cls::Op, false, Val::None)
                    }
                    self.operand(d);
                }
                5 => {
                    self.k("IS");
                    self.opt("NOT");
                    let w = *self.c.pick(&["NULL", "TRUE", "FALSE", "UNKNOWN"]);
                    self.k(w);
                }
                _ => {
                    self.opt("NOT");
                    self.k("IN");
                    self.p("(");
                    if d > 0 && self.c.chance(1, 3) {
                        let e = self.less(d);
                        self.select(e);
                    } else {
                        self.expr(d.saturating_sub(1));
                        for _ in 0..self.len(3) {
                            self.p(",");
                            self.expr(d.saturating_sub(1));
                        }
                    }
                    self.p(")");
                }
            }
        }
    }

    fn operand(&mut self, d: usize) {
        if self.c.chance(1, 8) {
            let u = *self.c.pick(&["NOT", "-", "!", "BINARY"]);
            if u == "NOT" || u == "BINARY" {
                self.k(u)
            } else {
                self.push(u.to_string(), Cls::Op, false, Val::None)
            }
        }
        if d == 0 || self.fuel == 0 {
            return self.leaf();
        }
        self.fuel -= 1;
        let e = self.less(d);
        match self.c.below(20) {
            0..=9 => self.leaf(),
            10 => {
                self.p("(");
                self.expr(e);
                self.p(")");
            }
            11 => {
                self.p("(");
                self.query_in_expr(e);
                self.p(")");
            }
            12 | 13 => self.func(e),
            14 => {
                self.k("EXISTS");
                self.p("(");
                self.query(e);
                self.p(")");
            }
            15 => {
                self.k("CASE");
                if self.c.chance(1, 2) {
                    self.expr(e);
                }
                for _ in 0..1 + self.len(2) {
                    self.k("WHEN");
                    self.expr(e);
                    self.k("THEN");
                    self.expr(e);
                }
                if self.opt("ELSE") {
                    self.expr(e);
                }
                self.k("END");
            }
            16 => {
                self.k("CAST");
                self.p("(");
                self.expr(e);
                self.k("AS");
                self.type_name();
                self.p(")");
            }
            17 => {
                let w = *self.c.pick(&["COUNT", "GROUP_CONCAT"]);
                self.k(w);
                self.p("(");
                if w == "COUNT" && self.c.chance(1, 3) {
                    self.push("*".into(), Cls::Op, false, Val::None);
                } else {
                    self.opt("DISTINCT");
                    self.expr(e);
                }
                self.p(")");
            }
            18 => {
                self.k("EXTRACT");
                self.p("(");
                let u = *self.c.pick(TIME_UNITS);
                self.k(u);
                self.k("FROM");
                self.expr(e);
                self.p(")");
            }
            _ => {
                let w = *self.c.pick(&["TIMESTAMPADD", "TIMESTAMPDIFF"]);
                self.k(w);
                self.p("(");
                let u = *self.c.pick(TIME_UNITS);
                self.k(u);
                self.p(",");
                self.expr(e);
                self.p(",");
                self.expr(e);
                self.p(")");
            }
        }
    }

    fn func(&mut self, d: usize) {
        if self.c.chance(1, 4) && !self.o.warn_id {
            // unknown functions are kept by name, but not as an identifier
            let n = self.fresh();
            self.push(n, Cls::Word, false, Val::None);
        } else {
            let f = *self.c.pick(FUNCS);
            if f == "EXISTS_" {
                let n = self.fresh();
                self.push(n, Cls::Word, false, Val::None);
            } else {
                self.k(f);
            }
        }
        self.p("(");
        let n = self.len(3);
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            if i + 1 == n && d > 0 && self.c.chance(1, 10) {
                let e = self.less(d);
                self.select(e)
            } else {
                self.expr(d)
            }
        }
        self.p(")");
        if self.c.chance(1, 8) {
            self.k("OVER");
            self.p("(");
            self.order_by(d);
            self.p(")");
        }
    }

    fn order_by(&mut self, d: usize) {
        self.k("ORDER BY");
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            self.expr(d);
            match self.c.below(3) {
                1 => self.k("ASC"),
                2 => self.k("DESC"),
                _ => (),
            }
        }
    }

    /// Expression after LIMIT, DEFAULT and the like
    fn inner(&mut self) {
        match self.c.below(8) {
            0 | 1 => self.int(),
            2 => self.string(),
            3 => {
                if !self.arg() {
                    self.int()
                }
            }
            4 => self.k("NULL"),
            5 => {
                self.push("-".into(), Cls::Op, false, Val::None);
                self.int()
            }
            6 => {
                self.p("(");
                self.expr(1);
                self.p(")");
            }
            _ => self.k("CURRENT_TIMESTAMP"),
        }
    }

    fn limit(&mut self) {
        self.k("LIMIT");
        self.lim1();
        match self.c.below(3) {
            1 => {
                self.p(",");
                self.lim1();
            }
            2 => {
                self.k("OFFSET");
                self.lim1();
            }
            _ => (),
        }
    }
    fn lim1(&mut self) {
        if self.c.chance(1, 3) && self.arg() {
        } else {
            self.int()
        }
    }

    fn query(&mut self, d: usize) {
        if self.c.chance(1, 4) {
            self.union_d(d, true)
        } else {
            self.select(d)
        }
    }
    /// In an expression a bracket after the bracket opens an expression
    fn query_in_expr(&mut self, d: usize) {
        if self.c.chance(1, 4) {
            self.union_d(d, false)
        } else {
            self.select(d)
        }
    }

    fn union(&mut self) {
        self.union_d(2, true)
    }
    fn union_d(&mut self, d: usize, bracket: bool) {
        if bracket {
            self.union_part(d);
        } else {
            self.simple_select(d);
        }
        for _ in 0..1 + self.len(2) {
            self.k("UNION");
            match self.c.below(3) {
                1 => self.k("ALL"),
                2 => self.k("DISTINCT"),
                _ => (),
            }
            self.union_part(d);
        }
        if self.rare() {
            self.order_by(0);
        }
        if self.rare() {
            self.limit();
        }
    }
    fn union_part(&mut self, d: usize) {
        if d > 0 && self.c.chance(1, 3) {
            self.p("(");
            let e = self.less(d);
            self.query(e);
            self.p(")");
        } else {
            self.simple_select(d);
        }
    }
    /// A select that can be followed by UNION, ORDER BY and LIMIT
    fn simple_select(&mut self, d: usize) {
        self.k("SELECT");
        self.select_exprs(d.saturating_sub(1));
        self.k("FROM");
        self.rqname();
        if self.rare() {
            self.k("WHERE");
            self.expr(d.saturating_sub(1));
        }
    }

    fn select_exprs(&mut self, d: usize) {
        for i in 0..1 + self.len(4) {
            if i > 0 {
                self.p(",");
            }
            match self.c.below(8) {
                0 => self.push("*".into(), Cls::Op, false, Val::None),
                1 => {
                    self.cname();
                    self.p(".");
                    self.push("*".into(), Cls::Op, false, Val::None);
                    self.glue();
                }
                _ => {
                    self.expr(d);
                    if self.c.chance(1, 4) {
                        self.k("AS");
                        self.name();
                    }
                }
            }
        }
    }

    pub fn select(&mut self, d: usize) {
        self.k("SELECT");
        let flags = &[
            "DISTINCT", "DISTINCTROW", "HIGH_PRIORITY", "STRAIGHT_JOIN", "SQL_SMALL_RESULT", "SQL_BIG_RESULT",
            "SQL_BUFFER_RESULT", "SQL_NO_CACHE", "SQL_CALC_FOUND_ROWS", "ALL",
        ];
        if self.rare() {
            for _ in 0..1 + self.len(2) {
                let f = *self.c.pick(flags);
                self.k(f);
            }
        }
        let e = d.saturating_sub(1);
        self.select_exprs(e);
        if !self.full && self.c.chance(1, 5) || self.fuel == 0 {
            return;
        }
        self.k("FROM");
        self.table_refs(e);
        if self.c.chance(1, 2) {
            self.k("WHERE");
            self.expr(e);
        }
        if self.rare() {
            self.k("GROUP BY");
            for i in 0..1 + self.len(2) {
                if i > 0 {
                    self.p(",");
                }
                self.expr(e.min(1));
            }
        }
        if self.rare() {
            self.k("HAVING");
            self.expr(e.min(1));
        }
        if self.rare() {
            self.order_by(e.min(1));
        }
        if self.rare() {
            self.limit();
        }
        if self.c.chance(1, 10) {
            self.k("FOR");
            if self.pg() {
                let w = *self.c.pick(&["UPDATE", "SHARE", "NO KEY UPDATE", "KEY SHARE"]);
                self.k(w);
            } else {
                let w = *self.c.pick(&["UPDATE", "SHARE"]);
                self.k(w);
            }
            if self.rare() {
                self.k("OF");
                self.names();
            }
            match self.c.below(4) {
                1 => self.k("NOWAIT"),
                2 => self.k("SKIP LOCKED"),
                _ => (),
            }
        }
    }

    fn table_refs(&mut self, d: usize) {
        let mut using = self.table_ref(d);
        for _ in 0..self.len(2) {
            // The list after USING takes every comma
            if using {
                break;
            }
            self.p(",");
            using = self.table_ref(d);
        }
    }
    /// Does it end in a USING list?
    fn table_ref(&mut self, d: usize) -> bool {
        self.table_bottom(d);
        let mut using = false;
        for _ in 0..self.len(2) {
            using = false;
            let j = *self.c.pick(&[
                "JOIN", "INNER JOIN", "CROSS JOIN", "STRAIGHT_JOIN", "LEFT JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN",
                "NATURAL JOIN", "NATURAL LEFT JOIN", "NATURAL LEFT OUTER JOIN", "NATURAL RIGHT JOIN", "NATURAL INNER JOIN", "NATURAL RIGHT OUTER JOIN",
            ]);
            self.k(j);
            self.table_bottom(d);
            if j.starts_with("NATURAL") {
                continue;
            }
            match self.c.below(3) {
                0 => {
                    self.k("ON");
                    self.expr(d.min(1));
                }
                1 => {
                    self.k("USING");
                    if self.c.chance(1, 2) {
                        self.p("(");
                        self.names();
                        self.p(")");
                    } else {
                        self.names();
                        using = true;
                    }
                }
                _ => {
                    if j.starts_with("LEFT") || j.starts_with("RIGHT") {
                        self.k("ON");
                        self.expr(d.min(1));
                    }
                }
            }
        }
        using
    }
    fn table_bottom(&mut self, d: usize) {
        if d > 0 && self.fuel > 0 && self.c.chance(1, 4) {
            self.fuel -= 1;
            let e = self.less(d);
            self.p("(");
            if self.c.chance(1, 3) {
                self.union_d(e, true)
            } else {
                self.select(e);
            }
            self.p(")");
            self.opt("AS");
            self.rname();
        } else {
            self.rqname();
            if self.c.chance(1, 3) {
                if self.c.chance(1, 2) {
                    self.k("AS");
                }
                self.rname();
            }
            if self.maria() && self.c.chance(1, 6) {
                let w = *self.c.pick(&["USE", "IGNORE", "FORCE"]);
                self.k(w);
                let w = *self.c.pick(&["INDEX", "KEY"]);
                self.k(w);
                if self.rare() {
                    let w = *self.c.pick(&["FOR JOIN", "FOR GROUP BY", "FOR ORDER BY"]);
                    self.k(w);
                }
                self.p("(");
                self.names();
                self.p(")");
            }
        }
    }

    fn delete(&mut self) {
        self.k("DELETE");
        if self.rare() {
            let f = *self.c.pick(&["LOW_PRIORITY", "QUICK", "IGNORE"]);
            self.k(f);
        }
        if self.c.chance(1, 4) {
            self.rqname();
            for _ in 0..self.len(2) {
                self.p(",");
                self.rqname();
            }
            self.k("FROM");
            self.table_refs(1);
        } else {
            self.k("FROM");
            self.rqname();
            if self.rare() {
                self.k("USING");
                self.table_refs(1);
            }
        }
        if self.c.chance(2, 3) {
            self.k("WHERE");
            self.expr(2);
        }
        if self.rare() {
            self.k("RETURNING");
            self.select_exprs(1);
        }
    }

    fn update(&mut self) {
        self.k("UPDATE");
        if self.rare() {
            let f = *self.c.pick(&["LOW_PRIORITY", "IGNORE"]);
            self.k(f);
        }
        self.table_refs(1);
        self.k("SET");
        for i in 0..1 + self.len(3) {
            if i > 0 {
                self.p(",");
            }
            self.name();
            if self.c.chance(1, 4) {
                self.p(".");
                self.name();
                self.glue();
            }
            self.push("=".into(), Cls::Op, false, Val::None);
            self.expr(2);
        }
        if self.c.chance(2, 3) {
            self.k("WHERE");
            self.expr(2);
        }
        if self.pg() && self.rare() {
            self.k("RETURNING");
            self.select_exprs(1);
        }
    }

    fn insert(&mut self) {
        let insert = !self.c.chance(1, 3);
        self.k(if insert { "INSERT" } else { "REPLACE" });
        if self.rare() {
            let f = if insert { *self.c.pick(&["LOW_PRIORITY", "HIGH_PRIORITY", "DELAYED", "IGNORE"]) } else { *self.c.pick(&["LOW_PRIORITY", "DELAYED"]) };
            self.k(f);
        }
        self.opt("INTO");
        self.qname();
        let form = self.c.below(4);
        if form != 3 {
            if self.c.chance(2, 3) {
                self.p("(");
                self.names();
                self.p(")");
            }
            if form == 2 {
                self.select(2);
            } else {
                let w = *self.c.pick(&["VALUES", "VALUE"]);
                self.k(w);
                for i in 0..1 + self.len(2) {
                    if i > 0 {
                        self.p(",");
                    }
                    self.p("(");
                    for j in 0..1 + self.len(3) {
                        if j > 0 {
                            self.p(",");
                        }
                        self.expr(1);
                    }
                    self.p(")");
                }
            }
        } else {
            self.k("SET");
            self.sets();
        }
        if self.maria() && self.rare() && insert && form != 2 {
            self.k("ON DUPLICATE KEY UPDATE");
            self.sets();
        }
        if self.pg() && self.rare() && insert && form != 2 {
            self.k("ON CONFLICT");
            match self.c.below(3) {
                1 => {
                    self.p("(");
                    self.names();
                    self.p(")");
                }
                2 => {
                    self.k("ON CONSTRAINT");
                    self.name();
                }
                _ => (),
            }
            self.k("DO");
            if self.c.chance(1, 2) {
                self.k("UPDATE SET");
                self.sets();
                if self.rare() {
                    self.k("WHERE");
                    self.expr(1);
                }
            } else {
                self.k("NOTHING");
            }
        }
        if self.rare() {
            self.k("RETURNING");
            self.select_exprs(1);
        }
    }
    fn sets(&mut self) {
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            self.name();
            self.push("=".into(), Cls::Op, false, Val::None);
            self.expr(1);
        }
    }

    fn set(&mut self) {
        self.k("SET");
        self.sets();
    }

    fn signal(&mut self) {
        self.k("SIGNAL SQLSTATE");
        self.opt("VALUE");
        self.sq(true);
        if self.c.chance(1, 2) {
            self.k("SET");
            for i in 0..1 + self.len(2) {
                if i > 0 {
                    self.p(",");
                }
                let w = *self.c.pick(&[
                    "CLASS_ORIGIN", "SUBCLASS_ORIGIN", "MESSAGE_TEXT", "MYSQL_ERRNO", "CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA",
                    "CONSTRAINT_NAME", "CATALOG_NAME", "SCHEMA_NAME", "TABLE_NAME", "COLUMN_NAME", "CURSOR_NAME",
                ]);
                self.k(w);
                self.push("=".into(), Cls::Op, false, Val::None);
                self.expr(1);
            }
        }
    }

    /// IF statement without inner terminators
    fn if_top(&mut self) {
        let lists = self.c.chance(1, 2);
        self.k("IF");
        self.expr(1);
        self.k("THEN");
        self.branch(lists);
        for _ in 0..self.len(2) {
            self.k("ELSEIF");
            self.expr(1);
            self.k("THEN");
            self.branch(lists);
        }
        if self.opt("ELSE") {
            self.branch(lists);
        }
        self.k("END IF");
    }
    fn case_top(&mut self) {
        let lists = self.c.chance(1, 2);
        self.k("CASE");
        if self.c.chance(1, 2) {
            self.expr(1);
        }
        for _ in 0..1 + self.len(2) {
            self.k("WHEN");
            self.expr(1);
            self.k("THEN");
            self.branch(lists);
        }
        if self.opt("ELSE") {
            self.branch(lists);
        }
        self.end_case();
    }
    /// What a condition guards: statements with terminators, or just one
    fn branch(&mut self, lists: bool) {
        if lists {
            self.block_list(1)
        } else {
            self.nested_top()
        }
    }
    fn begin_end(&mut self, d: usize) {
        self.k("BEGIN");
        self.block_list(d);
        self.handlers();
        self.k("END");
    }
    fn do_block(&mut self) {
        self.k("DO");
        self.push("$$".into(), Cls::Op, false, Val::None);
        self.begin_end(2);
        if self.c.chance(1, 2) {
            self.p(";");
        }
        self.push("$$".into(), Cls::Op, false, Val::None);
    }
    fn end_case(&mut self) {
        if self.c.chance(1, 2) {
            self.k("END CASE");
        } else {
            self.k("END");
        }
    }
    /// A statement inside of another one, outside of routines
    fn nested_top(&mut self) {
        if self.fuel > 0 && self.c.chance(1, 3) {
            self.fuel -= 1;
            match self.c.below(10) {
                0 => self.begin_end(0),
                1 => self.k("COMMIT"),
                2 => self.k("START TRANSACTION"),
                3 => self.case_top(),
                4 => self.if_top(),
                5 => self.signal(),
                6 => self.insert(),
                7 => self.update(),
                8 => self.union(),
                _ => self.drop_table(),
            }
        } else {
            self.dml(1)
        }
    }
    fn dml(&mut self, d: usize) {
        match self.c.below(5) {
            0 => self.select(d),
            1 => self.set(),
            2 => {
                self.k("RETURN");
                self.expr(d)
            }
            3 => self.delete(),
            _ => self.truncate(),
        }
    }

    /// Statement list with terminators, inside a trigger
    fn block_list(&mut self, d: usize) {
        self.compound = true;
        for _ in 0..1 + self.len(3) {
            if d > 0 && self.fuel > 0 && self.c.chance(1, 3) {
                self.fuel -= 1;
                let e = self.less(d);
                match self.c.below(3) {
                    0 => {
                        self.k("IF");
                        self.expr(1);
                        self.k("THEN");
                        self.block_list(e);
                        if self.rare() {
                            self.k("ELSEIF");
                            self.expr(1);
                            self.k("THEN");
                            self.block_list(e);
                        }
                        if self.opt("ELSE") {
                            self.block_list(e);
                        }
                        self.k("END IF");
                    }
                    1 => {
                        self.k("CASE");
                        if self.c.chance(1, 2) {
                            self.expr(1);
                        }
                        for _ in 0..1 + self.len(2) {
                            self.k("WHEN");
                            self.expr(1);
                            self.k("THEN");
                            self.block_list(e);
                        }
                        if self.opt("ELSE") {
                            self.block_list(e);
                        }
                        self.end_case();
                    }
                    _ => self.begin_end(e),
                }
            } else {
                match self.c.below(if self.fuel > 0 { 16 } else { 6 }) {
                    0 | 1 => self.dml(1),
                    2 | 3 => self.insert(),
                    4 | 5 => self.update(),
                    n => {
                        self.fuel -= 1;
                        match n {
                            6 => self.signal(),
                            7 => self.k("COMMIT"),
                            8 => self.k("START TRANSACTION"),
                            9 => self.drop_table(),
                            10 => self.create_table(),
                            11 => self.alter(),
                            12 => self.union(),
                            13 if !self.pg() => self.rename(),
                            13 => self.with_query(),
                            14 => self.create_view(),
                            _ => self.create_index(),
                        }
                    }
                }
            }
            self.p(";");
        }
    }

    fn create_options(&mut self) {
        self.k("CREATE");
        if self.rare() {
            self.k("OR REPLACE");
        }
        if self.c.chance(1, 8) {
            self.k("DEFINER");
            self.push("=".into(), Cls::Op, false, Val::None);
            self.name();
            self.push("@".into(), Cls::Op, false, Val::None);
            self.name();
        }
        if self.c.chance(1, 8) {
            self.k("SQL SECURITY");
            let w = *self.c.pick(&["DEFINER", "USER"]);
            self.k(w);
        }
    }
    fn if_not_exists(&mut self) {
        if self.rare() {
            self.k("IF NOT EXISTS");
        }
    }

    fn create_trigger(&mut self) {
        self.create_options();
        self.k("TRIGGER");
        self.if_not_exists();
        self.name();
        let w = *self.c.pick(&["AFTER", "BEFORE"]);
        self.k(w);
        let w = *self.c.pick(&["UPDATE", "INSERT", "DELETE"]);
        self.k(w);
        self.k("ON");
        self.name();
        self.k("FOR EACH ROW");
        if self.c.chance(1, 3) {
            self.dml(1);
        } else {
            self.begin_end(2);
        }
    }

    /// Exception handlers of a block; they are not part of the result
    fn handlers(&mut self) {
        if !self.c.chance(1, 6) {
            return;
        }
        self.k("EXCEPTION");
        for _ in 0..1 + self.len(2) {
            self.k("WHEN");
            self.bt(self.o.warn_id, false);
            self.k("THEN");
            match self.c.below(3) {
                0 => self.k("NULL"),
                1 => {
                    self.int();
                    self.toks.last_mut().unwrap().track = false;
                }
                _ => self.bt(self.o.warn_id, false),
            }
            self.p(";");
        }
    }

    fn create_function(&mut self) {
        self.create_options();
        self.k("FUNCTION");
        self.if_not_exists();
        self.name();
        self.p("(");
        for i in 0..self.len(3) {
            if i > 0 {
                self.p(",");
            }
            if self.c.chance(1, 4) {
                let w = *self.c.pick(&["IN", "OUT", "INOUT", "IN OUT"]);
                self.k(w);
            }
            self.name();
            self.type_name();
        }
        self.p(")");
        self.k("RETURNS");
        self.type_name();
        if self.maria() {
            match self.c.below(8) {
                0 => {
                    self.k("CHARACTER SET");
                    self.name();
                }
                1 => {
                    self.k("COLLATE");
                    self.name();
                }
                2 => self.k("UNSIGNED"),
                3 => self.k("NOT NULL"),
                _ => {}
            }
        }
        if self.pg() && self.c.chance(2, 3) {
            self.k("AS");
            self.push("$$".into(), Cls::Op, false, Val::None);
            let o = self.toks.len();
            self.dml(1);
            if self.c.chance(1, 2) {
                self.compound = true;
                self.p(";");
                self.dml(1);
                self.p(";");
            }
            for t in &mut self.toks[o..] {
                t.track = false;
                if t.cls == Cls::Arg {
                    // the body is opaque, what is in it is not counted
                    t.cls = Cls::Word;
                    t.val = Val::None;
                }
            }
            self.push("$$".into(), Cls::Op, false, Val::None);
        }
        for _ in 0..self.len(3) {
            match self.c.below(10) {
                8 => self.k("NOT DETERMINISTIC"),
                9 => {
                    self.k("COMMENT");
                    self.sq(true);
                }
                0 => self.k("LANGUAGE SQL"),
                1 => self.k("DETERMINISTIC"),
                2 => self.k("NO SQL"),
                3 => self.k("CONTAINS SQL"),
                4 => self.k("NO SQL"),
                5 => self.k("READS SQL DATA"),
                6 => self.k("MODIFIES SQL DATA"),
                _ => {
                    self.k("SQL SECURITY");
                    let w = *self.c.pick(&["DEFINER", "USER"]);
                    self.k(w);
                }
            }
        }
        if self.pg() && self.rare() {
            self.k("LANGUAGE PLPGSQL");
        }
        if self.maria() {
            if self.c.chance(1, 2) {
                self.dml(1);
            } else {
                self.begin_end(2);
            }
        }
    }

    fn create_type(&mut self) {
        self.k("CREATE TYPE");
        self.name();
        self.k("AS ENUM");
        self.p("(");
        for i in 0..1 + self.len(3) {
            if i > 0 {
                self.p(",");
            }
            self.sq(true);
        }
        self.p(")");
    }

    fn create_view(&mut self) {
        self.create_options();
        if self.c.chance(1, 8) {
            self.k("ALGORITHM");
            self.push("=".into(), Cls::Op, false, Val::None);
            let w = *self.c.pick(&["UNDEFINED", "MERGE", "TEMPTABLE"]);
            self.k(w);
        }
        self.k("VIEW");
        self.if_not_exists();
        self.qname();
        self.k("AS");
        self.query(2);
    }

    fn create_index(&mut self) {
        self.k("CREATE");
        if self.rare() {
            self.k("UNIQUE");
        }
        self.k("INDEX");
        self.if_not_exists();
        self.name();
        self.k("ON");
        self.qname();
        if self.pg() && self.rare() {
            self.k("USING GIST");
        }
        self.p("(");
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            self.name();
            if self.pg() && self.rare() {
                let w = *self.c.pick(&["TEXT_PATTERN_OPS", "VARCHAR_PATTERN_OPS", "BPCHAR_PATTERN_OPS", "INT8_OPS", "INT4_OPS", "INT2_OPS"]);
                self.k(w);
            }
        }
        self.p(")");
        if !self.maria() && self.rare() {
            self.k("WHERE");
            self.expr(2);
        }
    }

    fn create_table(&mut self) {
        self.k("CREATE");
        if self.rare() {
            self.k("OR REPLACE");
        }
        if self.rare() {
            self.k("TEMPORARY");
        }
        self.k("TABLE");
        self.if_not_exists();
        self.qname();
        self.p("(");
        for i in 0..1 + self.len(4) {
            if i > 0 {
                self.p(",");
            }
            if self.c.chance(1, 6) {
                self.k("CONSTRAINT");
                self.name_t(false);
                self.k("FOREIGN KEY");
                self.p("(");
                self.name_t(false);
                for _ in 0..self.len(2) {
                    self.p(",");
                    self.name_t(false);
                }
                self.p(")");
                self.k("REFERENCES");
                self.name_t(false);
                self.p("(");
                self.name_t(false);
                for _ in 0..self.len(2) {
                    self.p(",");
                    self.name_t(false);
                }
                self.p(")");
                if self.rare() {
                    self.k("ON DELETE");
                    let w = *self.c.pick(&["CASCADE", "RESTRICT", "SET NULL"]);
                    self.k(w);
                }
            } else {
                self.rname();
                self.column_type();
            }
        }
        self.p(")");
        let mut used = 0u32;
        for _ in 0..self.len(3) {
            let k = self.c.below(8);
            if used & (1 << k) != 0 {
                continue;
            }
            used |= 1 << k;
            match k {
                0 => self.table_opt("ENGINE"),
                1 => self.table_opt("CHARSET"),
                2 => self.table_opt("DEFAULT CHARSET"),
                3 => self.table_opt("COLLATE"),
                4 => self.table_opt("ROW_FORMAT"),
                7 => self.table_opt("DEFAULT COLLATE"),
                5 => {
                    self.k("COMMENT");
                    if self.c.chance(1, 2) {
                        self.push("=".into(), Cls::Op, false, Val::None);
                    }
                    self.sq(true);
                }
                _ => self.k("STRICT"),
            }
        }
    }
    fn table_opt(&mut self, k: &str) {
        self.k(k);
        if self.c.chance(1, 2) {
            self.push("=".into(), Cls::Op, false, Val::None);
        }
        self.name();
    }

    /// A bare type
    fn type_name(&mut self) {
        match self.c.below(12) {
            0 | 1 => self.k("INT"),
            2 => {
                let w = *self.c.pick(&["TINYINT", "SMALLINT", "INTEGER", "INT", "BIGINT", "CHAR", "TEXT", "VARCHAR", "DATETIME", "TIME", "BINARY", "TIMESTAMP", "BLOB", "LONGTEXT"]);
                self.k(w);
                if self.c.chance(1, 2) {
                    self.p("(");
                    self.int_max(255);
                    self.p(")");
                }
            }
            3 => {
                let w = *self.c.pick(&["BOOLEAN", "TINYTEXT", "MEDIUMTEXT", "LONGTEXT", "MEDIUMBLOB", "LONGBLOB", "TINYBLOB", "INET4", "INET6", "FLOAT8", "REAL", "FLOAT", "JSON", "DATE", "BYTEA", "TIMESTAMPTZ"]);
                self.k(w);
            }
            4 => {
                self.k("VARCHAR");
                self.p("(");
                self.int_max(65535);
                self.p(")");
            }
            5 => {
                self.k("NUMERIC");
                self.p("(");
                let at = self.toks.len() - 1;
                let mut v = [0, 0];
                self.int_max(60);
                if let Some(Tok { track, val: Val::Int(x), .. }) = self.toks.last_mut() {
                    *track = false;
                    v[0] = *x;
                }
                self.p(",");
                self.int_max(30);
                if let Some(Tok { track, val: Val::Int(x), .. }) = self.toks.last_mut() {
                    *track = false;
                    v[1] = *x;
                }
                self.p(")");
                self.toks[at].track = true;
                self.toks[at].val = Val::Pair(v[0], v[1]);
            }
            6 => {
                let w = *self.c.pick(&["ENUM", "SET"]);
                self.k(w);
                self.p("(");
                for i in 0..1 + self.len(3) {
                    if i > 0 {
                        self.p(",");
                    }
                    self.sq(true);
                }
                self.p(")");
            }
            7 => {
                let w = *self.c.pick(&["BIT", "VARBINARY"]);
                self.k(w);
                self.p("(");
                self.int_max(64);
                self.p(")");
            }
            8 => {
                self.k("DOUBLE");
                if self.pg() {
                    self.k("PRECISION");
                }
            }
            9 => {
                self.k("TIMESTAMP WITH TIME ZONE");
            }
            _ => {
                if self.pg() {
                    let n = self.fresh();
                    self.push(n, Cls::Word, false, Val::None);
                } else {
                    self.k("INT")
                }
            }
        }
    }

    fn column_type(&mut self) {
        self.type_name();
        for _ in 0..self.len(3) {
            match self.c.below(16) {
                13 | 14 => {
                    self.k("DEFAULT");
                    self.inner();
                }
                0 => self.k("NOT NULL"),
                1 => self.k("NULL"),
                2 => self.k("UNSIGNED"),
                3 => self.k("SIGNED"),
                4 => self.k("ZEROFILL"),
                5 | 6 => {
                    self.k("COMMENT");
                    self.sq(true);
                }
                7 => {
                    self.k("CHARACTER SET");
                    self.name();
                }
                8 => {
                    self.k("COLLATE");
                    self.name();
                }
                9 => {
                    self.k("UNIQUE");
                    if self.maria() && self.c.chance(1, 2) {
                        self.k("KEY");
                    }
                }
                10 => {
                    if self.pg() {
                        self.k("GENERATED ALWAYS AS IDENTITY");
                    } else {
                        self.k("GENERATED ALWAYS AS");
                        self.p("(");
                        self.expr(1);
                        self.p(")");
                        let w = *self.c.pick(&["VIRTUAL", "PERSISTENT", "STORED"]);
                        self.k(w);
                    }
                }
                11 => self.k("PRIMARY KEY"),
                12 => {
                    self.k("CHECK");
                    self.p("(");
                    self.expr(1);
                    self.p(")");
                }
                _ => self.k("AUTO_INCREMENT"),
            }
        }
    }

    fn alter(&mut self) {
        self.k("ALTER");
        if self.rare() {
            self.k("ONLINE");
        }
        if self.rare() {
            self.k("IGNORE");
        }
        self.k("TABLE");
        if self.rare() {
            self.k("IF EXISTS");
        }
        self.qname();
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            match self.c.below(7) {
                0 => {
                    self.k("ADD COLUMN");
                    if !self.maria() && self.rare() {
                        self.k("IF NOT EXISTS");
                    }
                    self.name();
                    self.column_type();
                }
                1 => {
                    self.k("MODIFY");
                    self.opt("COLUMN");
                    if self.rare() {
                        self.k("IF EXISTS");
                    }
                    self.name();
                    self.column_type();
                }
                2 => {
                    self.k("OWNER TO");
                    self.name();
                }
                3 => {
                    self.k("DROP COLUMN");
                    self.name();
                    if self.rare() {
                        self.k("CASCADE");
                    }
                }
                4 => {
                    self.k("ALTER COLUMN");
                    self.name();
                    match self.c.below(5) {
                        0 => self.k("SET NOT NULL"),
                        1 => self.k("DROP NOT NULL"),
                        2 => self.k("DROP DEFAULT"),
                        3 => {
                            self.k("SET DEFAULT");
                            self.expr(1);
                        }
                        _ => {
                            self.k("TYPE");
                            self.type_name();
                        }
                    }
                }
                5 => {
                    self.k("ADD");
                    if self.c.chance(1, 2) {
                        self.k("CONSTRAINT");
                        if self.c.chance(3, 4) {
                            self.rname();
                        }
                    }
                    self.k("FOREIGN KEY");
                    if self.rare() {
                        self.k("IF NOT EXISTS");
                    }
                    if self.rare() {
                        self.rname();
                    }
                    self.index_cols();
                    self.k("REFERENCES");
                    self.name();
                    self.p("(");
                    self.names();
                    self.p(")");
                    for _ in 0..self.len(2) {
                        let w = *self.c.pick(&["ON UPDATE", "ON DELETE"]);
                        self.k(w);
                        let w = *self.c.pick(&["RESTRICT", "CASCADE", "SET NULL", "NO ACTION", "SET DEFAULT"]);
                        self.k(w);
                    }
                }
                _ => {
                    self.k("ADD");
                    if self.rare() {
                        self.k("CONSTRAINT");
                        if self.c.chance(3, 4) {
                            self.rname();
                        }
                    }
                    let w = *self.c.pick(&["PRIMARY KEY", "INDEX", "KEY", "FULLTEXT INDEX", "FULLTEXT KEY", "SPATIAL INDEX", "UNIQUE INDEX", "UNIQUE KEY"]);
                    self.k(w);
                    if self.rare() {
                        self.k("IF NOT EXISTS");
                    }
                    if self.c.chance(1, 2) {
                        self.rname();
                    }
                    if self.rare() {
                        self.index_type();
                    }
                    self.index_cols();
                    for _ in 0..self.len(2) {
                        if self.c.chance(1, 2) {
                            self.index_type();
                        } else {
                            self.k("COMMENT");
                            self.string();
                        }
                    }
                }
            }
        }
    }
    fn index_type(&mut self) {
        self.k("USING");
        let w = *self.c.pick(&["BTREE", "HASH", "RTREE"]);
        self.k(w);
    }
    fn index_cols(&mut self) {
        self.p("(");
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            self.name();
            if self.rare() {
                self.p("(");
                self.int_max(1000);
                self.p(")");
            }
        }
        self.p(")");
    }

    fn truncate(&mut self) {
        self.k("TRUNCATE");
        if self.c.chance(1, 2) {
            self.k("TABLE");
        }
        self.qname();
    }
    fn rename(&mut self) {
        self.k("RENAME TABLE");
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            self.qname();
            self.k("TO");
            self.qname();
        }
    }
    fn if_exists(&mut self) {
        if self.rare() {
            self.k("IF EXISTS");
        }
    }
    fn drop_table(&mut self) {
        self.k("DROP");
        if self.rare() {
            self.k("TEMPORARY");
        }
        self.k("TABLE");
        self.if_exists();
        self.qname();
        for _ in 0..self.len(2) {
            self.p(",");
            self.qname();
        }
        if self.pg() && self.rare() {
            self.k("CASCADE");
        }
    }
    fn drop_list(&mut self, w: &str) {
        self.k("DROP");
        self.k(w);
        self.if_exists();
        self.qname();
        for _ in 0..self.len(2) {
            self.p(",");
            self.qname();
        }
    }
    fn drop_one(&mut self, w: &str, q: bool) {
        self.k("DROP");
        self.k(w);
        self.if_exists();
        if q {
            self.qname()
        } else {
            self.name()
        }
    }
    fn drop_index(&mut self) {
        self.k("DROP INDEX");
        self.if_exists();
        self.name();
        if self.maria() {
            self.k("ON");
            self.qname();
        }
    }

    fn with_query(&mut self) {
        self.k("WITH");
        for i in 0..1 + self.len(2) {
            if i > 0 {
                self.p(",");
            }
            self.name();
            self.k("AS");
            self.p("(");
            self.with_part();
            self.p(")");
        }
        self.with_part();
    }
    fn with_part(&mut self) {
        match self.c.below(4) {
            0 => self.select(1),
            1 => self.delete(),
            2 => self.update(),
            _ => self.insert(),
        }
    }

    fn copy(&mut self) {
        self.k("COPY");
        self.name();
        self.p("(");
        if !self.c.chance(1, 6) {
            self.names();
        }
        self.p(")");
        self.k("FROM STDIN");
        self.copy = true;
    }
}

/// How rich the statements are
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Only {
    Any,
    NoCopy,
    /// No nested statements and no inline data
    Flat,
    Copy,
}

/// How much of everything: fuel, nesting and list elements
fn size(c: &mut Choices) -> (usize, usize, usize) {
    let fuel = 4 + c.below(30);
    match c.below(60) {
        58 if c.chance(1, 8) => (60, 20 + c.below(40), 0),
        59 => (100 + c.below(200), c.below(5), 0),
        58 => (60, 4 + c.below(12), 0),
        56 | 57 => (fuel, 0, *c.pick(&[4usize, 9, 20, 40, 80, 150, 300])),
        _ => (fuel, 0, 0),
    }
}

pub fn stmt(c: &mut Choices, o: Opts, n: &mut usize, only: Only) -> Stmt {
    let (lo, hi) = match only {
        Only::Copy => (KINDS.len() - 1, KINDS.len()),
        Only::Any => (0, KINDS.len()),
        _ => (0, KINDS.len() - 1),
    };
    let i = lo + c.below(hi - lo);
    let k = &KINDS[i];
    if !k.dialects.contains(&o.dialect) {
        return simple(c, o, n);
    }
    if only == Only::Flat && matches!(k.name, "CreateTrigger" | "CreateFunction" | "If" | "Case" | "Begin" | "WithQuery") {
        return simple(c, o, n);
    }
    let (fuel, deep, extra) = size(c);
    let full = c.chance(1, 14);
    let kwcase = if c.chance(1, 4) { 1 + c.below(2) } else { 0 };
    let mut g = G { c, o, toks: Vec::new(), compound: false, copy: false, n, fuel, deep, extra, full, kwcase };
    (k.f)(&mut g);
    Stmt { kind: k.name, toks: g.toks, compound: g.compound, copy: g.copy }
}

/// The fallback statement when the chosen kind does not exist in the dialect
pub fn simple(c: &mut Choices, o: Opts, n: &mut usize) -> Stmt {
    let mut g = G { c, o, toks: Vec::new(), compound: false, copy: false, n, fuel: 10, deep: 0, extra: 0, full: false, kwcase: 0 };
    g.select(2);
    Stmt { kind: "Select", toks: g.toks, compound: false, copy: false }
}

pub fn kinds() -> Vec<(&'static str, &'static [u8])> {
    KINDS.iter().map(|k| (k.name, k.dialects)).collect()
}

/// A statement of the i-th kind, for testing the generator
pub fn stmt_of(c: &mut Choices, o: Opts, n: &mut usize, i: usize) -> Stmt {
    let k = &KINDS[i];
    let (fuel, deep, extra) = size(c);
    let full = c.chance(1, 6);
    let mut g = G { c, o, toks: Vec::new(), compound: false, copy: false, n, fuel, deep, extra, full, kwcase: 0 };
    (k.f)(&mut g);
    Stmt { kind: k.name, toks: g.toks, compound: g.compound, copy: g.copy }
}

/// Separator between two tokens
pub fn space(c: &mut Choices, out: &mut String) {
    match c.below(40) {
        0..=24 => out.push(' '),
        25 => out.push('\n'),
        26 => out.push_str("\t \t"),
        27 => out.push_str("\r\n    "),
        28 => out.push_str(" /* c;'\"` ( é */ "),
        29 => out.push_str(" -- it's ; a $$ comment \u{1F600}\n"),
        30 => out.push_str(" /**/ "),
        31 => out.push_str(" -- é carriage return ;\r"),
        32 => out.push_str(" // slashes ; \" ü\r"),
        33 => out.push_str(" /***/"),
        34 => out.push_str(" /* ** * / a **/"),
        35 => out.push_str(" /*/ ; -- */"),
        36 => out.push_str(" --\n"),
        37 => out.push_str("\r"),
        38 => {
            let n = 60 + c.below(250);
            out.extend(core::iter::repeat(*c.pick(&[' ', '\n', '\t'])).take(n));
        }
        _ => {
            out.push_str(" /*");
            let n = 20 + c.below(100);
            let t = *c.pick(&["é", "* ", "\u{1F600}", "ab\n", "//--"]);
            for _ in 0..n {
                out.push_str(t);
            }
            out.push_str("*/");
        }
    }
}

/// Noise between statements
pub fn keepalive(c: &mut Choices, out: &mut String, term: &str) -> bool {
    if c.chance(1, 3000) {
        // so that what follows starts beyond 65,535
        let n = if c.chance(1, 2) { 66_000 + c.below(70_000) } else { (65_536usize << c.below(2)).saturating_sub(out.len() + c.below(100)) };
        let t = *c.pick(&["\n", " ", "\t", "é", "x\n"]);
        let comment = t.len() > 1;
        if comment {
            out.push_str("/*");
        }
        for _ in 0..n / t.len() {
            out.push_str(t);
        }
        if comment {
            out.push_str("*/");
        }
        return false;
    }
    match c.below(9) {
        0 => out.push('\n'),
        1 => out.push_str("  \n\t"),
        2 => {
            out.push_str(term);
            return true;
        }
        3 => out.push_str("-- keep alive ; '\n"),
        4 => out.push_str("/* keep ; \" alive */"),
        5 => out.push_str("-- keep alive ; `\r"),
        6 => out.push_str("/** ' keep ; **/"),
        7 => {
            let n = 1 + c.below(3);
            for _ in 0..n {
                space(c, out);
            }
        }
        _ => out.push_str("\r\n// alive ( ;\r\n"),
    }
    false
}
