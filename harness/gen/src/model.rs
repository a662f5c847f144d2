//! Model of a schema, generated from a tape, and its rendering as an XML tree.
use crate::xml::*;
use std::collections::{BTreeMap, BTreeSet};
use vp_common::Src;

pub const BUILTINS: &[(&str, &str)] = &[
    ("string", "String"), ("int", "i32"), ("boolean", "bool"), ("hexBinary", "String"),
    ("base64Binary", "String"), ("integer", "xs::Integer"),
    ("nonNegativeInteger", "xs::NonNegativeInteger"), ("positiveInteger", "xs::PositiveInteger"),
    ("nonPositiveInteger", "xs::NonPositiveInteger"), ("negativeInteger", "xs::NegativeInteger"),
    ("long", "i64"), ("short", "i16"), ("byte", "i8"), ("unsignedLong", "u64"),
    ("unsignedInt", "u32"), ("unsignedShort", "u16"), ("unsignedByte", "u8"),
    ("decimal", "xs::Decimal"), ("double", "f64"), ("float", "f64"), ("date", "xs::Date"),
    ("time", "xs::Time"), ("dateTime", "xs::DateTime"), ("dateTimeStamp", "xs::DateTimeStamp"),
    ("duration", "xs::Duration"), ("gDay", "xs::GDay"), ("gMonth", "xs::GMonth"),
    ("gMonthDay", "xs::GMonthDay"), ("gYear", "xs::GYear"), ("gYearMonth", "xs::GYearMonth"),
    ("normalizedString", "String"), ("token", "String"), ("language", "String"),
    ("Name", "String"), ("NCName", "String"), ("ENTITY", "String"), ("ID", "String"),
    ("IDREF", "String"), ("NMTOKEN", "String"), ("anyURI", "String"), ("QName", "String"),
    ("NOTATION", "String"), ("ENTITIES", "Vec<String>"), ("IDREFS", "Vec<String>"),
    ("NMTOKENS", "Vec<String>"),
];

pub fn builtin(name: &str) -> &'static str {
    BUILTINS.iter().find(|b| b.0 == name).expect("known built-in").1
}

pub type Doc = Vec<String>;

#[derive(Clone, Debug, PartialEq)]
pub enum TRef {
    B(&'static str),
    L(String),
    F(usize, String),
}

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, Default)]
pub struct Bounds {
    pub min: Option<String>,
    pub max: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Card {
    One,
    Opt,
    Many,
    Indirect,
}

impl Bounds {
    fn num(s: &str) -> u64 {
        let t: String = s.trim().trim_start_matches('0').chars().take(12).collect();
        if t.is_empty() { 0 } else { t.parse().unwrap() }
    }
    pub fn lo(&self) -> u64 {
        self.min.as_deref().map_or(1, Self::num)
    }
    pub fn hi(&self) -> Option<u64> {
        match self.max.as_deref().map(str::trim) {
            Some("unbounded") => None,
            Some(s) => Some(Self::num(s)),
            None => Some(1),
        }
    }
    pub fn card(&self) -> Card {
        match (self.lo(), self.hi()) {
            (_, None) => Card::Many,
            (_, Some(n)) if n > 1 => Card::Many,
            (0, _) => Card::Opt,
            _ => Card::One,
        }
    }
}

#[derive(Clone, Debug)]
pub enum ETy {
    T(TRef),
    R(TRef),
    C(Box<Complex>),
    S(Box<Simple>),
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub name: String,
    pub ty: ETy,
    pub b: Bounds,
    pub doc: Doc,
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub branches: Vec<Elem>,
    pub doc: Doc,
    pub any: bool,
}

impl Choice {
    pub fn blank(&self) -> bool {
        self.branches.is_empty() && !self.any
    }
}

#[derive(Clone, Debug)]
pub enum Part {
    E(Elem),
    Ch(Choice),
    Any(Doc),
}

#[derive(Clone, Debug)]
pub enum Body {
    None,
    Seq(Vec<Part>),
    All(Vec<Elem>),
    Choice(Choice),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Deriv {
    Plain,
    Ext(TRef),
    Restr(TRef),
    RestrAny,
    SimpleExt(TRef),
}

#[derive(Clone, Debug)]
pub struct Complex {
    pub deriv: Deriv,
    pub body: Body,
    pub atts: Vec<Att>,
    pub doc: Doc,
    pub inner_doc: Doc,
}

#[derive(Clone, Debug)]
pub enum Att {
    A(Attr),
    Any(Doc),
    G(TRef),
}

#[derive(Clone, Debug)]
pub enum ATy {
    T(TRef),
    R(TRef),
    S(Box<Simple>),
    Untyped,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub name: String,
    pub ty: ATy,
    pub use_: Option<&'static str>,
    pub doc: Doc,
}

#[derive(Clone, Debug)]
pub struct Facet {
    pub kind: &'static str,
    pub value: String,
    pub doc: Doc,
}

#[derive(Clone, Debug)]
pub enum SKind {
    R(TRef, Vec<Facet>),
    L(TRef),
    LI(Box<Simple>),
    /// Members, inline members, the blanks between members.
    U(Vec<TRef>, Vec<Simple>, &'static str),
}

#[derive(Clone, Debug)]
pub struct Simple {
    pub kind: SKind,
    pub doc: Doc,
}

#[derive(Clone, Debug)]
pub enum EBody {
    Empty,
    T(TRef),
    C(Box<Complex>),
    S(Box<Simple>),
}

#[derive(Clone, Debug)]
pub enum Decl {
    C(String, Complex),
    S(String, Simple),
    E(String, EBody, Doc),
    /// Global attribute: by type or by an inline simple type.
    A(String, ATy, Doc),
    G(String, Vec<Att>, Doc),
    Import(usize),
    Notes(Doc),
}

impl Decl {
    pub fn name(&self) -> Option<&str> {
        match self {
            Decl::C(n, _) | Decl::S(n, _) | Decl::E(n, ..) | Decl::A(n, ..) | Decl::G(n, ..) => Some(n),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum XsdNs {
    Prefix(String),
    Default,
    /// Bound as the default and to a prefix; references use the prefix.
    Both(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Target {
    None,
    Prefix(String),
    Default,
    Both(String),
}

#[derive(Clone, Debug)]
pub struct Schema {
    pub xsd: XsdNs,
    pub target: Target,
    pub uri: String,
    pub foreign: Vec<(String, String)>,
    pub unused_ns: Vec<(String, String)>,
    pub decls: Vec<Decl>,
    /// Pascal and snake spelling of the names that are plain lists of words.
    pub clean: BTreeMap<String, (String, String)>,
    /// Some name starts with a letter beyond ASCII, which is left out.
    pub odd_heads: bool,
    /// Seed of attributes without effect on the code, or 0.
    pub noise: u32,
}

impl Schema {
    pub fn prefix(&self) -> Option<&str> {
        match &self.target {
            Target::Prefix(p) | Target::Both(p) => Some(p),
            _ => None,
        }
    }
    pub fn complex(&self, name: &str) -> Option<&Complex> {
        self.decls.iter().find_map(|d| match d {
            Decl::C(n, c) if n == name => Some(c),
            _ => None,
        })
    }
    pub fn simple(&self, name: &str) -> Option<&Simple> {
        self.decls.iter().find_map(|d| match d {
            Decl::S(n, c) if n == name => Some(c),
            _ => None,
        })
    }
    pub fn group(&self, name: &str) -> Option<&Vec<Att>> {
        self.decls.iter().find_map(|d| match d {
            Decl::G(n, c, _) if n == name => Some(c),
            _ => None,
        })
    }
    pub fn tref(&self, t: &TRef) -> String {
        match t {
            TRef::B(n) => match &self.xsd {
                XsdNs::Prefix(p) | XsdNs::Both(p) => format!("{}:{}", p, n),
                XsdNs::Default => n.to_string(),
            },
            TRef::L(n) => match &self.target {
                Target::Prefix(p) | Target::Both(p) => format!("{}:{}", p, n),
                _ => n.clone(),
            },
            TRef::F(i, n) => format!("{}:{}", self.foreign[*i].0, n),
        }
    }
    pub fn xsd_prefix(&self) -> Option<&str> {
        match &self.xsd {
            XsdNs::Prefix(p) | XsdNs::Both(p) => Some(p),
            XsdNs::Default => None,
        }
    }
}

/// Names and numbers found in the sources of the generators.
pub fn dict() -> &'static (Vec<String>, Vec<u64>) {
    static D: std::sync::OnceLock<(Vec<String>, Vec<u64>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let r = vp_common::repo();
        let d = vp_common::source_dict(&[&format!("{}/xsd-parser/src", r), &format!("{}/wsdl-parser/src", r)]);
        let name = |s: &String| {
            let mut c = s.chars();
            c.next().map_or(false, |c| c.is_alphabetic() || c == '_') && c.all(|c| c.is_alphanumeric() || "_-.".contains(c)) && s.is_ascii() && !s.starts_with("__")
        };
        let mut names: Vec<String> = d.strs.into_iter().filter(name).collect();
        if names.is_empty() {
            names.push("name".into());
        }
        let mut nums = d.nums;
        nums.push(1);
        (names, nums)
    })
}

/// Usually at most `n`, now and then several times as many.
pub fn many(s: &mut Src, n: usize) -> usize {
    if s.chance(1, 24) { s.count(n * 6) } else { s.count(n) }
}

/// Lower-case ASCII letters and digits of a name.
pub fn squash(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

// ------------------------------------------------------------------ generator

#[derive(Clone)]
pub struct Profile {
    pub decls: usize,
    pub docs: usize,        // out of 8
    pub odd_names: usize,   // out of 8
    pub foreign: usize,     // out of 8: how often a reference is foreign
    pub inline: usize,      // out of 8
    pub choice: usize,      // out of 8
    pub derive: usize,      // out of 8
    pub groups: usize,      // out of 8
    pub simple: usize,      // out of 8: simple type declarations
    pub odd_ns: usize,      // out of 8: unusual namespace set-ups
    pub enums: usize,       // out of 8
    pub bounds: usize,      // out of 8: unusual bounds
    pub facets: bool,
    pub depth: usize,
    /// Only schemas whose code compiles without further modules.
    pub compile: bool,
}

pub const BASE: Profile = Profile {
    decls: 7, docs: 2, odd_names: 2, foreign: 1, inline: 2, choice: 2, derive: 3, groups: 2,
    simple: 3, odd_ns: 2, enums: 3, bounds: 3, facets: true, depth: 2, compile: false,
};

const WORDS: &[&str] = &[
    "item", "foo", "bar", "config", "video", "source", "unit", "name", "order", "party", "size",
    "level", "base", "data", "kind", "info", "entry", "mode", "rate", "note", "alpha", "delta",
    "zone", "node", "part", "code", "owner", "track", "range", "point", "value", "state",
];
const KEYWORDS: &[&str] = &[
    "type", "self", "Self", "fn", "struct", "match", "async", "await", "try", "ref", "mod", "use",
    "super", "crate", "impl", "move", "dyn", "loop", "enum", "trait", "where", "final", "override",
    "yield", "box", "macro", "virtual", "abstract", "become", "priv", "unsized", "typeof", "do",
    "static", "const", "let", "mut", "pub", "return", "true", "false", "if", "else", "for", "in",
    "as", "break", "continue", "extern", "unsafe", "while", "Type", "Fn", "TYPE", "Trait",
];
const LIKE_BUILTIN: &[&str] = &[
    "int", "date", "boolean", "token", "decimal", "ID", "duration", "float", "NMTOKENS", "time",
    "string", "integer", "double", "byte",
];
const ODD: &[&str] = &[
    "_1st", "_", "a.b", "a-b.c_d", "XMLHttpRequest", "iPhone", "ISO-8601", "x1y2", "UPPER_CASE",
    "__dunder__", "trailing_", "Größe", "naïve", "señal", "mixedCASEName", "v1.0", "A1B2C3", "q",
    "Ünder", "日本code", "je-suis-été", "_self", "_type", "x--y", "dot..dot", "a_1", "Z9", "fooBAR",
    "type-", "Self.", "fn_", "_9lives", "été2", "IPv4Address", "E.164", "H264",
];

pub struct Gen<'s, 'a> {
    pub s: &'s mut Src<'a>,
    pub p: Profile,
    pub sch: Schema,
    pub root: BTreeSet<String>,
    pub types: BTreeSet<String>,
    /// Members by squashed name of each complex type or group, with inherited ones.
    pub mem: BTreeMap<String, BTreeSet<String>>,
    pub gmem: BTreeMap<String, BTreeSet<String>>,
    pub serial: usize,
    /// Bases and groups are the last ones declared: long chains.
    pub chain: bool,
    pub depth: usize,
}

/// Names that would clash with what the generated code or its prelude uses.
fn reserved(sq: &str, compile: bool) -> bool {
    const ALWAYS: &[&str] = &[
        "", "xs", "std", "choice", "unknown", "any", "anyattribute", "validate", "fromstr",
    ];
    const COMPILE: &[&str] = &[
        "string", "option", "vec", "default", "clone", "box", "result", "ok", "err", "some", "none",
        "yaserialize", "yadeserialize", "debug", "partialeq", "core", "alloc", "bool", "f64", "str",
        "self", "xml", "yaserde", "u8", "i32", "tostring",
        // yaserde's generated readers
        "value", "visitor",
    ];
    ALWAYS.contains(&sq) || compile && COMPILE.contains(&sq)
        || sq.ends_with("choice") || sq.ends_with("choice2") || sq.ends_with("enum")
        || sq.ends_with("union") || sq.contains("enumcase")
}

impl Gen<'_, '_> {
    pub fn raw_name(&mut self) -> (String, Option<(String, String)>) {
        if self.s.chance(self.p.odd_names, 8) {
            let n = match self.s.below(7) {
                6 => format!("{}{}", self.s.pick(&["_", "_", "__"]), self.s.pick(WORDS)),
                4 => self.s.pick(&dict().0).clone(),
                5 => {
                    // a long name of words and numbers
                    let mut n = String::new();
                    for i in 0..2 + self.s.count(9) {
                        if i > 0 {
                            n.push_str(self.s.pick(&["", "-", "_", ".", ""]));
                        }
                        if i > 0 && self.s.chance(1, 4) {
                            n.push_str(&self.s.below(2000).to_string());
                        } else {
                            let w = *self.s.pick(WORDS);
                            match self.s.below(3) {
                                0 => n.push_str(w),
                                1 => n.push_str(&(w[..1].to_uppercase() + &w[1..])),
                                _ => n.push_str(&w.to_uppercase()),
                            }
                        }
                    }
                    n
                }
                0 => self.s.pick(KEYWORDS).to_string(),
                1 => self.s.pick(ODD).to_string(),
                2 => self.s.pick(LIKE_BUILTIN).to_string(),
                _ => {
                    // free mixture of name characters
                    let first: Vec<char> = "abxyzABXYZ_éñ٣Ⅷ".chars().collect();
                    let rest: Vec<char> = "abxyzABXYZ0129._-éñ日".chars().collect();
                    let mut n = String::new();
                    n.push(*self.s.pick(&first));
                    for _ in 0..self.s.count(8) {
                        n.push(*self.s.pick(&rest));
                    }
                    n
                }
            };
            if squash(&n).is_empty() || !squash(&n).chars().any(|c| c.is_ascii_alphabetic()) {
                return (format!("{}x", n), None);
            }
            return (n, None);
        }
        let n = 1 + if self.s.chance(1, 16) { self.s.below(9) } else { self.s.below(3) };
        let ws: Vec<&str> = (0..n).map(|_| *self.s.pick(WORDS)).collect();
        let cap = |w: &str| w[..1].to_uppercase() + &w[1..];
        let pascal: String = ws.iter().map(|w| cap(w)).collect();
        let snake = ws.join("_");
        let name = match self.s.below(4) {
            0 => pascal.clone(),
            1 => ws[0].to_string() + &ws[1..].iter().map(|w| cap(w)).collect::<String>(),
            2 => snake.clone(),
            _ => ws.join("-"),
        };
        (name, Some((pascal, snake)))
    }

    /// A name whose squashed form is not in `used`, which it joins.
    pub fn fresh(&mut self, used: &mut BTreeSet<String>) -> String {
        if !self.p.compile && self.s.chance(1, 12) {
            // the letters of a neighbour of several words, as one word
            let l: Vec<String> = used.iter().filter_map(|q| q.strip_suffix("#words")).filter(|q| !used.contains(&format!("{}#word", q))).map(String::from).collect();
            if !l.is_empty() {
                let q = self.s.pick(&l).clone();
                let cap = q[..1].to_uppercase() + &q[1..];
                let n = if self.s.flip() { q.clone() } else { cap.clone() };
                used.insert(format!("{}#word", q));
                self.sch.clean.insert(n.clone(), (cap, q));
                return n;
            }
        }
        for _ in 0..4 {
            let (n, c) = self.raw_name();
            let q = squash(&n);
            if self.p.compile && !crate::expect::at_ascii(&n) {
                continue;
            }
            if reserved(&q, self.p.compile) || used.contains(&q) || used.contains(&format!("{}type", q)) {
                continue;
            }
            // an inline type of a member is named after it
            if q.strip_suffix("type").map_or(false, |t| !t.is_empty() && used.contains(t)) {
                continue;
            }
            if c.as_ref().map_or(false, |c| c.1.contains('_')) {
                used.insert(format!("{}#words", q));
            }
            used.insert(q);
            self.sch.odd_heads |= !crate::expect::at_ascii(&n);
            if let Some(c) = c {
                self.sch.clean.insert(n.clone(), c);
            }
            return n;
        }
        loop {
            self.serial += 1;
            let n = format!("Gen{}x", self.serial);
            if used.insert(squash(&n)) {
                return n;
            }
        }
    }

    pub fn doc(&mut self) -> Doc {
        if !self.s.chance(self.p.docs, 8) {
            return vec![];
        }
        (0..1 + many(self.s, 1)).map(|_| self.doc_text()).collect()
    }

    fn doc_text(&mut self) -> String {
        doc_text(self.s)
    }

    fn fref(&mut self) -> Option<TRef> {
        if self.p.compile || self.sch.foreign.is_empty() || !self.s.chance(self.p.foreign, 8) {
            return None;
        }
        let i = self.s.below(self.sch.foreign.len());
        let n = if self.sch.foreign[i].1 == XML_NS && self.s.chance(2, 3) {
            self.s.pick(&["lang", "space", "base", "id"]).to_string()
        } else if self.s.chance(1, 3) {
            self.s.pick(BUILTINS).0.to_string()
        } else if self.s.chance(1, 3) && !self.sch.decls.is_empty() {
            // spelled like a definition of this schema
            let k = self.s.below(self.sch.decls.len());
            self.sch.decls[k].name().unwrap_or("Other").to_string()
        } else {
            let (n, _) = self.raw_name();
            n
        };
        Some(TRef::F(i, n))
    }

    fn builtin_ref(&mut self) -> TRef {
        TRef::B(self.s.pick(BUILTINS).0)
    }

    fn local_names(&self, f: impl Fn(&Decl) -> bool) -> Vec<String> {
        if !self.can_local() {
            return vec![];
        }
        self.sch.decls.iter().filter(|d| f(d)).filter_map(|d| d.name()).map(String::from).collect()
    }

    fn can_local(&self) -> bool {
        !(self.sch.xsd == XsdNs::Default && matches!(self.sch.target, Target::None | Target::Default))
    }

    /// Whether the code of a simple type can be an item, member or base.
    pub fn textual(&self, n: &str) -> bool {
        match self.sch.simple(n).map(|s| &s.kind) {
            Some(SKind::R(_, f)) => !f.iter().any(|f| f.kind == "enumeration"),
            Some(SKind::L(t)) => self.item_ok(t),
            Some(SKind::U(m, i, _)) => m.iter().all(|t| self.item_ok(t)) && i.is_empty(),
            _ => false,
        }
    }

    fn item_ok(&self, t: &TRef) -> bool {
        match t {
            TRef::B(_) => true,
            TRef::L(n) => self.textual(n),
            TRef::F(..) => false,
        }
    }

    fn is_list_builtin(t: &TRef) -> bool {
        matches!(t, TRef::B("ENTITIES" | "IDREFS" | "NMTOKENS"))
    }

    /// A reference to a simple type, to be an item, member or base if `text`.
    fn simple_ref(&mut self, text: bool) -> TRef {
        if let Some(f) = self.fref() {
            return f;
        }
        let mut l = self.local_names(|d| matches!(d, Decl::S(..)));
        if text && self.p.compile {
            l.retain(|n| self.textual(n) && !matches!(self.sch.simple(n).unwrap().kind, SKind::L(_) | SKind::LI(_)));
        }
        if !l.is_empty() && self.s.chance(3, 8) {
            return TRef::L(self.s.pick(&l).clone());
        }
        self.builtin_ref()
    }

    fn any_ref(&mut self) -> TRef {
        if let Some(f) = self.fref() {
            return f;
        }
        let l = self.local_names(|d| matches!(d, Decl::S(..) | Decl::C(..)));
        if !l.is_empty() && self.s.chance(4, 8) {
            return TRef::L(self.s.pick(&l).clone());
        }
        match self.builtin_ref() {
            t if self.p.compile && Self::is_list_builtin(&t) => TRef::B("token"),
            t => t,
        }
    }

    fn occurs(&mut self) -> u64 {
        match self.s.below(8) {
            0..=3 => self.s.below(21) as u64,
            4 => self.s.below(300) as u64,
            5 => 1 << self.s.below(63),
            6 => 10u64.pow(self.s.below(19) as u32),
            _ => *self.s.pick(&dict().1),
        }
    }

    fn bounds(&mut self) -> Bounds {
        let o = |s: &str| Some(s.to_string());
        if self.s.chance(self.p.bounds, 8) {
            if self.s.flip() {
                // any numbers
                let (a, z) = (self.occurs(), self.occurs());
                let (a, z) = if a <= z { (a, z) } else { (z, a) };
                let zeros = ["", "", "", "", "", "0", "00", " "];
                let min = Some(format!("{}{}", self.s.pick(&zeros), a));
                let max = Some(format!("{}{}", self.s.pick(&zeros), z));
                return match self.s.below(4) {
                    0 => Bounds { min, max: o(self.s.pick(&["unbounded", "unbounded", " unbounded", "unbounded ", "\n\tunbounded\n"])) },
                    1 if a <= 1 => Bounds { min, max: None },
                    2 if z >= 1 => Bounds { min: None, max },
                    _ => Bounds { min, max },
                };
            }
            let (min, max) = *self.s.pick(&[
                ("0", " 1 "), (" 0", ""), ("1", "00002"), ("", "99999999999999999999999"), ("5", "5"),
                ("007", "unbounded"), (" 2 ", " unbounded "), ("0", "0"), ("4294967296", "unbounded"),
                ("0", "18446744073709551616"), ("000", "1"), ("01", "01"), ("", "001"), ("2", "3"),
                ("\t1\n", "1"), ("0", "2"), ("10", "10"), ("", " unbounded "), ("0", "\tunbounded"),
            ]);
            let f = |s: &str| if s.is_empty() { None } else { Some(s.to_string()) };
            return Bounds { min: f(min), max: f(max) };
        }
        match self.s.below(8) {
            0..=2 => Bounds::default(),
            3 => Bounds { min: o("0"), max: None },
            4 => Bounds { min: o("0"), max: o("unbounded") },
            5 => Bounds { min: o("0"), max: o("1") },
            6 => Bounds { min: o("1"), max: o("unbounded") },
            _ => Bounds { min: None, max: o("4") },
        }
    }

    fn all_bounds(&mut self) -> Bounds {
        let b = self.bounds();
        if b.card() == Card::Many { Bounds { min: Some("0".into()), max: None } } else { b }
    }

    /// A simple type, with inline types up to three deep.
    fn simple_tree(&mut self) -> Simple {
        let depth = if self.p.compile { 1 } else { *self.s.pick(&[1, 1, 1, 2, 2, 3]) };
        self.simple(depth)
    }

    pub fn simple(&mut self, depth: usize) -> Simple {
        let doc = self.doc();
        if self.s.chance(self.p.enums, 8) {
            return Simple { kind: self.enumeration(), doc };
        }
        let kind = match self.s.below(6) {
            0..=2 => {
                let base = self.simple_ref(true);
                SKind::R(base.clone(), self.facets(&base))
            }
            3 => {
                let mut t = self.simple_ref(true);
                if Self::is_list_builtin(&t) {
                    t = TRef::B("NMTOKEN");
                }
                if depth > 0 && self.s.chance(1, 4) {
                    let mut inner = self.simple(depth - 1);
                    if let SKind::R(b, _) = &mut inner.kind {
                        if Self::is_list_builtin(b) {
                            *b = TRef::B("token");
                        }
                    }
                    let ok = match &inner.kind {
                        SKind::L(_) | SKind::LI(_) => false,
                        SKind::R(_, f) => !self.p.compile || !f.iter().any(|f| f.kind == "enumeration"),
                        SKind::U(..) => true,
                    };
                    if ok {
                        return Simple { kind: SKind::LI(Box::new(inner)), doc };
                    }
                }
                SKind::L(t)
            }
            _ => {
                let mut used = BTreeSet::new();
                let mut members = vec![];
                for _ in 0..many(self.s, 3) {
                    let t = self.simple_ref(true);
                    if self.p.compile && Self::is_list_builtin(&t) {
                        continue;
                    }
                    let n = match &t {
                        TRef::B(n) => n.to_string(),
                        TRef::L(n) | TRef::F(_, n) => n.clone(),
                    };
                    if !reserved(&squash(&n), false) && used.insert(squash(&n)) {
                        members.push(t);
                    }
                }
                let n_inl = if depth > 0 { self.s.count(2) } else { 0 };
                let mut inl = vec![];
                for _ in 0..n_inl {
                    let x = self.simple(depth - 1);
                    if self.p.compile && !matches!(&x.kind, SKind::R(_, f) if f.iter().all(|f| f.kind != "enumeration")) {
                        continue;
                    }
                    inl.push(x);
                }
                if members.is_empty() && inl.is_empty() {
                    members.push(TRef::B("int"));
                }
                let sep = *self.s.pick(&[" ", " ", "  ", "\n", "\t", "\n    ", " \t "]);
                SKind::U(members, inl, sep)
            }
        };
        Simple { kind, doc }
    }

    pub fn enumeration(&mut self) -> SKind {
        let base = if self.s.chance(1, 4) && !self.p.compile { self.simple_ref(true) } else { TRef::B(*self.s.pick(&["string", "token", "NMTOKEN", "NCName"])) };
        let mut facets = vec![];
        let mut used = BTreeSet::new();
        const VALS: &[&str] = &[
            "on", "off", "A-B", "a1", "1080p", "Self", "type", "H264", "utf-8", "UPPER", "camelCase",
            "x", "Z", "0", "42", "G-711", "snake", "Kebab-Case-Value", "self", "-5", "a-", "--b", "TRUE",
        ];
        const ODDV: &[&str] = &["", "a b", "+", "a/b", "é", "1.5", "a_b", "*", "a:b", "日本", "&", "\"q\"", "x.y", " lead", "-"];
        let odd = self.s.chance(1, 4);
        for _ in 0..1 + many(self.s, 5) {
            let v = match self.s.below(8) {
                _ if odd && self.s.chance(1, 3) => self.s.pick(ODDV).to_string(),
                0 => {
                    let c: Vec<char> = "abcxyzABCXYZ0123456789-".chars().collect();
                    (0..1 + many(self.s, 8)).map(|_| *self.s.pick(&c)).collect()
                }
                1 => self.s.below(3000).to_string(),
                2 => self.s.pick(WORDS).to_string(),
                3 => self.s.pick(&dict().0).clone(),
                _ => self.s.pick(VALS).to_string(),
            };
            if used.insert(v.to_string()) {
                let doc = self.doc();
                facets.push(Facet { kind: "enumeration", value: v, doc });
            }
        }
        SKind::R(base, facets)
    }

    fn facets(&mut self, base: &TRef) -> Vec<Facet> {
        let mut out = vec![];
        if !self.p.facets {
            return out;
        }
        let kinds: &[&'static str] = match base {
            TRef::B(b) => match builtin(b) {
                "String" | "Vec<String>" => &["length", "minLength", "maxLength", "pattern", "whiteSpace"],
                "bool" => &["pattern", "whiteSpace"],
                "f64" | "i32" | "i64" | "i16" | "i8" | "u64" | "u32" | "u16" | "u8" | "xs::Decimal" | "xs::Integer" => {
                    &["minInclusive", "maxInclusive", "minExclusive", "maxExclusive", "totalDigits", "fractionDigits", "pattern"]
                }
                _ => &["pattern"],
            },
            _ => &["pattern"],
        };
        for k in kinds {
            if self.s.chance(1, 5) {
                let value = match *k {
                    "pattern" => self.s.pick(&["[a-z]+", "\\d{3}", "(\"|')*", "a{1}"]).to_string(),
                    "whiteSpace" => self.s.pick(&["preserve", "replace", "collapse"]).to_string(),
                    _ => self.s.below(100).to_string(),
                };
                let doc = self.doc();
                out.push(Facet { kind: k, value, doc });
            }
        }
        out
    }

    fn elem(&mut self, used: &mut BTreeSet<String>, owner: Option<&str>, b: Bounds, branch: bool) -> Elem {
        let doc = self.doc();
        // an element by reference
        if self.s.chance(1, if self.p.compile { 6 } else { 10 }) {
            let r = self.fref().or_else(|| {
                let c = self.p.compile;
                let l = self.local_names(|d| match d {
                    Decl::E(_, EBody::C(_) | EBody::Empty, _) => true,
                    Decl::E(..) => !c,
                    _ => false,
                });
                if l.is_empty() { None } else { Some(TRef::L(self.s.pick(&l).clone())) }
            });
            if let Some(r) = r {
                let n = match &r {
                    TRef::L(n) | TRef::F(_, n) => n.clone(),
                    TRef::B(_) => unreachable!(),
                };
                let q = squash(&n);
                if !reserved(&q, self.p.compile) && used.insert(q) {
                    return Elem { name: n, ty: ETy::R(r), b, doc };
                }
            }
        }
        let name = self.fresh(used);
        if let (Some(o), true) = (owner, self.can_local()) {
            if self.s.chance(1, 10) {
                return Elem { name, ty: ETy::T(TRef::L(o.into())), b, doc };
            }
        }
        // (the readers of branches hold no definitions of their own)
        if !(branch && (self.p.compile || self.s.chance(3, 4))) && self.depth > 0 && self.s.chance(self.p.inline, 8) {
            self.depth -= 1;
            let ty = if self.s.flip() {
                ETy::S(Box::new(self.simple_tree()))
            } else {
                let mut u = BTreeSet::new();
                ETy::C(Box::new(self.complex(None, &mut u)))
            };
            self.depth += 1;
            // the choices of both would have one name
            if matches!(&ty, ETy::C(c) if self.in_chain(c, &squash(&name))) {
                return Elem { name, ty: ETy::T(TRef::B("int")), b, doc };
            }
            return Elem { name, ty, b, doc };
        }
        let t = self.any_ref();
        Elem { name, ty: ETy::T(t), b, doc }
    }

    fn choice(&mut self, used: &mut BTreeSet<String>, owner: Option<&str>) -> Choice {
        let mut branches = vec![];
        let none = !self.p.compile && self.s.chance(1, 20);
        for _ in 0..if none { 0 } else { 1 + many(self.s, 3) } {
            let b = if self.s.chance(1, 3) { self.bounds() } else { Bounds::default() };
            let b = if self.p.compile { Bounds::default() } else { b };
            branches.push(self.elem(used, owner, b, true));
        }
        Choice { branches, doc: self.doc(), any: !self.p.compile && self.s.chance(1, 10) }
    }

    fn body(&mut self, used: &mut BTreeSet<String>, owner: Option<&str>, no_choice: bool) -> Body {
        if !no_choice && self.s.chance(self.p.choice, 8) {
            return Body::Choice(self.choice(used, owner));
        }
        match self.s.below(8) {
            0 => Body::None,
            1 => {
                let n = many(self.s, 3);
                Body::All((0..n).map(|_| { let b = self.all_bounds(); self.elem(used, owner, b, false) }).collect())
            }
            _ => {
                let mut parts = vec![];
                let mut had = no_choice;
                for _ in 0..many(self.s, 4) {
                    if !had && self.s.chance(self.p.choice, 16) {
                        had = self.p.compile;
                        parts.push(Part::Ch(self.choice(used, owner)));
                    } else if !self.p.compile && self.s.chance(1, 12) {
                        parts.push(Part::Any(self.doc()));
                    } else {
                        let b = self.bounds();
                        let e = self.elem(used, owner, b, false);
                        parts.push(Part::E(e));
                    }
                }
                Body::Seq(parts)
            }
        }
    }

    pub fn attr(&mut self, used: &mut BTreeSet<String>, may_prohibit: bool) -> Attr {
        let doc = self.doc();
        let use_ = match self.s.below(6) {
            0..=1 => None,
            2 => Some("optional"),
            3..=4 => Some("required"),
            _ => if may_prohibit { Some("prohibited") } else { Some("required") },
        };
        if !self.p.compile && self.s.chance(1, 8) {
            let r = self.fref().or_else(|| {
                let l = self.local_names(|d| matches!(d, Decl::A(..)));
                if l.is_empty() { None } else { Some(TRef::L(self.s.pick(&l).clone())) }
            });
            if let Some(r) = r {
                let n = match &r {
                    TRef::L(n) | TRef::F(_, n) => n.clone(),
                    TRef::B(_) => unreachable!(),
                };
                let q = squash(&n);
                if !reserved(&q, false) && used.insert(q) {
                    return Attr { name: n, ty: ATy::R(r), use_, doc };
                }
            }
        }
        let name = self.fresh(used);
        let ty = if self.s.chance(1, 8) {
            ATy::S(Box::new(self.simple(0)))
        } else if self.s.chance(1, 12) {
            ATy::Untyped
        } else {
            let mut t = self.simple_ref(false);
            if self.p.compile && Self::is_list_builtin(&t) {
                t = TRef::B("token");
            }
            ATy::T(t)
        };
        Attr { name, ty, use_, doc }
    }

    pub fn atts(&mut self, used: &mut BTreeSet<String>) -> Vec<Att> {
        let mut out = vec![];
        for _ in 0..many(self.s, 3) {
            if self.s.chance(self.p.groups, 12) {
                let mut l = self.local_names(|d| matches!(d, Decl::G(..)));
                if self.chain && !l.is_empty() {
                    l = l.split_off(l.len() - 1);
                }
                if !l.is_empty() {
                    let g = self.s.pick(&l).clone();
                    let m = self.gmem[&g].clone();
                    if m.is_disjoint(used) && !m.is_empty() {
                        used.extend(m);
                        out.push(Att::G(TRef::L(g)));
                    }
                    continue;
                }
                if !self.p.compile && !self.sch.foreign.is_empty() && self.s.chance(1, 3) {
                    let n = self.sch.decls.first().and_then(|d| d.name()).unwrap_or("Grp").to_string();
                    out.push(Att::G(TRef::F(0, n)));
                    continue;
                }
            }
            if self.s.chance(1, 12) {
                out.push(Att::Any(self.doc()));
                continue;
            }
            out.push(Att::A(self.attr(used, true)));
        }
        if out.iter().filter(|a| matches!(a, Att::Any(_))).count() > 0 {
            // the wildcard comes last
            out.retain(|a| !matches!(a, Att::Any(_)));
            out.push(Att::Any(vec![]));
        }
        out
    }

    /// `owner` is the name of a global type; `used` receives the member names.
    pub fn complex(&mut self, owner: Option<&str>, used: &mut BTreeSet<String>) -> Complex {
        let doc = self.doc();
        let inner_doc = self.doc();
        let mut bases = self.local_names(|d| matches!(d, Decl::C(..)));
        if self.chain && !bases.is_empty() {
            bases = bases.split_off(bases.len() - 1);
        }
        if self.s.chance(self.p.derive, 8) {
            let f = self.fref();
            if f.is_some() || !bases.is_empty() {
                let simple_content = self.p.compile && f.is_none();
                let base = f.unwrap_or_else(|| TRef::L(self.s.pick(&bases).clone()));
                let is_simple = match &base {
                    TRef::L(n) => matches!(self.sch.complex(n).unwrap().deriv, Deriv::SimpleExt(_)),
                    _ => false,
                };
                let _ = simple_content;
                let mut ch_in_chain = false;
                if let TRef::L(n) = &base {
                    used.extend(self.mem[n].iter().cloned());
                    ch_in_chain = self.p.compile && has_choice(&self.sch, n);
                }
                if is_simple {
                    let atts = self.atts(used);
                    return Complex { deriv: Deriv::SimpleExt(base), body: Body::None, atts, doc, inner_doc };
                }
                let restr = self.s.chance(1, 4);
                let mut redeclared = vec![];
                if let (true, TRef::L(n)) = (self.s.chance(1, 3), &base) {
                    redeclared = self.redeclare(n, restr);
                }
                let mut body = self.body(used, owner, ch_in_chain);
                let mut atts = self.atts(used);
                for m in redeclared {
                    match m {
                        Ok(e) => match &mut body {
                            Body::Seq(p) => p.push(Part::E(e)),
                            Body::None => body = Body::Seq(vec![Part::E(e)]),
                            _ => (),
                        },
                        Err(a) => atts.insert(0, Att::A(a)),
                    }
                }
                let deriv = if restr { Deriv::Restr(base) } else { Deriv::Ext(base) };
                return Complex { deriv, body, atts, doc, inner_doc };
            }
        }
        if self.s.chance(1, 12) {
            let base = self.simple_ref(false);
            let atts = self.atts(used);
            return Complex { deriv: Deriv::SimpleExt(base), body: Body::None, atts, doc, inner_doc };
        }
        if self.s.chance(1, 16) {
            let body = self.body(used, owner, false);
            let atts = self.atts(used);
            return Complex { deriv: Deriv::RestrAny, body, atts, doc, inner_doc };
        }
        let body = self.body(used, owner, false);
        let atts = self.atts(used);
        Complex { deriv: Deriv::Plain, body, atts, doc, inner_doc }
    }

    fn in_chain(&self, c: &Complex, name: &str) -> bool {
        match &c.deriv {
            Deriv::Ext(TRef::L(b)) | Deriv::Restr(TRef::L(b)) => {
                squash(b) == name || self.sch.complex(b).map_or(false, |c| self.in_chain(c, name))
            }
            _ => false,
        }
    }

    /// Members of the base to declare again: with another cardinality, or away.
    fn redeclare(&mut self, base: &str, restr: bool) -> Vec<Result<Elem, Attr>> {
        let mut out = vec![];
        if self.p.compile {
            return out;
        }
        let c = self.sch.complex(base).unwrap().clone();
        if let Body::Seq(parts) = &c.body {
            for p in parts {
                if let Part::E(e) = p {
                    if matches!(e.ty, ETy::T(_)) && self.s.chance(1, 3) {
                        let mut e = e.clone();
                        e.b = self.bounds();
                        // a field of the base's own type is not one of the derived type's
                        out.push(Ok(e));
                    }
                }
            }
        }
        for a in &c.atts {
            if let Att::A(a) = a {
                if self.s.chance(1, 3) {
                    let mut a = a.clone();
                    a.use_ = if restr && self.s.flip() { Some("prohibited") } else { Some("required") };
                    out.push(Err(a));
                }
            }
        }
        out
    }

    fn decl(&mut self) -> Decl {
        let mut root = std::mem::take(&mut self.root);
        let name = self.fresh(&mut root);
        self.root = root;
        self.depth = match self.s.below(12) {
            0 => self.p.depth + 2,
            1 => self.p.depth + 1,
            _ => self.p.depth,
        };
        if self.s.chance(self.p.simple, 8) {
            let s = self.simple_tree();
            return Decl::S(name, s);
        }
        if self.s.chance(self.p.groups, 8) {
            let mut used = BTreeSet::new();
            let atts = self.atts(&mut used);
            self.gmem.insert(name.clone(), used);
            return Decl::G(name, atts, self.doc());
        }
        match self.s.below(10) {
            0 => {
                let b = match if self.p.compile { 1 + self.s.below(3) } else { self.s.below(4) } {
                    0 => EBody::T(self.any_ref()),
                    1 => EBody::Empty,
                    2 => {
                        let mut u = BTreeSet::new();
                        EBody::C(Box::new(self.complex(None, &mut u)))
                    }
                    _ => EBody::S(Box::new(self.simple_tree())),
                };
                Decl::E(name, b, self.doc())
            }
            1 => {
                let ty = if self.s.flip() { ATy::T(self.simple_ref(false)) } else { ATy::S(Box::new(self.simple_tree())) };
                Decl::A(name, ty, self.doc())
            }
            2 if !self.sch.foreign.is_empty() => {
                Decl::Import(self.s.below(self.sch.foreign.len()))
            }
            3 if self.p.docs > 0 => {
                Decl::Notes(vec![self.doc_text()])
            }
            _ => {
                let mut used = BTreeSet::new();
                let c = self.complex(Some(&name), &mut used);
                self.types.insert(name.clone());
                self.mem.insert(name.clone(), used);
                Decl::C(name, c)
            }
        }
    }
}

/// Documentation: words, awkward texts, or arbitrary characters.
pub fn doc_text(s: &mut Src) -> String {
    const T: &[&str] = &[
        "A short note", "pub struct Evil { x: u8 }", "*/ fn main() {} /*", "/// docs // more",
        "line one\nline two\n\n   line three", "x", "", "\"quoted\" 'text' \\ backslash {}",
        "Überlänge: a rather long line of documentation that has to be wrapped since it goes well over the limit of eighty characters",
        "tabs\tand   blanks ", "#[derive(Debug)]", "ends with backslash \\", "}}}} {{{{", "a & b < c",
        "日本語の説明 と 続き", "http://www.example.com/a/very/long/path/without/any/blanks/that/does/not/fit/into/one/line/at/all",
        "\r\nwindows\r\nlines\r\n", "mod x;", "\u{2028}separator\u{85}s", "r#\"raw\"#", "a\rb;\r\nfn f() {}",
        "one\n\n\n\n\n  two\n\n\n three", "//", "// //", "}\n}\npub mod m {\n", "ab", "é", "日", "\u{feff}bom", "! inner", "\t\n x\ty \n",
    ];
    match s.below(4) {
        0 => s.pick(T).to_string(),
        1 => {
            // words not found elsewhere, in lines
            let mut t = String::new();
            let n = match s.below(48) {
                0 => 1 + s.count(400),
                1..=3 => 1 + s.count(90),
                _ => 1 + s.count(12),
            };
            let one_line = n > 12 && s.flip();
            for _ in 0..n {
                if one_line {
                    t.push_str(&format!("w{} ", s.below(100000)));
                    continue;
                }
                t.push_str(s.pick(&["", "  ", "\n", " ", "\n\n\n", "\t"]));
                t.push_str(&format!("w{} ", s.below(100000)));
            }
            t
        }
        2 => {
            let a = s.pick(T).to_string();
            format!("w{} {} {}", s.below(100000), a, s.pick(T))
        }
        _ => {
            let mut t = String::new();
            for _ in 0..many(s, 30) {
                let c = match s.below(6) {
                    0 => ' ',
                    1 => *s.pick(&['\n', '\r', '\t', '/', '*', '"', '\\', '{', '}', '#', '!', '\u{a0}', '\u{2029}', '\u{200b}', ']', '>']),
                    2 => char::from_u32(s.below(0x2fff) as u32).unwrap_or('q'),
                    3 => char::from_u32(s.below(0x1ffff) as u32).unwrap_or('z'),
                    _ => (b'a' + s.below(26) as u8) as char,
                };
                let ok = matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..);
                t.push(if ok { c } else { '.' });
            }
            t
        }
    }
}

pub fn has_choice(s: &Schema, n: &str) -> bool {
    let Some(c) = s.complex(n) else { return false };
    let own = match &c.body {
        Body::Choice(_) => true,
        Body::Seq(p) => p.iter().any(|p| matches!(p, Part::Ch(_))),
        _ => false,
    };
    own || match &c.deriv {
        Deriv::Ext(TRef::L(b)) | Deriv::Restr(TRef::L(b)) => has_choice(s, b),
        _ => false,
    }
}

pub fn namespaces(s: &mut Src, p: &Profile) -> Schema {
    let mut sch = Schema {
        xsd: XsdNs::Prefix("xs".into()),
        target: Target::Prefix("t".into()),
        uri: "urn:t".into(),
        foreign: vec![],
        unused_ns: vec![],
        decls: vec![],
        clean: BTreeMap::new(),
        odd_heads: false,
        noise: 0,
    };
    if s.chance(p.odd_ns, 8) {
        sch.target = match s.below(5) {
            0 => Target::None,
            1 => Target::Default,
            2 => Target::Both(s.pick(&["tns", "item", "foo", "xsd"]).to_string()),
            _ => Target::Prefix(match s.below(3) {
                0 => format!("{}{}", s.pick(&["n", "ns", "tns-", "q_", "p.", "LongPrefixOfMany"]), s.below(120)),
                _ => s.pick(&["tns", "item", "string", "T-1", "foo.bar", "type", "xs", "base", "a", "x", "xml2", "_", "_p"]).to_string(),
            }),
        };
        if s.flip() {
            let x = s.pick(&["xsd", "x", "XS", "schema", "item", "w3-c", "xs"]).to_string();
            sch.xsd = match s.below(3) {
                0 => XsdNs::Prefix(x),
                1 => XsdNs::Default,
                _ => XsdNs::Both(x),
            };
        }
        // one default namespace, distinct prefixes
        if sch.xsd.clone() != XsdNs::Default && matches!(sch.xsd, XsdNs::Both(_)) && matches!(sch.target, Target::Default | Target::Both(_) | Target::None) {
            sch.target = Target::Prefix("tns".into());
        }
        if sch.xsd == XsdNs::Default && !matches!(sch.target, Target::Prefix(_)) {
            sch.target = Target::Prefix("tns".into());
        }
        if sch.prefix().is_some() && sch.prefix() == sch.xsd_prefix() {
            sch.xsd = XsdNs::Prefix("zz".into());
        }
        sch.uri = if s.chance(1, 4) { format!("http://{}.example.org/{}/{}", s.pick(WORDS), s.below(3000), s.pick(&["", "v1.0", "a#b", "x?y=z&w=1", "%20", "long/path/of/many/parts/that/goes/on"])) } else { s.pick(&["urn:t", "http://www.example.com/ns/1.0", "http://a.b/c?d=e#f", "t", "urn:t/", "urn:日本", "x y"]).to_string() };
    }
    if p.compile {
        sch.uri = sch.uri.replace('&', "+");
    }
    sch.noise = if s.chance(1, 4) { s.raw() | 1 } else { 0 };
    if p.foreign > 0 {
        for (q, u) in [("oth", "urn:other"), ("f-2", "urn:foreign:2"), ("String", "urn:s"), ("tt", "urn:tt")] {
            if s.chance(1, 2) {
                let t = sch.uri.clone();
                let near = match s.below(16) {
                    0 => format!("{}/", t),
                    1 => t.to_uppercase(),
                    2 => format!("{}9", t),
                    3 => t[..t.char_indices().last().map_or(0, |c| c.0)].to_string(),
                    4 => t.to_lowercase(),
                    _ => String::new(),
                };
                let ok = !near.is_empty() && near != t && !sch.foreign.iter().any(|f| f.1 == near);
                sch.foreign.push((q.into(), if ok { near } else { u.into() }));
            }
        }
        if s.chance(1, 3) {
            sch.foreign.push(("xml".into(), XML_NS.into()));
        }
    }
    if s.chance(1, 4) {
        sch.unused_ns.push(("zq".into(), "urn:unused".into()));
    }
    sch
}

pub fn schema(s: &mut Src, p: &Profile) -> Schema {
    let sch = namespaces(s, p);
    let mut g = Gen {
        s,
        p: p.clone(),
        sch,
        root: BTreeSet::new(),
        types: BTreeSet::new(),
        mem: BTreeMap::new(),
        gmem: BTreeMap::new(),
        serial: 0,
        chain: false,
        depth: p.depth,
    };
    // modules of references to other namespaces are not ours to name
    for (q, _) in g.sch.foreign.clone() {
        g.root.insert(squash(&q));
    }
    let n = 1 + if p.decls > 3 && g.s.chance(1, 24) { g.s.below(p.decls * 4) } else { g.s.below(p.decls) };
    g.chain = g.s.chance(1, 6);
    for _ in 0..n {
        let d = g.decl();
        g.sch.decls.push(d);
    }
    if g.s.flip() {
        let mut d = std::mem::take(&mut g.sch.decls);
        g.s.shuffle(&mut d);
        g.sch.decls = d;
    }
    g.sch
}

/// Attributes that say nothing about the code.
fn noise(x: &mut X, seed: &mut u64) {
    let mut roll = |n: u64| -> u64 {
        *seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (*seed >> 33) % n
    };
    let local = x.local().to_string();
    if matches!(local.as_str(), "documentation" | "appinfo") {
        return;
    }
    if roll(4) == 0 {
        let text = x.attrs.iter().any(|a| a.0 == "type" && matches!(a.1.rsplit(':').next(), Some("string" | "token" | "normalizedString")));
        let a: Option<(&str, &str)> = match (local.as_str(), roll(8)) {
            ("schema", 0) => Some(("version", "1.0")),
            ("schema", 1) => Some(("attributeFormDefault", "unqualified")),
            ("schema", 2) => Some(("finalDefault", "extension")),
            ("schema", 3) => Some(("blockDefault", "#all")),
            ("complexType", 0) => Some(("mixed", "false")),
            ("complexType", 1) => Some(("mixed", "true")),
            ("complexType", 2) => Some(("abstract", "true")),
            ("complexType", 3) => Some(("abstract", "false")),
            ("complexType", 4) => Some(("final", "restriction")),
            ("complexType", 5) => Some(("block", "#all")),
            ("complexContent", 0) => Some(("mixed", "false")),
            ("element", 0) => Some(("nillable", "false")),
            ("element", 1) => Some(("nillable", "true")),
            ("element", 2) => Some(("block", "substitution")),
            ("element", 3) if text => Some(("default", "optional")),
            ("element", 4) if text => Some(("fixed", "0")),
            ("attribute", 0) if text => Some(("default", "required")),
            ("attribute", 1) if text => Some(("fixed", "1")),
            ("simpleType", 0) => Some(("final", "list")),
            ("minLength" | "maxLength" | "length" | "minInclusive" | "whiteSpace", 0) => Some(("fixed", "true")),
            ("any" | "anyAttribute", 0) => Some(("processContents", "skip")),
            (_, 7) => Some(("id", "i")),
            _ => None,
        };
        if let Some((k, v)) = a {
            if !x.attrs.iter().any(|a| a.0 == k) {
                x.attr(k, v);
            }
        }
    }
    // attributes of another namespace, named like those that count
    if roll(24) == 0 && local != "schema" && !x.attrs.iter().any(|a| a.0 == "xmlns:own-7") {
        let (k, v) = [
            ("name", "Own"), ("type", "own-7:Own"), ("ref", "own-7:Own"), ("minOccurs", "0"), ("maxOccurs", "unbounded"), ("use", "required"),
            ("base", "own-7:Own"), ("value", "own"), ("memberTypes", "own-7:Own"), ("itemType", "own-7:Own"), ("targetNamespace", "urn:own"),
        ][roll(11) as usize];
        x.ns(Some("own-7"), "urn:own");
        x.attr(&format!("own-7:{}", k), v);
    }
    let (keyed, kind) = (roll(24) == 0, roll(3) as usize);
    let (app, inner) = (roll(24) == 0, roll(8) as usize);
    for k in &mut x.kids {
        if let K::E(e) = k {
            noise(e, seed);
        }
    }
    // notes to programs, which may hold anything
    if app && local != "annotation" {
        let head = x.tag.strip_suffix(local.as_str()).unwrap_or("").to_string();
        let of = |t: &str| X::new(format!("{}{}", head, t));
        let mut e = of(["element", "attribute", "documentation", "attributeGroup", "complexType", "enumeration", "sequence", "annotation"][inner]);
        e.attr("name", "appinfo");
        e.attr("value", "appinfo");
        e.kids.push(K::T("appinfo".into()));
        let mut i = of("appinfo");
        i.kids.push(K::E(e));
        match x.kids.iter_mut().find_map(|k| if let K::E(e) = k { (e.local() == "annotation").then_some(e) } else { None }) {
            Some(a) => {
                let at = a.kids.len() * (inner & 1);
                a.kids.insert(at, K::E(i));
            }
            None => {
                let mut a = of("annotation");
                a.kids.push(K::E(i));
                x.kids.insert(0, K::E(a));
            }
        }
    }
    // identity constraints, which hold of nothing
    if local == "element" && keyed && !x.attrs.iter().any(|a| a.0 == "ref") {
        let of = |t: &str| format!("{}{}", x.tag.strip_suffix("element").unwrap_or(""), t);
        let (kind, name) = [("key", "key"), ("unique", "Item"), ("key", "type")][kind];
        let mut k = X::new(of(kind));
        k.attr("name", name);
        let mut sel = X::new(of("selector"));
        sel.attr("xpath", "nothing");
        let mut f = X::new(of("field"));
        f.attr("xpath", "@name");
        k.kids.extend([K::E(sel), K::E(f)]);
        x.kids.push(K::E(k));
    }
}

// ------------------------------------------------------------------ rendering

impl Schema {
    fn x(&self, tag: &str) -> X {
        X::new(match &self.xsd {
            XsdNs::Prefix(p) | XsdNs::Both(p) => format!("{}:{}", p, tag),
            XsdNs::Default => tag.to_string(),
        })
    }

    fn notes(&self, x: &mut X, doc: &Doc) {
        if doc.is_empty() {
            return;
        }
        let mut a = self.x("annotation");
        for d in doc {
            let mut e = self.x("documentation");
            e.kids.push(K::T(d.clone()));
            a.kids.push(K::E(e));
        }
        x.kids.push(K::E(a));
    }

    pub fn root(&self) -> X {
        let mut r = self.x("schema");
        match &self.xsd {
            XsdNs::Prefix(p) => r.ns(Some(p), XSD),
            XsdNs::Default => r.ns(None, XSD),
            XsdNs::Both(p) => {
                r.ns(None, XSD);
                r.ns(Some(p), XSD);
            }
        }
        if self.target != Target::None {
            r.attr("targetNamespace", &self.uri);
        }
        match &self.target {
            Target::None => (),
            Target::Prefix(p) => r.ns(Some(p), &self.uri),
            Target::Default => r.ns(None, &self.uri),
            Target::Both(p) => {
                r.ns(None, &self.uri);
                r.ns(Some(p), &self.uri);
            }
        }
        for (p, u) in self.foreign.iter().chain(&self.unused_ns) {
            // bound without a declaration
            if u == XML_NS {
                continue;
            }
            r.ns(Some(p), u);
        }
        r.attr("elementFormDefault", "qualified");
        r
    }

    pub fn tree(&self) -> X {
        let mut r = self.root();
        for d in &self.decls {
            r.kids.push(K::E(self.xdecl(d)));
        }
        if self.noise != 0 {
            let mut seed = self.noise as u64;
            noise(&mut r, &mut seed);
        }
        r
    }

    pub fn xdecl(&self, d: &Decl) -> X {
        match d {
            Decl::C(n, c) => self.xcomplex(Some(n), c),
            Decl::S(n, s) => self.xsimple(Some(n), s),
            Decl::E(n, b, doc) => {
                let mut x = self.x("element");
                x.attr("name", n);
                self.notes(&mut x, doc);
                match b {
                    EBody::Empty => (),
                    EBody::T(t) => x.attr("type", &self.tref(t)),
                    EBody::C(c) => x.kids.push(K::E(self.xcomplex(None, c))),
                    EBody::S(c) => x.kids.push(K::E(self.xsimple(None, c))),
                }
                x
            }
            Decl::A(n, t, doc) => {
                let mut x = self.x("attribute");
                x.attr("name", n);
                self.notes(&mut x, doc);
                self.xaty(&mut x, t);
                x
            }
            Decl::G(n, a, doc) => {
                let mut x = self.x("attributeGroup");
                x.attr("name", n);
                self.notes(&mut x, doc);
                self.xatts(&mut x, a);
                x
            }
            Decl::Import(i) => {
                let mut x = self.x("import");
                x.attr("namespace", &self.foreign[*i].1);
                x.attr("schemaLocation", "other.xsd");
                x
            }
            Decl::Notes(doc) => {
                let mut a = self.x("annotation");
                for d in doc {
                    let mut e = self.x("documentation");
                    e.kids.push(K::T(d.clone()));
                    a.kids.push(K::E(e));
                }
                a
            }
        }
    }

    fn xaty(&self, x: &mut X, t: &ATy) {
        match t {
            ATy::T(t) => x.attr("type", &self.tref(t)),
            ATy::R(t) => x.attr("ref", &self.tref(t)),
            ATy::S(s) => x.kids.push(K::E(self.xsimple(None, s))),
            ATy::Untyped => (),
        }
    }

    fn xatts(&self, x: &mut X, atts: &[Att]) {
        for a in atts {
            let e = match a {
                Att::A(a) => {
                    let mut e = self.x("attribute");
                    if !matches!(a.ty, ATy::R(_)) {
                        e.attr("name", &a.name);
                    }
                    if let Some(u) = a.use_ {
                        e.attr("use", u);
                    }
                    self.notes(&mut e, &a.doc);
                    self.xaty(&mut e, &a.ty);
                    e
                }
                Att::Any(doc) => {
                    let mut e = self.x("anyAttribute");
                    e.attr("processContents", "lax");
                    self.notes(&mut e, doc);
                    e
                }
                Att::G(t) => {
                    let mut e = self.x("attributeGroup");
                    e.attr("ref", &self.tref(t));
                    e
                }
            };
            x.kids.push(K::E(e));
        }
    }

    fn xelem(&self, e: &Elem) -> X {
        let mut x = self.x("element");
        match &e.ty {
            ETy::R(t) => x.attr("ref", &self.tref(t)),
            _ => x.attr("name", &e.name),
        }
        if let Some(m) = &e.b.min {
            x.attr("minOccurs", m);
        }
        if let Some(m) = &e.b.max {
            x.attr("maxOccurs", m);
        }
        self.notes(&mut x, &e.doc);
        match &e.ty {
            ETy::T(t) => x.attr("type", &self.tref(t)),
            ETy::R(_) => (),
            ETy::C(c) => x.kids.push(K::E(self.xcomplex(None, c))),
            ETy::S(s) => x.kids.push(K::E(self.xsimple(None, s))),
        }
        x
    }

    fn xchoice(&self, c: &Choice) -> X {
        let mut x = self.x("choice");
        self.notes(&mut x, &c.doc);
        for b in &c.branches {
            x.kids.push(K::E(self.xelem(b)));
        }
        if c.any {
            x.kids.push(K::E(self.x("any")));
        }
        x
    }

    fn xbody(&self, x: &mut X, b: &Body) {
        match b {
            Body::None => (),
            Body::Seq(parts) => {
                let mut s = self.x("sequence");
                for p in parts {
                    s.kids.push(K::E(match p {
                        Part::E(e) => self.xelem(e),
                        Part::Ch(c) => self.xchoice(c),
                        Part::Any(doc) => {
                            let mut a = self.x("any");
                            a.attr("namespace", "##other");
                            a.attr("minOccurs", "0");
                            self.notes(&mut a, doc);
                            a
                        }
                    }));
                }
                x.kids.push(K::E(s));
            }
            Body::All(es) => {
                let mut s = self.x("all");
                for e in es {
                    s.kids.push(K::E(self.xelem(e)));
                }
                x.kids.push(K::E(s));
            }
            Body::Choice(c) => x.kids.push(K::E(self.xchoice(c))),
        }
    }

    pub fn xcomplex(&self, name: Option<&str>, c: &Complex) -> X {
        let mut x = self.x("complexType");
        if let Some(n) = name {
            x.attr("name", n);
        }
        self.notes(&mut x, &c.doc);
        let (wrap, tag, base) = match &c.deriv {
            Deriv::Plain => {
                self.xbody(&mut x, &c.body);
                self.xatts(&mut x, &c.atts);
                return x;
            }
            Deriv::Ext(b) => ("complexContent", "extension", self.tref(b)),
            Deriv::Restr(b) => ("complexContent", "restriction", self.tref(b)),
            Deriv::RestrAny => ("complexContent", "restriction", {
                match self.xsd_prefix() {
                    Some(p) => format!("{}:anyType", p),
                    None => "anyType".into(),
                }
            }),
            Deriv::SimpleExt(b) => ("simpleContent", "extension", self.tref(b)),
        };
        let mut w = self.x(wrap);
        let mut d = self.x(tag);
        d.attr("base", &base);
        self.notes(&mut d, &c.inner_doc);
        self.xbody(&mut d, &c.body);
        self.xatts(&mut d, &c.atts);
        w.kids.push(K::E(d));
        x.kids.push(K::E(w));
        x
    }

    pub fn xsimple(&self, name: Option<&str>, s: &Simple) -> X {
        let mut x = self.x("simpleType");
        if let Some(n) = name {
            x.attr("name", n);
        }
        self.notes(&mut x, &s.doc);
        let k = match &s.kind {
            SKind::R(b, fs) => {
                let mut r = self.x("restriction");
                r.attr("base", &self.tref(b));
                for f in fs {
                    let mut e = self.x(f.kind);
                    e.attr("value", &f.value);
                    self.notes(&mut e, &f.doc);
                    r.kids.push(K::E(e));
                }
                r
            }
            SKind::L(t) => {
                let mut r = self.x("list");
                r.attr("itemType", &self.tref(t));
                r
            }
            SKind::LI(s) => {
                let mut r = self.x("list");
                r.kids.push(K::E(self.xsimple(None, s)));
                r
            }
            SKind::U(m, inl, sep) => {
                let mut r = self.x("union");
                if !m.is_empty() {
                    let ms: Vec<String> = m.iter().map(|t| self.tref(t)).collect();
                    r.attr("memberTypes", &ms.join(sep));
                }
                for s in inl {
                    r.kids.push(K::E(self.xsimple(None, s)));
                }
                r
            }
        };
        x.kids.push(K::E(k));
        x
    }
}
