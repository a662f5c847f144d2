//! G15: compiled code of generated schemas, on generated documents.
use crate::ast::{self, Code, Kind};
use crate::e2e::*;
use crate::expect::*;
use crate::model::*;
use crate::structural::generate;
use crate::xml::*;
use std::collections::BTreeMap;
use vp_common::*;

pub const PROFILE: Profile = Profile {
    decls: 7, docs: 1, odd_names: 3, foreign: 0, inline: 2, choice: 2, derive: 4, groups: 3,
    simple: 2, odd_ns: 3, enums: 3, bounds: 3, facets: false, depth: 2, compile: true,
};

/// A schema, its code and what a document may be of.
pub struct Case {
    pub sch: Schema,
    pub xml: String,
    pub text: String,
    pub code: Code,
    /// Definition, name, and declaration of each root.
    pub roots: Vec<(usize, usize)>,
    pub unit: Unit,
}

/// The path of a definition from the case's module.
fn path(code: &Code, d: usize) -> String {
    code.path(d).replacen("crate::", "super::code::", 1)
}

fn rust_str(s: &str) -> String {
    format!("{:?}", s)
}

/// `impl B` of every definition.
pub fn glue(code: &Code) -> String {
    let mut o = String::new();
    for (d, def) in code.defs.iter().enumerate() {
        let p = path(code, d);
        let body = match def.kind {
            Kind::Struct => {
                let fs: Vec<String> = def.fields.iter().map(|f| format!("{}: B::b(t)", f.ident)).collect();
                format!("{} {{ {} }}", p, fs.join(", "))
            }
            Kind::Tuple => format!("{}(B::b(t))", p),
            Kind::Enum if def.derives.iter().any(|x| x == "UtilsUnionSerDe") => "parse(t)".into(),
            Kind::Enum => {
                let mut m = String::from("match t.next() {");
                for v in &def.variants {
                    if v.ident == "__Unknown__" {
                        continue;
                    }
                    let w = v.wire();
                    match &v.ty {
                        None => m.push_str(&format!(" {} => {}::{},", rust_str(w), p, v.ident)),
                        Some(_) => m.push_str(&format!(" {} => {}::{}(B::b(t)),", rust_str(w), p, v.ident)),
                    }
                }
                m.push_str(" w => panic!(\"no variant stands for {:?}\", w) }");
                m
            }
        };
        o.push_str(&format!("    impl B for {} {{\n        fn b(t: &mut T) -> Self {{\n            {}\n        }}\n    }}\n", p, body));
    }
    o
}

pub fn case_of(sch: Schema, xml: String) -> Result<Case, String> {
    let text = guard(|| generate(&xml)).and_then(|r| r)?;
    let code = ast::read(&text)?;
    let mut roots = vec![];
    let mut exprs = vec![];
    for (i, d) in sch.decls.iter().enumerate() {
        let n = match d {
            Decl::C(n, _) | Decl::E(n, EBody::C(_) | EBody::Empty, _) => n,
            _ => continue,
        };
        let hit = code.mods[0].defs.iter().copied().find(|d| squash(&code.defs[*d].name) == squash(n) && code.defs[*d].kind == Kind::Struct);
        match hit {
            Some(h) => {
                roots.push((i, h));
                exprs.push(format!("doc::<{}>", path(&code, h).replacen("super::", "", 1)));
            }
            None => return Err(format!("no structure for {:?}", n)),
        }
    }
    let unit = Unit { code: text.clone(), glue: glue(&code), roots: exprs };
    Ok(Case { sch, xml, text, code, roots, unit })
}

pub fn schema_case(tape: &[u32]) -> (String, Result<Case, String>) {
    let mut s = Src::new(tape);
    let sch = schema(&mut s, &PROFILE);
    let xml = sch.tree().plain();
    (xml.clone(), case_of(sch, xml))
}

// ------------------------------------------------------------------- documents

/// An element: its attributes and text as written in the input and as the
/// writer writes them.
#[derive(Clone, Debug, Default)]
pub struct Nd {
    pub local: String,
    pub attrs: Vec<(String, String, String)>,
    pub text: Option<(String, String)>,
    pub kids: Vec<Nd>,
}

#[derive(Debug)]
pub enum Stop {
    Exclude(&'static str),
    Bad(String),
}

type Toks = Vec<String>;

/// Types the derived readers treat as plain text.
const PRIMITIVE: &[&str] = &["String", "bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64"];

pub struct Docs<'c, 's, 't> {
    pub c: &'c Case,
    pub s: &'s mut Src<'t>,
    pub depth: usize,
    pub counts: BTreeMap<&'static str, usize>,
}

#[derive(Clone, Copy, PartialEq)]
enum At {
    /// The text of an element.
    Elem,
    /// The value of an attribute.
    Attr,
    /// The same, where blanks separate items.
    Word,
    /// The same, where several types are possible.
    Any,
}

const fn same(s: &'static str) -> (&'static str, &'static str) {
    (s, s)
}

fn literals(b: &str) -> Vec<(&'static str, &'static str)> {
    match b {
        "string" => ["word", "two words", "a & b", "x < y > z", "\"quoted\"", "it's", "Grüße", "日本", "line\nline", "a  b", "]]", "0", "true", "&amp;"].map(same).into(),
        "normalizedString" | "token" => ["word", "two words", "a & b", "0", "é", "<", "a;b"].map(same).into(),
        "language" => ["en", "de-CH", "x-klingon"].map(same).into(),
        "Name" => ["name", "ns:name", "_n.1"].map(same).into(),
        "NCName" | "ENTITY" | "ID" | "IDREF" => ["name", "_n-1", "ñ"].map(same).into(),
        "NMTOKEN" => ["-x.1", "1:2", "tok"].map(same).into(),
        "anyURI" => ["http://e.example/a?b=c#d", "urn:x:y", "../up/%20"].map(same).into(),
        "QName" | "NOTATION" => ["xs:int", "local"].map(same).into(),
        "hexBinary" => ["0AfF", "00"].map(same).into(),
        "base64Binary" => ["QUJD", "QQ=="].map(same).into(),
        "boolean" => vec![("true", "true"), ("false", "false"), ("1", "true"), ("0", "false")],
        "byte" => vec![("-128", "-128"), ("127", "127"), ("+7", "7"), ("-001", "-1")],
        "short" => vec![("-32768", "-32768"), ("32767", "32767"), ("300", "300")],
        "int" => vec![("-2147483648", "-2147483648"), ("2147483647", "2147483647"), ("007", "7"), ("+70000", "70000")],
        "long" => vec![("-9223372036854775808", "-9223372036854775808"), ("9223372036854775807", "9223372036854775807"), ("+1", "1"), ("-41", "-41")],
        "unsignedByte" => vec![("255", "255"), ("0", "0"), ("+128", "128")],
        "unsignedShort" => vec![("65535", "65535"), ("40000", "40000")],
        "unsignedInt" => vec![("4294967295", "4294967295"), ("3000000000", "3000000000")],
        "unsignedLong" => vec![("18446744073709551615", "18446744073709551615"), ("00", "0"), ("41", "41")],
        "integer" => vec![("-123456789012345678901234567890", "-123456789012345678901234567890"), ("+5", "5"), ("0", "0")],
        "nonNegativeInteger" => vec![("123456789012345678901234567890", "123456789012345678901234567890"), ("0", "0"), ("08", "8")],
        "positiveInteger" => vec![("123456789012345678901234567890", "123456789012345678901234567890"), ("1", "1")],
        "nonPositiveInteger" => vec![("-123456789012345678901234567890", "-123456789012345678901234567890"), ("0", "0")],
        "negativeInteger" => vec![("-123456789012345678901234567890", "-123456789012345678901234567890"), ("-1", "-1")],
        "decimal" => ["1.5", "-0.25", "7", "123456789012345678901234567890.125"].map(same).into(),
        "double" | "float" => vec![("1.5", "1.5"), ("-0.25", "-0.25"), ("1e3", "1000"), ("7", "7")],
        "date" => ["2020-02-29", "1999-12-31+05:30", "2001-01-01-11:00"].map(same).into(),
        "time" => ["12:30:45", "00:00:00+14:00", "23:59:59.125"].map(same).into(),
        "dateTime" => ["2020-02-29T23:59:59-11:30", "1999-12-31T00:00:00+05:30", "2001-01-01T01:02:03.250-03:00"].map(same).into(),
        "dateTimeStamp" => ["1999-12-31T00:00:00+05:30", "2001-01-01T01:02:03.125-03:00"].map(same).into(),
        "duration" => ["P1Y2M3DT4H5M6S", "-P1D", "PT1.5S"].map(same).into(),
        "gDay" => ["---31", "---01+02:00"].map(same).into(),
        "gMonth" => ["--12", "--01-02:00"].map(same).into(),
        "gMonthDay" => ["--02-29", "--12-31+02:00"].map(same).into(),
        "gYear" => ["2020", "1999+02:00"].map(same).into(),
        "gYearMonth" => ["2020-02", "1999-12-02:00"].map(same).into(),
        b => panic!("no literals of {}", b),
    }
}

impl Docs<'_, '_, '_> {
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }

    fn literal(&mut self, b: &str, at: At, wrapped: bool) -> (String, String) {
        let mut l = literals(b);
        l.retain(|(i, c)| {
            let ok = match at {
                At::Elem => true,
                At::Attr => !i.contains(['&', '<', '"', '\n', '>', '\'']),
                At::Any if i.parse::<f64>().is_ok_and(|f| f.to_string() != *i) => false,
                At::Word | At::Any => i == c && !i.contains(['&', '<', '"', ' ', '\n', '>', '\'']),
            };
            // a truth value that is wrapped or a branch knows words only
            ok && !(b == "boolean" && wrapped && i != c)
        });
        let (i, c) = *self.s.pick(&l);
        if i != c {
            self.count("values written otherwise");
        }
        (i.into(), c.into())
    }

    /// Tokens, input and written text of a simple value.
    fn simple(&mut self, t: &TRef, at: At, wrapped: bool) -> Result<(Toks, String, String), Stop> {
        match t {
            TRef::B(b @ ("NMTOKENS" | "IDREFS" | "ENTITIES")) => {
                if !wrapped {
                    return Err(Stop::Exclude("a list type outside a definition"));
                }
                let _ = b;
                self.items(&TRef::B("NCName"))
            }
            TRef::B(b) => {
                let (i, c) = self.literal(b, at, wrapped);
                let tok = if *b == "boolean" { i.clone() } else if builtin(b) == "f64" { i.clone() } else { c.clone() };
                Ok((vec![tok], i, c))
            }
            TRef::L(n) => {
                let k = self.c.sch.simple(n).expect("a simple type").kind.clone();
                self.kind(&k, at)
            }
            TRef::F(..) => unreachable!(),
        }
    }

    fn items(&mut self, t: &TRef) -> Result<(Toks, String, String), Stop> {
        self.repeat(|d| d.simple(t, At::Word, true))
    }

    fn repeat(&mut self, mut f: impl FnMut(&mut Self) -> Result<(Toks, String, String), Stop>) -> Result<(Toks, String, String), Stop> {
        let n = 1 + self.s.below(4);
        let mut toks = vec![n.to_string()];
        let (mut i, mut c) = (String::new(), String::new());
        for k in 0..n {
            let (t, _, w) = f(self)?;
            toks.extend(t);
            if k > 0 {
                i.push_str(self.s.pick(&[" ", "  ", " "]));
                c.push(' ');
            }
            i.push_str(&w);
            c.push_str(&w);
        }
        self.count("lists");
        Ok((toks, i, c))
    }

    fn kind(&mut self, k: &SKind, at: At) -> Result<(Toks, String, String), Stop> {
        match k {
            SKind::R(_, fs) if fs.iter().any(|f| f.kind == "enumeration") => {
                let l: Vec<&str> = fs
                    .iter()
                    .filter(|f| f.kind == "enumeration")
                    .map(|f| f.value.as_str())
                    .filter(|v| !v.is_empty() && v.trim() == *v && (at == At::Elem || !v.contains(['&', '<', '"', '>', '\''])))
                    .collect();
                if l.is_empty() {
                    return Err(Stop::Exclude("no enumeration value to write"));
                }
                let v = self.s.pick(&l).to_string();
                self.count("enumeration values");
                Ok((vec![v.clone()], v.clone(), v))
            }
            SKind::R(b, _) => self.simple(b, at, true),
            SKind::L(t) => self.items(t),
            SKind::LI(inner) => {
                let k = inner.kind.clone();
                self.repeat(|d| d.kind(&k, At::Word))
            }
            SKind::U(m, inl, _) => {
                let n = self.s.below(m.len() + inl.len());
                let (_, _, w) = if n < m.len() { self.simple(&m[n], At::Any, true)? } else { self.kind(&inl[n - m.len()].kind.clone(), At::Any)? };
                self.count("union values");
                Ok((vec![w.clone()], w.clone(), w))
            }
        }
    }

    /// Tokens of a member that occurs so many times, by its Rust type.
    fn wrap(ty: &str, occ: &[Toks], at: &str) -> Result<Toks, Stop> {
        let strip = |w: &str| ty.strip_prefix(w).and_then(|t| t.strip_suffix('>'));
        if let Some(t) = strip("Option<") {
            if occ.is_empty() {
                return Ok(vec!["0".into()]);
            }
            let mut o = vec!["1".to_string()];
            o.extend(Self::wrap(t, occ, at)?);
            return Ok(o);
        }
        if let Some(t) = strip("Vec<") {
            let mut o = vec![occ.len().to_string()];
            for x in occ {
                o.extend(Self::wrap(t, std::slice::from_ref(x), at)?);
            }
            return Ok(o);
        }
        if let Some(t) = strip("Box<") {
            return Self::wrap(t, occ, at);
        }
        match occ {
            [x] => Ok(x.clone()),
            _ => Err(Stop::Bad(format!("{} occurs {} times in a valid document, but has type {}", at, occ.len(), ty))),
        }
    }

    fn inner(ty: &str) -> &str {
        for w in ["Option<", "Vec<", "Box<"] {
            if let Some(t) = ty.strip_prefix(w).and_then(|t| t.strip_suffix('>')) {
                return Self::inner(t);
            }
        }
        ty
    }

    /// The derived reader of an enumeration takes a tag for a value and waits
    /// for ever behind it. An attribute's value gets the type's name as tag.
    fn unread(&self, scope: usize, ty: &str, tag: &str) -> Result<(), Stop> {
        let hits = self.c.code.resolve(scope, Self::inner(ty));
        let stuck = hits.iter().map(|d| &self.c.code.defs[*d]).any(|d| d.kind == Kind::Enum && d.variants.iter().any(|v| v.wire() == tag));
        if stuck {
            return Err(Stop::Exclude("an enumeration with a value named like the element"));
        }
        Ok(())
    }

    /// One occurrence of an element whose Rust type is `ty` in module `scope`.
    fn element(&mut self, e: &Elem, ty: &str, scope: usize, branch: bool, at: &str) -> Result<(Toks, Nd), Stop> {
        let leaf = |(toks, i, c): (Toks, String, String)| {
            (toks, Nd { local: e.name.clone(), text: Some((i, c)), ..Nd::default() })
        };
        let def = |this: &Self| {
            let hits = this.c.code.resolve(scope, Self::inner(ty));
            match hits[..] {
                [d] if this.c.code.defs[d].kind == Kind::Struct => Ok(d),
                _ => Err(Stop::Bad(format!("{}: {} is not one structure", at, ty))),
            }
        };
        self.unread(scope, ty, &e.name)?;
        match &e.ty {
            ETy::T(TRef::L(n)) | ETy::R(TRef::L(n)) => {
                if let (ETy::T(_), Some(_)) = (&e.ty, self.c.sch.simple(n)) {
                    return Ok(leaf(self.simple(&TRef::L(n.clone()), At::Elem, false)?));
                }
                let d = def(self)?;
                if let (ETy::T(_), Some(c)) = (&e.ty, self.c.sch.complex(n)) {
                    let c = c.clone();
                    return self.complex(d, n, Some(n), &c, &e.name);
                }
                let b = self.c.sch.decls.iter().find_map(|d| match d {
                    Decl::E(m, b, _) if m == n => Some(b.clone()),
                    _ => None,
                });
                match b {
                    Some(EBody::C(c)) => self.complex(d, n, None, &c, &e.name),
                    _ => Ok((vec![], Nd { local: e.name.clone(), ..Nd::default() })),
                }
            }
            ETy::T(t) => Ok(leaf(self.simple(t, At::Elem, branch)?)),
            ETy::R(_) => unreachable!(),
            ETy::C(c) => {
                let d = def(self)?;
                self.complex(d, &e.name, None, c, &e.name)
            }
            ETy::S(s) => {
                let k = s.kind.clone();
                Ok(leaf(self.kind(&k, At::Elem)?))
            }
        }
    }

    /// Tokens and document of a value of structure `d`.
    pub fn complex(&mut self, d: usize, name: &str, owner: Option<&str>, c: &Complex, local: &str) -> Result<(Toks, Nd), Stop> {
        if self.depth > 12 {
            return Err(Stop::Exclude("a structure that contains itself without end"));
        }
        self.depth += 1;
        let r = self.complex_in(d, name, owner, c, local);
        self.depth -= 1;
        r
    }

    fn complex_in(&mut self, d: usize, name: &str, owner: Option<&str>, c: &Complex, local: &str) -> Result<(Toks, Nd), Stop> {
        let case = self.c;
        let def = &case.code.defs[d];
        let ms = members(&case.sch, name, owner, c);
        let mut toks: Vec<Option<Toks>> = vec![None; def.fields.len()];
        let mut nd = Nd { local: local.into(), ..Nd::default() };
        let mut structured = false;
        // the content of a base comes before that of the types derived from it
        let mut levels: Vec<(Option<String>, Vec<Nd>)> = vec![];
        for m in ms.iter().filter(|m| !prohibited(m)) {
            let at = format!("{}: {:?}", def.name, m.key().1);
            let field = def.fields.iter().position(|f| match &m.mem {
                Mem::A(a) => f.is_attr() && f.wire() == Some(&a.name),
                Mem::E(e) => !f.is_attr() && !f.flat() && f.wire() == Some(&e.name),
                Mem::Ch(_, n) => f.flat() && choice_names(n).contains(&squash(&f.ident)),
            });
            let Some(i) = field else {
                return Err(Stop::Bad(format!("{} has no field", at)));
            };
            if toks[i].is_some() {
                return Err(Stop::Exclude("two members of one name"));
            }
            let ty = &def.fields[i].ty;
            match m.from {
                From::Own => (),
                From::Group => self.count("group members"),
                From::Base => self.count("inherited members"),
            }
            let mut kids = vec![];
            match &m.mem {
                Mem::A(a) => {
                    let mut occ = vec![];
                    self.unread(def.scope, ty, Self::inner(ty))?;
                    if a.use_ == Some("required") || self.s.flip() {
                        let (t, i, c) = match &a.ty {
                            ATy::T(t) => self.simple(t, At::Attr, false)?,
                            _ => {
                                let (i, c) = self.literal("token", At::Attr, false);
                                (vec![c.clone()], i, c)
                            }
                        };
                        occ.push(t);
                        nd.attrs.push((a.name.clone(), i, c));
                        self.count("attributes");
                    } else {
                        self.count("absent attributes");
                    }
                    toks[i] = Some(Self::wrap(ty, &occ, &at)?);
                }
                Mem::E(e) => {
                    let lo = e.b.lo().min(20) as usize;
                    let hi = e.b.hi().map_or(lo + 3, |h| h.min(20) as usize).max(lo);
                    // values get simpler further in
                    let hi = if self.depth > 3 { lo } else { hi.min(lo + 3) };
                    let n = lo + self.s.below(hi - lo + 1);
                    let mut occ = vec![];
                    for _ in 0..n {
                        let (t, k) = self.element(e, ty, def.scope, false, &at)?;
                        occ.push(t);
                        kids.push(k);
                    }
                    match n {
                        0 => self.count("absent elements"),
                        1 => self.count("elements"),
                        _ => self.count("repeated elements"),
                    }
                    structured |= n > 0 && !PRIMITIVE.contains(&Self::inner(ty));
                    toks[i] = Some(Self::wrap(ty, &occ, &at)?);
                }
                Mem::Ch(ch, _) => {
                    let hits = case.code.resolve(def.scope, Self::inner(ty));
                    let [h] = hits[..] else {
                        return Err(Stop::Bad(format!("{}: {} is not one choice", at, ty)));
                    };
                    let e = self.s.pick(&ch.branches).clone();
                    let v = case.code.defs[h].variants.iter().find(|v| v.wire() == e.name);
                    let Some(v) = v else {
                        return Err(Stop::Bad(format!("{}: no variant for {:?}", at, e.name)));
                    };
                    let mut t = vec![e.name.clone()];
                    let Some(vt) = &v.ty else {
                        return Err(Stop::Bad(format!("{}: the variant for {:?} holds nothing", at, e.name)));
                    };
                    let (x, k) = self.element(&e, vt, case.code.defs[h].scope, true, &at)?;
                    if !k.attrs.is_empty() {
                        return Err(Stop::Exclude("attributes of the element of a choice"));
                    }
                    t.extend(Self::wrap(vt, &[x], &at)?);
                    kids.push(k);
                    self.count("choices");
                    toks[i] = Some(Self::wrap(ty, &[t], &at)?);
                }
            }
            match levels.iter_mut().find(|l| l.0 == m.owner) {
                Some(l) => l.1.extend(kids),
                None => levels.push((m.owner.clone(), kids)),
            }
        }
        if let Some(i) = toks.iter().position(|t| t.is_none()) {
            return Err(Stop::Bad(format!("{}: the field {} belongs to no member", def.name, def.fields[i].ident)));
        }
        let own = owner.map(String::from);
        for (o, mut k) in levels.into_iter().rev() {
            if o == own && matches!(c.body, Body::All(_)) {
                self.s.shuffle(&mut k);
            }
            nd.kids.extend(k);
        }
        // limits of the derived readers
        let branch = ms.iter().any(|m| matches!(&m.mem, Mem::Ch(ch, _) if ch.branches.iter().any(|b| b.name == nd.local)));
        let rooted = |n: &str| self.depth == 1 && n == def.name;
        let branch = branch || ms.iter().any(|m| matches!(&m.mem, Mem::Ch(ch, _) if ch.branches.iter().any(|b| rooted(&b.name))));
        if branch || def.fields.iter().map(|f| f.wire().unwrap_or(&f.ident)).any(|w| w == nd.local || rooted(w)) {
            return Err(Stop::Exclude("an element named like one of its members"));
        }
        if def.fields.iter().any(|f| f.flat()) && structured {
            return Err(Stop::Exclude("an element of a structured type beside a choice"));
        }
        Ok((toks.into_iter().flatten().flatten().collect(), nd))
    }

    /// The document as text.
    fn write(&mut self, nd: &Nd) -> String {
        let uri = self.c.sch.uri.clone();
        let none = self.c.sch.target == Target::None;
        let own = self.c.sch.prefix().map(String::from);
        let prefix = if none {
            None
        } else {
            match self.s.below(4) {
                0 => None,
                1 => Some("d".to_string()),
                2 => Some("other-9".to_string()),
                _ => own,
            }
        };
        let mut x = self.x(nd, &prefix);
        if !none {
            x.ns(prefix.as_deref(), &uri);
        }
        if self.s.chance(1, 4) {
            x.ns(Some("unused"), "urn:unused");
        }
        self.s.shuffle(&mut x.attrs);
        if self.s.flip() { x.plain() } else { x.styled(self.s) }
    }

    fn x(&mut self, nd: &Nd, prefix: &Option<String>) -> X {
        let mut x = X::new(match prefix {
            Some(p) => format!("{}:{}", p, nd.local),
            None => nd.local.clone(),
        });
        for (k, i, _) in &nd.attrs {
            x.attr(k, i);
        }
        self.s.shuffle(&mut x.attrs);
        if let Some((i, _)) = &nd.text {
            x.kids.push(K::T(i.clone()));
        }
        for k in &nd.kids {
            if self.s.chance(1, 16) {
                x.kids.push(K::Raw(self.s.pick(&["<!-- a < b -->", "<?pi data?>"]).to_string()));
            }
            let k = self.x(k, prefix);
            x.kids.push(K::E(k));
        }
        x
    }
}

/// Compares a written element with the expected one; the order is judged among
/// elements of one name.
fn compare(n: roxmltree::Node, want: &Nd, uri: Option<&str>, root: bool) -> Result<(), String> {
    if !root && (n.tag_name().name() != want.local || n.tag_name().namespace() != uri) {
        return Err(format!("written {:?} instead of {:?} in {:?}", n.tag_name(), want.local, uri));
    }
    let got: BTreeMap<(Option<&str>, &str), &str> = n.attributes().map(|a| ((a.namespace(), a.name()), a.value())).collect();
    let exp: BTreeMap<(Option<&str>, &str), &str> = want.attrs.iter().map(|a| ((None, a.0.as_str()), a.2.as_str())).collect();
    if got != exp {
        return Err(format!("<{}> written with attributes {:?} instead of {:?}", want.local, got, exp));
    }
    let mut left: Vec<roxmltree::Node> = n.children().filter(|c| c.is_element()).collect();
    if want.kids.is_empty() && left.is_empty() {
        let t: String = n.children().filter(|c| c.is_text()).filter_map(|c| c.text()).collect();
        let w = want.text.as_ref().map_or("", |t| t.1.as_str());
        if t != w {
            return Err(format!("<{}> written with the text {:?} instead of {:?}", want.local, t, w));
        }
    }
    for k in &want.kids {
        match left.iter().position(|c| c.tag_name().name() == k.local) {
            Some(i) => compare(left.remove(i), k, uri, false)?,
            None => return Err(format!("<{}> written without a <{}>", want.local, k.local)),
        }
    }
    match left.first() {
        Some(c) => Err(format!("<{}> written with one <{}> too many", want.local, c.tag_name().name())),
        None => Ok(()),
    }
}

pub fn one(c: &Case, unit: usize, pool: &Pool, s: &mut Src, x: &mut Ctx) -> Result<(), String> {
    if c.roots.is_empty() || pool.tired() {
        x.exclude();
        x.desc("no structure");
        return Ok(());
    }
    let r = s.below(c.roots.len());
    let (decl, d) = c.roots[r];
    let mut g = Docs { c, s, depth: 0, counts: BTreeMap::new() };
    let made = match &c.sch.decls[decl] {
        Decl::C(n, k) => {
            // an element of the type, with a name of its own
            let tag = if g.s.flip() { "doc-root".to_string() } else { n.clone() };
            g.complex(d, n, Some(n), k, &tag)
        }
        Decl::E(n, EBody::C(k), _) => g.complex(d, n, None, k, n),
        Decl::E(n, ..) => Ok((vec![], Nd { local: n.clone(), ..Nd::default() })),
        _ => unreachable!(),
    };
    let (mut toks, nd) = match made {
        Ok(m) => m,
        Err(Stop::Exclude(why)) => {
            x.exclude();
            x.label(format!("left out: {}", why));
            x.desc(why);
            return Ok(());
        }
        Err(Stop::Bad(m)) => {
            x.desc(c.xml.clone());
            return Err(m);
        }
    };
    let doc = g.write(&nd);
    let counts = std::mem::take(&mut g.counts);
    x.desc(format!("{}\n--- document ---\n{}", c.xml, doc));
    x.key((&c.xml, &doc));
    let total: usize = counts.values().sum();
    x.nontrivial(total >= 2);
    for k in counts.keys() {
        x.label(*k);
    }
    toks.insert(0, doc.clone());
    let out = pool.ask(unit, r, &toks).inspect_err(|e| if e.starts_with("no answer") && std::env::var_os("VP_DEBUG").is_some() { println!("HANG {}\n{}", c.xml, doc) })?;
    let tree = roxmltree::Document::parse(&out).map_err(|e| format!("written {:?}: {}", clip(&out, 800), e))?;
    let uri = if c.sch.target == Target::None { None } else { Some(c.sch.uri.as_str()) };
    compare(tree.root_element(), &nd, uri, true).map_err(|e| format!("{}\nin {:?}", e, clip(&out, 1500)))
}

/// A tape that holds the tapes of a schema and of a document.
fn pair(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut t = vec![a.len() as u32];
    t.extend(a);
    t.extend(b);
    t
}

pub fn run(c: &mut Check) {
    c.rule = "a document with at least two members present, absent or repeated".into();
    c.max_shrink = 4000;
    if c.is_replay() {
        c.prop("pair", 0, 0, &|s, x| {
            let n = s.raw() as usize;
            let a: Vec<u32> = (0..n.min(s.left())).map(|_| s.raw()).collect();
            let (xml, case) = schema_case(&a);
            x.desc(xml);
            let case = case?;
            let (p, bad) = build(&[Some(&case.unit)], true)?;
            if let Some(e) = bad.get(&0) {
                return Err(format!("the code does not compile: {}", e));
            }
            let pool = Pool::new(&p);
            one(&case, 0, &pool, s, x)
        });
        c.prop("schema", 0, 0, &|s, x| {
            let a: Vec<u32> = (0..s.left()).map(|_| s.raw()).collect();
            let (xml, case) = schema_case(&a);
            x.desc(xml);
            case.map(|_| ())
        });
        return;
    }
    crate::witness::text(c, "G15");
    let n = c.scale(880, 1600) as usize;
    let batches = if c.thorough() { 4 } else { 1 };
    for batch in 0..batches {
        let name = format!("documents{}", if batch == 0 { String::new() } else { format!("-{}", batch + 1) });
        let tapes = tapes("G15", c.seed + 1000 * batch, n, 400);
        let mut units: Vec<(Vec<u32>, Case)> = vec![];
        for t in tapes {
            watch::note(8, units.len() as u64 * 2 + 1, true, "schema", &t);
            let (xml, case) = schema_case(&t);
            watch::note(8, units.len() as u64 * 2 + 2, false, "schema", &[]);
            match case {
                Ok(case) => units.push((t, case)),
                Err(m) => {
                    return c.violate(Violation { sub: "pair".into(), message: m, case: xml, tape: pair(&t, &[]) });
                }
            }
        }
        // small ones first: shrinking goes there
        units.sort_by_key(|u| u.1.text.len());
        let special = if batch == 0 { crate::witness::compiled() } else { vec![] };
        let refs: Vec<Option<&Unit>> = units.iter().map(|u| Some(&u.1.unit)).chain(special.iter().map(|k| k.2.as_ref())).collect();
        let (programs, mut bad) = match build(&refs, true) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(3)
            }
        };
        for (i, (key, what, unit)) in special.iter().enumerate() {
            c.finding(key, what, unit.is_none() || bad.contains_key(&(units.len() + i)));
        }
        bad.retain(|i, _| *i < units.len());
        if let Some((i, _)) = bad.first_key_value() {
            // look for a smaller one, some rounds of many at a time
            let mut best = (units[*i].0.clone(), bad[i].clone(), units[*i].1.xml.clone());
            for _ in 0..6 {
                let cands: Vec<(Vec<u32>, Case)> = smaller(&best.0)
                    .into_iter()
                    .filter_map(|t| schema_case(&t).1.ok().map(|k| (t, k)))
                    .filter(|k| k.1.xml.len() < best.2.len())
                    .collect();
                let refs: Vec<Option<&Unit>> = cands.iter().map(|u| Some(&u.1.unit)).collect();
                if refs.is_empty() {
                    break;
                }
                let Ok((_, bad)) = build(&refs, false) else { break };
                match bad.iter().min_by_key(|(i, _)| cands[**i].1.xml.len()) {
                    Some((i, e)) => best = (cands[*i].0.clone(), e.clone(), cands[*i].1.xml.clone()),
                    None => break,
                }
            }
            return c.violate(Violation { sub: "pair".into(), message: format!("the code does not compile: {}", best.1), case: best.2, tape: pair(&best.0, &[]) });
        }
        let pool = Pool::new(&programs);
        c.prop(&name, c.scale(120000, 1000000), 300, &|s, x| {
            let u = s.below(units.len());
            one(&units[u].1, u, &pool, s, x)
        });
        for mut v in c.take_violations() {
            if v.sub == name {
                let mut s = Src::new(&v.tape);
                let u = s.below(units.len());
                v.tape = pair(&units[u].0, v.tape.get(1..).unwrap_or(&[]));
                v.sub = "pair".into();
            }
            c.violate(v);
        }
        if c.failed() {
            return;
        }
    }
}
