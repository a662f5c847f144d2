//! G14: `validate()` of compiled generated wrappers, around every limit.
use crate::ast::{self, Kind};
use crate::docs::glue;
use crate::e2e::*;
use crate::model::squash;
use crate::structural::generate;
use crate::xml::*;
use std::cmp::Ordering;
use vp_common::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Base {
    /// Least and greatest value, where there is one.
    Int(Option<i128>, Option<i128>),
    Dec,
    Float,
    Text,
    List,
    /// Only facets that are not validated.
    Other,
}

const BASES: &[(&str, Base)] = &[
    ("int", Base::Int(Some(i32::MIN as i128), Some(i32::MAX as i128))),
    ("string", Base::Text),
    ("decimal", Base::Dec),
    ("double", Base::Float),
    ("integer", Base::Int(None, None)),
    ("byte", Base::Int(Some(-128), Some(127))),
    ("short", Base::Int(Some(-32768), Some(32767))),
    ("long", Base::Int(Some(i64::MIN as i128), Some(i64::MAX as i128))),
    ("unsignedByte", Base::Int(Some(0), Some(255))),
    ("unsignedShort", Base::Int(Some(0), Some(65535))),
    ("unsignedInt", Base::Int(Some(0), Some(u32::MAX as i128))),
    ("unsignedLong", Base::Int(Some(0), Some(u64::MAX as i128))),
    ("nonNegativeInteger", Base::Int(Some(0), None)),
    ("positiveInteger", Base::Int(Some(1), None)),
    ("nonPositiveInteger", Base::Int(None, Some(0))),
    ("negativeInteger", Base::Int(None, Some(-1))),
    ("float", Base::Float),
    ("token", Base::Text),
    ("normalizedString", Base::Text),
    ("Name", Base::Text),
    ("NCName", Base::Text),
    ("anyURI", Base::Text),
    ("ID", Base::Text),
    ("language", Base::Text),
    ("NMTOKEN", Base::Text),
    ("NMTOKENS", Base::List),
    ("IDREFS", Base::List),
    ("boolean", Base::Other),
    ("date", Base::Other),
    ("gYear", Base::Other),
    ("duration", Base::Other),
    ("hexBinary", Base::Other),
];

#[derive(Clone, Debug)]
pub struct Wrapper {
    /// Blanks written around each facet's value.
    pads: Vec<(&'static str, &'static str)>,
    pub name: String,
    pub base: usize,
    pub facets: Vec<(&'static str, String)>,
    /// Inline in an element of a type, an element of its own, or a named type.
    pub place: usize,
    pub doc: bool,
}

const BOUNDS: &[&str] = &["minInclusive", "minExclusive", "maxInclusive", "maxExclusive"];
const LENGTHS: &[&str] = &["length", "minLength", "maxLength"];

/// A number as sign, digits before and after the point.
fn exact(t: &str) -> Option<(bool, String, String)> {
    let (neg, b) = match t.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, t.strip_prefix('+').unwrap_or(t)),
    };
    let (i, f) = b.split_once('.').unwrap_or((b, ""));
    if !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) || (i.is_empty() && f.is_empty()) {
        return None;
    }
    let (i, f) = (i.trim_start_matches('0').to_string(), f.trim_end_matches('0').to_string());
    let zero = i.is_empty() && f.is_empty();
    Some((neg && !zero, i, f))
}

pub fn order(a: &str, b: &str) -> Option<Ordering> {
    let ((na, ia, fa), (nb, ib, fb)) = (exact(a)?, exact(b)?);
    let abs = ia.len().cmp(&ib.len()).then(ia.cmp(&ib)).then(fa.cmp(&fb));
    Some(match (na, nb) {
        (false, true) => Ordering::Greater,
        (true, false) => Ordering::Less,
        (false, false) => abs,
        (true, true) => abs.reverse(),
    })
}

fn digits(s: &mut Src, max: usize) -> String {
    let n = 1 + s.below(max);
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

/// A number written in the way of the type.
fn number(s: &mut Src, b: Base) -> String {
    match b {
        Base::Int(lo, hi) => {
            let near = |s: &mut Src, x: i128| x + s.range(-3, 3) as i128;
            let v = match s.below(5) {
                0 => s.range(-20, 20) as i128,
                1 => near(s, 0),
                2 => {
                    let l = lo.unwrap_or(-(1 << 70));
                    near(s, l)
                }
                3 => {
                    let h = hi.unwrap_or(1 << 70);
                    near(s, h)
                }
                _ => {
                    let d = digits(s, 19).parse::<i128>().unwrap();
                    if s.flip() { -d } else { d }
                }
            };
            let v = v.clamp(lo.unwrap_or(i128::MIN), hi.unwrap_or(i128::MAX));
            let mut t = v.to_string();
            if s.chance(1, 10) {
                t = match t.strip_prefix('-') {
                    Some(d) => format!("-00{}", d),
                    None => format!("{}{}", s.pick(&["+", "0", "+00"]), t),
                };
            }
            if lo.is_none() && hi.is_none() && s.chance(1, 8) {
                t = format!("{}{}", s.pick(&["", "-"]), digits(s, 60));
            }
            t
        }
        Base::Dec => {
            let sign = *s.pick(&["", "-", "+"]);
            let body = match s.below(6) {
                0 => s.range(0, 20).to_string(),
                1 => format!("{}.{}", s.range(0, 5), s.range(0, 99)),
                2 => format!(".{}", digits(s, 6)),
                3 => format!("{}.", digits(s, 4)),
                4 => format!("{}.{}", digits(s, 30), digits(s, 30)),
                _ => format!("0{}.{}0", digits(s, 3), digits(s, 3)),
            };
            format!("{}{}", sign, body)
        }
        _ => {
            let x = match s.below(7) {
                0 => s.range(-20, 20) as f64,
                1 => s.range(-999, 999) as f64 / 100.0,
                2 => *s.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e16, 9007199254740993.0]),
                3 => f64::INFINITY,
                4 => f64::NEG_INFINITY,
                _ => {
                    let v = f64::from_bits(((s.raw() as u64) << 32) | s.raw() as u64);
                    if v.is_nan() { 0.5 } else { v }
                }
            };
            float_text(s, x)
        }
    }
}

fn float_text(s: &mut Src, x: f64) -> String {
    if x.is_infinite() {
        return if x > 0.0 { "INF".into() } else { "-INF".into() };
    }
    match s.below(3) {
        0 => format!("{:?}", x),
        1 => format!("{:e}", x),
        _ => format!("{:E}", x),
    }
}

/// Whether the first is surely below the second.
fn below(b: Base, lo: &str, hi: &str) -> bool {
    match b {
        Base::Float => lo.parse::<f64>().unwrap() < hi.parse::<f64>().unwrap(),
        _ => order(lo, hi) == Some(Ordering::Less),
    }
}

fn wrapper(s: &mut Src, i: usize) -> Wrapper {
    let base = if s.chance(1, 8) { s.below(BASES.len()) } else { s.below(27) };
    let b = BASES[base].1;
    let mut facets: Vec<(&'static str, String)> = vec![];
    match b {
        Base::Int(..) | Base::Dec | Base::Float => {
            let k = s.below(8);
            let lo = (k != 1 && k != 7).then(|| (*s.pick(&BOUNDS[..2]), number(s, b)));
            let hi = (k != 2 && k != 7).then(|| (*s.pick(&BOUNDS[2..]), number(s, b)));
            match (lo, hi) {
                (Some(l), Some(h)) => {
                    let same = l.0 == "minInclusive" && h.0 == "maxInclusive";
                    if below(b, &l.1, &h.1) || (same && !below(b, &h.1, &l.1)) {
                        facets.extend([l, h])
                    } else if below(b, &h.1, &l.1) {
                        facets.extend([(l.0, h.1), (h.0, l.1)])
                    } else {
                        facets.push(l)
                    }
                }
                (l, h) => facets.extend(l.into_iter().chain(h)),
            }
            if b != Base::Float && s.chance(1, 6) {
                facets.push(("totalDigits", (1 + s.below(5)).to_string()));
            }
            if b == Base::Dec && s.chance(1, 3) {
                let n = facets.iter().find(|f| f.0 == "totalDigits").map_or(4, |f| f.1.parse().unwrap());
                facets.push(("fractionDigits", s.below(n + 1).to_string()));
            } else if matches!(b, Base::Int(..)) && s.chance(1, 12) {
                facets.push(("fractionDigits", "0".into()));
            }
            if s.chance(1, 8) {
                facets.push(("pattern", s.pick(&["[0-9]+", "\\d{3}", "x", "\"", "\\.", "a{0,3}"]).to_string()));
            }
            if s.chance(1, 10) {
                facets.push(("whiteSpace", "collapse".into()));
            }
            if b == Base::Dec && s.chance(1, 8) {
                facets.push(("enumeration", "1.5".into()));
                facets.push(("enumeration", "-2.25".into()));
            }
        }
        Base::Text | Base::List => {
            let mut len = |s: &mut Src| -> u64 {
                match s.below(6) {
                    0..=3 => s.below(6) as u64,
                    4 => s.below(70) as u64,
                    _ => *s.pick(&[255, 256, 65536, 4294967295, 4294967296, u64::MAX]),
                }
            };
            let (a, z) = (len(s), len(s));
            let (a, z) = (a.min(z), a.max(z));
            match s.below(6) {
                0 => facets.push(("length", z.to_string())),
                1 => facets.push(("minLength", a.to_string())),
                2 => facets.push(("maxLength", z.to_string())),
                3 | 4 => facets.extend([("minLength", a.to_string()), ("maxLength", z.to_string())]),
                _ => (),
            }
            for f in &mut facets {
                if s.chance(1, 10) {
                    f.1 = format!("{}{}", s.pick(&["+", "0", "000"]), f.1);
                }
            }
            if s.chance(1, 4) {
                facets.push(("pattern", s.pick(&["[a-z]+", "x", "\\c*", "\"q\"", ".{2}", "{}", "{name}"]).to_string()));
            }
            if s.chance(1, 6) && !matches!(BASES[base].0, "language" | "Name") {
                facets.push(("whiteSpace", "collapse".into()));
            }
            if b == Base::Text && s.chance(1, 8) {
                facets.push(("enumeration", "a b".into()));
                facets.push(("enumeration", "c.d".into()));
            }
        }
        Base::Other => {
            facets.push(("pattern", s.pick(&["[a-z]+", "x", "1"]).to_string()));
            if s.flip() {
                facets.push(("whiteSpace", "collapse".into()));
            }
        }
    }
    s.shuffle(&mut facets);
    let pads = facets.iter().map(|f| if (BOUNDS.contains(&f.0) || LENGTHS.contains(&f.0)) && s.chance(1, 12) { *s.pick(&[(" ", ""), ("", " "), ("\n  ", "\t"), ("  ", "  ")]) } else { ("", "") }).collect();
    Wrapper { pads, name: format!("W{}q", ["A", "B", "C", "D", "E", "F", "G", "H"][i]), base, facets, place: s.below(3), doc: s.chance(1, 6) }
}

fn schema(ws: &[Wrapper], xsd: &str) -> String {
    let el = |n: &str| X::new(format!("{}:{}", xsd, n));
    let mut root = el("schema");
    root.ns(Some(xsd), "http://www.w3.org/2001/XMLSchema");
    root.ns(Some("t"), "urn:t");
    root.attr("targetNamespace", "urn:t");
    for w in ws {
        let mut st = el("simpleType");
        if w.place == 0 {
            st.attr("name", &w.name);
        }
        if w.doc {
            let (mut a, mut d) = (el("annotation"), el("documentation"));
            d.kids.push(K::T("minInclusive 5".into()));
            a.kids.push(K::E(d));
            st.kids.push(K::E(a));
        }
        let mut r = el("restriction");
        r.attr("base", &format!("{}:{}", xsd, BASES[w.base].0));
        for ((f, v), (a, z)) in w.facets.iter().zip(&w.pads) {
            let mut x = el(f);
            x.attr("value", &format!("{}{}{}", a, v, z));
            if w.doc {
                let (mut a, mut d) = (el("annotation"), el("documentation"));
                d.kids.push(K::T("about the facet".into()));
                a.kids.push(K::E(d));
                x.kids.push(K::E(a));
            }
            r.kids.push(K::E(x));
        }
        st.kids.push(K::E(r));
        root.kids.push(K::E(match w.place {
            0 => st,
            1 => {
                let mut e = el("element");
                e.attr("name", &w.name);
                e.kids.push(K::E(st));
                e
            }
            _ => {
                let (mut t, mut q, mut e) = (el("complexType"), el("sequence"), el("element"));
                t.attr("name", &format!("Holder{}", w.name));
                e.attr("name", &w.name);
                e.kids.push(K::E(st));
                q.kids.push(K::E(e));
                t.kids.push(K::E(q));
                t
            }
        }));
    }
    root.plain()
}

pub struct Case {
    xml: String,
    wrappers: Vec<Wrapper>,
    unit: Unit,
}

/// The wrapper's name, or that of an inline type made of it.
fn named(def: &str, w: &str) -> bool {
    let (d, w) = (squash(def), squash(w));
    d == w || d == w.clone() + "type"
}

fn case_of(tape: &[u32]) -> (String, Result<Case, String>) {
    let mut s = Src::new(tape);
    let n = 1 + s.below(8);
    let ws: Vec<Wrapper> = (0..n).map(|i| wrapper(&mut s, i)).collect();
    build_case(ws)
}

fn build_case(ws: Vec<Wrapper>) -> (String, Result<Case, String>) {
    let xml = schema(&ws, "xs");
    let go = || -> Result<Case, String> {
        let text = guard(|| generate(&xml)).and_then(|r| r)?;
        let code = ast::read(&text)?;
        let mut roots = vec![];
        for w in &ws {
            let hits: Vec<usize> = (0..code.defs.len()).filter(|d| code.defs[*d].kind == Kind::Tuple && named(&code.defs[*d].name, &w.name)).collect();
            let [h] = hits[..] else { return Err(format!("{} wrappers for {:?} in\n{}", hits.len(), w.name, text)) };
            roots.push(format!("validate::<{}>", code.path(h).replacen("crate::", "code::", 1)));
        }
        Ok(Case { xml: xml.clone(), unit: Unit { code: text.clone(), glue: glue(&code), roots }, wrappers: ws })
    };
    let r = go();
    (xml, r)
}

/// A value at or near a limit: its token form and its facts.
fn value(s: &mut Src, w: &Wrapper) -> Vec<String> {
    let b = BASES[w.base].1;
    match b {
        Base::Int(..) | Base::Dec | Base::Float => {
            let lims: Vec<&String> = w.facets.iter().filter(|f| BOUNDS.contains(&f.0)).map(|f| &f.1).collect();
            if lims.is_empty() || s.chance(1, 4) {
                return vec![number(s, b)];
            }
            let l = (*s.pick(&lims)).clone();
            vec![match b {
                Base::Int(lo, hi) => match l.parse::<i128>() {
                    Ok(v) => (v + s.range(-2, 2) as i128).clamp(lo.unwrap_or(i128::MIN), hi.unwrap_or(i128::MAX)).to_string(),
                    Err(_) => {
                        // one digit more, less or other
                        let mut t = l.clone();
                        match s.below(3) {
                            0 => (),
                            1 => t.push('0'),
                            _ => {
                                let last = t.pop().unwrap();
                                t.push(if last == '5' { '6' } else { '5' });
                            }
                        }
                        t
                    }
                },
                Base::Dec => {
                    let t = l.clone();
                    let dot = t.contains('.');
                    match s.below(5) {
                        0 => t,
                        1 => format!("{}{}", t, if dot { "0" } else { ".0" }),
                        2 => format!("{}{}1", t, if dot { "" } else { "." }) ,
                        3 => format!("{}{}00000000000000000000000001", t, if dot { "" } else { "." }),
                        _ => {
                            // the last digit is one less or more
                            let mut c: Vec<char> = t.chars().collect();
                            for x in c.iter_mut().rev() {
                                if let Some(d) = x.to_digit(10) {
                                    let d = if d > 0 && s.flip() { d - 1 } else if d < 9 { d + 1 } else { 8 };
                                    *x = (b'0' + d as u8) as char;
                                    break;
                                }
                            }
                            c.into_iter().collect()
                        }
                    }
                }
                _ => {
                    let x: f64 = l.parse().unwrap();
                    let near = |x: f64, up: bool| -> f64 {
                        if x.is_infinite() {
                            return if up == (x > 0.0) { x } else { f64::MAX.copysign(x) };
                        }
                        if x == 0.0 {
                            return if up { 5e-324 } else { -5e-324 };
                        }
                        let bits = x.to_bits();
                        f64::from_bits(if up == (x > 0.0) { bits + 1 } else { bits - 1 })
                    };
                    let v = match s.below(4) {
                        0 => x,
                        1 => near(x, true),
                        2 => near(x, false),
                        _ => -x,
                    };
                    float_text(s, v)
                }
            }]
        }
        Base::Text | Base::List => {
            let lims: Vec<usize> = w.facets.iter().filter(|f| LENGTHS.contains(&f.0)).filter_map(|f| f.1.parse::<u64>().ok()).map(|n| n.min(70000) as usize).collect();
            let n = if lims.is_empty() || s.chance(1, 4) {
                s.below(8)
            } else {
                let l = *s.pick(&lims);
                (l as i64 + s.range(-2, 2)).max(0) as usize
            };
            let unit = *s.pick(&["a", "b", "z", "-", "é", "日", " "]);
            if b == Base::Text {
                let k = s.below(n + 1);
                // mostly one character, some other ones at an end
                vec![(0..n).map(|i| if i < k || !unit.is_ascii() && i + 1 < n { "x" } else { unit }).collect()]
            } else {
                let mut v = vec![n.to_string()];
                v.extend((0..n).map(|i| if i == 0 { "long-item".to_string() } else { "i".to_string() }));
                v
            }
        }
        Base::Other => vec![match BASES[w.base].0 {
            "boolean" => s.pick(&["true", "false"]).to_string(),
            "date" => s.pick(&["2020-02-29", "1999-12-31Z"]).to_string(),
            "gYear" => s.pick(&["2020", "1999Z"]).to_string(),
            "duration" => s.pick(&["P1D", "PT0S"]).to_string(),
            _ => s.pick(&["00", "", "ABCDEF"]).to_string(),
        }],
    }
}

/// Whether the value satisfies the facets; None where that is not judged.
fn verdict(w: &Wrapper, v: &[String]) -> Option<bool> {
    let b = BASES[w.base].1;
    let mut ok = true;
    for (f, l) in &w.facets {
        if BOUNDS.contains(f) {
            let o = match b {
                Base::Float => v[0].parse::<f64>().ok()?.partial_cmp(&l.parse::<f64>().ok()?)?,
                _ => order(&v[0], l)?,
            };
            ok &= match *f {
                "minInclusive" => o != Ordering::Less,
                "minExclusive" => o == Ordering::Greater,
                "maxInclusive" => o != Ordering::Greater,
                _ => o == Ordering::Less,
            };
        } else if LENGTHS.contains(f) {
            let l: u128 = l.parse().ok()?;
            let test = |n: usize| match *f {
                "length" => n as u128 == l,
                "minLength" => n as u128 >= l,
                _ => n as u128 <= l,
            };
            if b == Base::List {
                ok &= test(v[0].parse().ok()?);
            } else {
                // lengths of other than ASCII text: a known finding
                let (c, y) = (test(v[0].chars().count()), test(v[0].len()));
                if c != y {
                    return None;
                }
                ok &= c;
            }
        }
    }
    Some(ok)
}

fn describe(w: &Wrapper) -> String {
    format!("{} base={} {}", ["type", "element", "inline"][w.place], BASES[w.base].0, w.facets.iter().map(|(f, v)| format!("{}={:?}", f, v)).collect::<Vec<_>>().join(" "))
}

fn one(c: &Case, unit: usize, pool: &Pool, s: &mut Src, x: &mut Ctx) -> Result<(), String> {
    let k = s.below(c.wrappers.len());
    let w = &c.wrappers[k];
    let v = value(s, w);
    x.desc(format!("{}\nvalue {:?}", describe(w), if v.len() == 1 { clip(&v[0], 300) } else { format!("{} items", v[0]) }));
    let Some(want) = verdict(w, &v) else {
        x.exclude();
        return Ok(());
    };
    if pool.tired() {
        x.exclude();
        return Ok(());
    }
    let judged = w.facets.iter().any(|f| BOUNDS.contains(&f.0) || LENGTHS.contains(&f.0));
    x.key((describe(w), &v));
    x.nontrivial(judged);
    x.label(if want { "valid" } else { "invalid" });
    for f in &w.facets {
        x.label(f.0);
    }
    let got = pool.ask(unit, k, &v).map_err(|e| format!("validating {:?} of {}: {}", clip(&v.join(" "), 200), describe(w), e))?;
    let want = if want { "valid" } else { "invalid" };
    if got != want {
        return Err(format!("{:?} of {} is {}, not {}", clip(&v.join(" "), 200), describe(w), got, want));
    }
    Ok(())
}

fn pair(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut t = vec![a.len() as u32];
    t.extend(a);
    t.extend(b);
    t
}

/// Exact inputs of listed findings: wrapper, value, what the facets say.
fn findings() -> Vec<(Wrapper, Vec<String>, bool, &'static str, &'static str)> {
    let w = |name: &str, base: &str, facets: &[(&'static str, &str)]| Wrapper {
        name: name.into(),
        base: BASES.iter().position(|b| b.0 == base).unwrap(),
        facets: facets.iter().map(|f| (f.0, f.1.to_string())).collect(),
        pads: facets.iter().map(|_| ("", "")).collect(),
        place: 0,
        doc: false,
    };
    vec![
        (w("WBytes", "string", &[("length", "1")]), vec!["é".into()], true, "length-bytes", "length facets count bytes: string of length 1 refuses \"é\""),
        (w("WNan", "double", &[("maxInclusive", "5")]), vec!["NaN".into()], false, "nan-bounds", "bounds accept NaN: double of maxInclusive 5 accepts NaN"),
    ]
}

pub fn run(c: &mut Check) {
    c.rule = "a value checked by a wrapper with a bound or length facet, distinct by facets and value".into();
    c.max_shrink = 3000;
    c.assumptions = vec![
        "lengths of text other than ASCII are judged only where bytes and characters agree (known finding)".into(),
        "NaN is not generated against bounds (known finding); limits, apart from blanks around them, are in the value space of their base".into(),
    ];
    if c.is_replay() {
        c.prop("pair", 0, 0, &|s, x| {
            let n = s.raw() as usize;
            let a: Vec<u32> = (0..n.min(s.left())).map(|_| s.raw()).collect();
            let (xml, case) = case_of(&a);
            x.desc(xml);
            let case = case?;
            let (p, bad) = build(&[Some(&case.unit)], true)?;
            if let Some(e) = bad.get(&0) {
                return Err(format!("the code does not compile: {}", e));
            }
            let pool = Pool::new(&p);
            one(&case, 0, &pool, s, x)
        });
        c.prop("schema", 0, 0, &|s, x| {
            let a: Vec<u32> = (0..s.left()).map(|_| s.raw()).collect();
            let (xml, case) = case_of(&a);
            x.desc(xml);
            case.map(|_| ())
        });
        return;
    }
    let n = c.scale(320, 1600) as usize;
    let batches = if c.thorough() { 3 } else { 1 };
    for batch in 0..batches {
        let name = format!("values{}", if batch == 0 { String::new() } else { format!("-{}", batch + 1) });
        let tapes = tapes("G14", c.seed + 1000 * batch, n, 160);
        let mut units: Vec<(Vec<u32>, Case)> = vec![];
        for t in tapes {
            watch::note(8, units.len() as u64 * 2 + 1, true, "schema", &t);
            let (xml, case) = case_of(&t);
            watch::note(8, units.len() as u64 * 2 + 2, false, "schema", &[]);
            match case {
                Ok(case) => units.push((t, case)),
                Err(m) => {
                    let mut best = (t, m, xml);
                    while let Some(b) = smaller(&best.0).into_iter().find_map(|t| match case_of(&t) {
                        (xml, Err(m)) if xml.len() < best.2.len() => Some((t, m, xml)),
                        _ => None,
                    }) {
                        best = b;
                    }
                    return c.violate(Violation { sub: "schema".into(), message: best.1, case: best.2, tape: best.0 });
                }
            }
        }
        units.sort_by_key(|u| u.1.unit.code.len());
        let special: Vec<Case> = if batch == 0 { findings().into_iter().filter_map(|f| build_case(vec![f.0]).1.ok()).collect() } else { vec![] };
        let refs: Vec<Option<&Unit>> = units.iter().map(|u| Some(&u.1.unit)).chain(special.iter().map(|k| Some(&k.unit))).collect();
        let (programs, mut bad) = match build(&refs, true) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(3)
            }
        };
        bad.retain(|i, _| *i < units.len());
        if let Some((i, e)) = bad.first_key_value() {
            return c.violate(Violation { sub: "pair".into(), message: format!("the code does not compile: {}", e), case: units[*i].1.xml.clone(), tape: pair(&units[*i].0, &[]) });
        }
        let pool = Pool::new(&programs);
        if special.len() == findings().len() {
            for (i, (_, v, want, key, what)) in findings().into_iter().enumerate() {
                let got = pool.ask(units.len() + i, 0, &v);
                c.finding(key, what, got.as_deref() != Ok(if want { "valid" } else { "invalid" }));
            }
        }
        c.prop(&name, c.scale(160000, 1500000), 120, &|s, x| {
            let u = s.below(units.len());
            one(&units[u].1, u, &pool, s, x)
        });
        for mut v in c.take_violations() {
            if v.sub == name {
                let mut s = Src::new(&v.tape);
                let u = s.below(units.len());
                v.case = format!("{}\n{}", v.case, units[u].1.xml);
                v.tape = pair(&units[u].0, v.tape.get(1..).unwrap_or(&[]));
                v.sub = "pair".into();
            }
            c.violate(v);
        }
        if c.failed() {
            return;
        }
    }
}
