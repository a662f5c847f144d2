//! T09: runtime values, wrappers, lists and unions inside XML documents.
use crate::gens::*;
use crate::macros::*;
use crate::numeric::SEEDS;
use std::fmt::Debug;
use std::str::FromStr;
use vp_common::*;
use xsd_types::types as xs;
use yaserde_derive::{YaDeserialize, YaSerialize};

pub trait Cell: Debug + PartialEq + Sized {
    /// A union value may print a text that an earlier member takes.
    const UNION: bool;
    const SEED: &'static [&'static str];
    fn read(t: &str) -> Option<Self>;
    fn printed(&self) -> String;
}

macro_rules! cell {
    ($($ty:ty = $seed:expr;)+) => { $(
        impl Cell for $ty {
            const UNION: bool = false;
            const SEED: &'static [&'static str] = &$seed;
            fn read(t: &str) -> Option<Self> { <$ty as FromStr>::from_str(t).ok() }
            fn printed(&self) -> String { self.to_string() }
        }
    )+ };
}
macro_rules! ucell {
    ($($ty:ident = $seed:expr;)+) => { $(
        impl Cell for $ty {
            const UNION: bool = true;
            const SEED: &'static [&'static str] = &$seed;
            fn read(t: &str) -> Option<Self> {
                let i = <$ty as Union>::readers().iter().position(|r| r(t).is_some())?;
                <$ty as Union>::build(i, t)
            }
            fn printed(&self) -> String { self.held().2 }
        }
    )+ };
}
cell! {
    xs::Date = ["2024-02-29", "1999-12-31Z", "0001-01-01-05:30", "9999-12-31+14:00"];
    xs::Time = ["00:00:00", "23:59:59Z", "12:34:56-05:30", "01:02:03+14:00"];
    xs::DateTime = ["2024-02-29T12:34:56Z", "1999-12-31T23:59:59.5-05:30", "2000-01-01T00:00:00"];
    xs::DateTimeStamp = ["2024-02-29T12:34:56Z", "1999-12-31T23:59:59.5-05:30"];
    xs::Duration = ["P1Y2M3DT4H5M6S", "-P1D", "PT0.5S", "P30D"];
    xs::GDay = ["---01", "---31Z", "---15-05:30"];
    xs::GMonth = ["--01", "--12Z", "--06-05:30"];
    xs::GMonthDay = ["--02-29", "--12-31Z", "--01-01-05:30"];
    xs::GYear = ["2024", "-0044Z", "12345+05:30"];
    xs::GYearMonth = ["2024-02", "-0044-12Z", "12345-01+05:30"];
    xs::Integer = ["0", "-12345678901234567890123", "77"];
    xs::PositiveInteger = ["1", "12345678901234567890123"];
    xs::NegativeInteger = ["-1", "-12345678901234567890123"];
    xs::NonNegativeInteger = ["0", "12345678901234567890123"];
    xs::NonPositiveInteger = ["0", "-12345678901234567890123"];
    xs::Decimal = ["0", "-1.5", "123456789012345678901234567890.125"];
    WString = ["a", "", "x & y", "<tag/>", "two words", "日本", "\"q\" 'r'"];
    WBool = ["true", "false"];
    WI8 = ["-128", "127"];
    WU64 = ["18446744073709551615", "0"];
    WF64 = ["1.5", "-2e10", "0"];
    WwDate = ["2024-02-29", "1999-12-31Z"];
    WGYear = ["2024", "-0044Z"];
    WDecimal = ["0.25", "-7"];
    LI32 = ["", "1", "1 -2 3"];
    LString = ["", "a", "a b &lt; c"];
    LDate = ["2024-02-29 1999-12-31Z", ""];
}
ucell! {
    UA = ["1", "true", "word"];
    UD = ["2024-02-29", "2024", "P1D", "12:00:00"];
    UJ = ["1.5", "text"];
    UL = ["5", "-5", "70000", "-70000"];
}

pub struct Model<T> {
    one: T,
    opt: Option<T>,
    many: Vec<T>,
    tail: WString,
}

pub trait Doc: yaserde::YaSerialize + yaserde::YaDeserialize + Debug + PartialEq {
    type C: Cell;
    const NAME: &'static str;
    const PREFIX: &'static str;
    fn make(m: Model<Self::C>) -> Self;
    fn cells(&self) -> Vec<(&'static str, String)>;
    fn one(&self) -> &Self::C;
}

macro_rules! doc {
    ($($name:ident($($ty:tt)+);)+) => { $(
        #[derive(Default, PartialEq, Debug, YaSerialize, YaDeserialize)]
        #[yaserde()]
        pub struct $name {
            #[yaserde(rename = "one")]
            pub one: $($ty)+,
            #[yaserde(rename = "opt-Value")]
            pub opt_value: Option<$($ty)+>,
            #[yaserde(rename = "Many")]
            pub many: Vec<$($ty)+>,
            #[yaserde(rename = "tail")]
            pub tail: WString,
        }
        doc_impl!($name($($ty)+) "");
    )+ };
}
macro_rules! pdoc {
    ($($name:ident($($ty:tt)+);)+) => { $(
        #[derive(Default, PartialEq, Debug, YaSerialize, YaDeserialize)]
        #[yaserde(prefix = "p", namespace = "p: urn:p")]
        pub struct $name {
            #[yaserde(prefix = "p", rename = "one")]
            pub one: $($ty)+,
            #[yaserde(prefix = "p", rename = "opt-Value")]
            pub opt_value: Option<$($ty)+>,
            #[yaserde(prefix = "p", rename = "Many")]
            pub many: Vec<$($ty)+>,
            #[yaserde(prefix = "p", rename = "tail")]
            pub tail: WString,
        }
        doc_impl!($name($($ty)+) "p:");
    )+ };
}
macro_rules! doc_impl {
    ($name:ident($ty:ty) $p:expr) => {
        impl Doc for $name {
            type C = $ty;
            const NAME: &'static str = stringify!($name);
            const PREFIX: &'static str = $p;
            fn make(m: Model<$ty>) -> Self {
                $name { one: m.one, opt_value: m.opt, many: m.many, tail: m.tail }
            }
            fn cells(&self) -> Vec<(&'static str, String)> {
                let mut v = vec![("one", self.one.printed())];
                if let Some(o) = &self.opt_value { v.push(("opt-Value", o.printed())); }
                v.extend(self.many.iter().map(|m| ("Many", m.printed())));
                v.push(("tail", self.tail.to_string()));
                v
            }
            fn one(&self) -> &$ty { &self.one }
        }
    };
}
doc! {
    DDate(xs::Date); DTime(xs::Time); DDateTime(xs::DateTime); DStamp(xs::DateTimeStamp); DDuration(xs::Duration);
    DGDay(xs::GDay); DGMonth(xs::GMonth); DGMonthDay(xs::GMonthDay); DGYear(xs::GYear); DGYearMonth(xs::GYearMonth);
    DInteger(xs::Integer); DPositive(xs::PositiveInteger); DNegative(xs::NegativeInteger);
    DNonNegative(xs::NonNegativeInteger); DNonPositive(xs::NonPositiveInteger); DDecimal(xs::Decimal);
    DWString(WString); DWBool(WBool); DWI8(WI8); DWwDate(WwDate);
    DLI32(LI32); DLDate(LDate); DUA(UA); DUD(UD);
}
pdoc! {
    PDate(xs::Date); PDecimal(xs::Decimal); PWU64(WU64); PWF64(WF64); PWGYear(WGYear); PWDecimal(WDecimal);
    PLString(LString); PUJ(UJ); PUL(UL); PDuration(xs::Duration);
}

fn finite(t: &str) -> bool {
    !matches!(t.to_ascii_lowercase().trim_start_matches(['+', '-']), "nan" | "inf" | "infinity")
}

fn text_for<T: Cell>(s: &mut Src, dict: &Dict) -> String {
    for _ in 0..3 {
        let mut t = match s.below(4) {
            0 => token(s, dict),
            1 => {
                let b = *s.pick(T::SEED);
                mutate(s, b)
            }
            _ => s.pick(T::SEED).to_string(),
        };
        t.retain(xml_ok);
        let t = xtrim(&t).to_string();
        // the XML writer below the code under test does not escape "]]>"
        if finite(&t) && !t.contains("]]>") && !t.split(' ').any(crate::reference::lenient) {
            if let Some(v) = T::read(&t) {
                if !T::UNION || T::read(&v.printed()).as_ref() == Some(&v) {
                    return t;
                }
            }
        }
    }
    T::SEED[0].to_string()
}

fn word(s: &mut Src) -> String {
    s.pick(&["", "z", "end & tail", "a  b", "日本", "<x>"]).to_string()
}

/// Elements of an XML document below the root: (local name, namespace, text).
fn elements(doc: &str) -> Result<Vec<(String, Option<String>, String)>, String> {
    use xml::reader::{EventReader, XmlEvent};
    let mut v = vec![];
    let mut depth = 0;
    let mut text = String::new();
    for e in EventReader::new(doc.as_bytes()) {
        match e.map_err(|e| format!("output is not well-formed XML: {} in {:?}", e, doc))? {
            XmlEvent::StartElement { name, .. } => {
                depth += 1;
                if depth > 2 {
                    return Err(format!("value written as nested elements in {:?}", doc));
                }
                text.clear();
                if depth == 2 {
                    v.push((name.local_name, name.namespace, String::new()));
                }
            }
            XmlEvent::EndElement { .. } => {
                if depth == 2 {
                    v.last_mut().unwrap().2 = std::mem::take(&mut text);
                }
                depth -= 1;
            }
            XmlEvent::Characters(t) | XmlEvent::CData(t) | XmlEvent::Whitespace(t) => text.push_str(&t),
            _ => {}
        }
    }
    Ok(v)
}

fn build<D: Doc>(texts: &[(usize, String)]) -> Option<D> {
    let (mut one, mut opt, mut many, mut tail) = (None, None, vec![], WString(String::new()));
    for (k, t) in texts {
        match k {
            0 => one = Some(D::C::read(t)?),
            1 => opt = Some(D::C::read(t)?),
            2 => many.push(D::C::read(t)?),
            _ => tail = WString(t.clone()),
        }
    }
    Some(D::make(Model { one: one?, opt, many, tail }))
}

fn cells(s: &mut Src, dict: &Dict, f: impl Fn(&mut Src, &Dict) -> String) -> Vec<(usize, String)> {
    let mut v = vec![(0, f(s, dict))];
    if s.flip() {
        v.push((1, f(s, dict)));
    }
    for _ in 0..s.count(3) {
        v.push((2, f(s, dict)));
    }
    v.push((3, word(s)));
    v
}

fn judge_write<D: Doc>(s: &mut Src, x: &mut Ctx, dict: &Dict) -> Result<(), String> {
    let texts = cells(s, dict, text_for::<D::C>);
    let v: D = build(&texts).ok_or("harness: seed text refused")?;
    x.desc(format!("{} {:?}", D::NAME, texts));
    x.nontrivial(texts.len() > 2);
    let out = guard(|| yaserde::ser::to_string(&v))?.map_err(|e| format!("writing {:?} failed: {}", v, e))?;
    let ns = if D::PREFIX.is_empty() { None } else { Some("urn:p".to_string()) };
    let want: Vec<_> = v.cells().into_iter().map(|(n, t)| (n.to_string(), ns.clone(), t)).collect();
    let got = elements(&out)?;
    if got != want {
        return Err(format!("{:?} is written as {:?}, expected elements {:?}", v, got, want));
    }
    let back: D = guard(|| yaserde::de::from_str::<D>(&out))?.map_err(|e| format!("reading back {:?} failed: {}", out, e))?;
    if back != v || format!("{:?}", back) != format!("{:?}", v) {
        return Err(format!("{:?} written as {:?} reads back as {:?}", v, out, back));
    }
    Ok(())
}

fn char_ref(s: &mut Src, c: char) -> String {
    if s.flip() {
        format!("&#{};", c as u32)
    } else {
        format!("&#x{:X};", c as u32)
    }
}

/// One of the spellings XML has for a text.
fn spell(s: &mut Src, t: &str) -> String {
    match s.below(6) {
        0 | 1 => esc(t),
        2 => {
            // whole text as CDATA
            if t.contains("]]>") || t.is_empty() {
                esc(t)
            } else {
                format!("<![CDATA[{}]]>", t)
            }
        }
        3 => {
            let k = 1 + s.below(4);
            t.chars()
                .enumerate()
                .map(|(i, c)| if i % k == 0 && !c.is_whitespace() { char_ref(s, c) } else { esc(&c.to_string()) })
                .collect()
        }
        4 => {
            // a comment inside or around the text
            let c: Vec<char> = t.chars().collect();
            let i = s.below(c.len() + 1);
            let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
            let edge = |c: Option<&char>| c.map(|c| !c.is_whitespace()).unwrap_or(true);
            if edge(i.checked_sub(1).and_then(|i| c.get(i))) && edge(c.get(i)) {
                format!("{}{}{}", esc(&a), s.pick(&["<!-- 7 -->", "<!---->"]), esc(&b))
            } else {
                esc(t)
            }
        }
        _ => t.chars().map(|c| match c {
            '"' => "&quot;".into(),
            '\'' => "&apos;".into(),
            c => esc(&c.to_string()),
        }).collect(),
    }
}

const PADS: &[&str] = &["", "", " ", "\n    ", "\t", "\n", "  \n\t "];
const GAPS: &[&str] = &["", "\n", "\n  ", "<!-- note <one>9</one> -->", "\n<?pi x?>\n", " "];

fn render<D: Doc>(s: &mut Src, texts: &[(usize, String)]) -> String {
    let p = match D::PREFIX {
        "" => "".to_string(),
        _ => s.pick(&["p:", "p:", "q:", ""]).to_string(),
    };
    let decl = match (D::PREFIX, p.as_str()) {
        ("", _) => String::new(),
        (_, "") => " xmlns=\"urn:p\"".into(),
        (_, p) => format!(" xmlns:{}=\"urn:p\"", p.trim_end_matches(':')),
    };
    let mut o = s.pick(&["", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n", "<!-- head -->\n"]).to_string();
    o.push_str(&format!("<{}{}{}>", p, D::NAME, decl));
    for (k, t) in texts {
        o.push_str(s.pick(GAPS));
        let n = ["one", "opt-Value", "Many", "tail"][*k];
        if t.is_empty() && s.flip() {
            o.push_str(&format!("<{}{}/>", p, n));
        } else {
            let body = spell(s, t);
            o.push_str(&format!("<{}{}>{}{}{}</{}{}>", p, n, s.pick(PADS), body, s.pick(PADS), p, n));
        }
    }
    o.push_str(s.pick(GAPS));
    o.push_str(&format!("</{}{}>", p, D::NAME));
    o
}

fn judge_read<D: Doc>(s: &mut Src, x: &mut Ctx, dict: &Dict) -> Result<(), String> {
    let mut texts = cells(s, dict, text_for::<D::C>);
    if s.flip() {
        // element order across fields is free; order within one field is kept
        s.shuffle(&mut texts);
    }
    let want: D = build(&texts).ok_or("harness: seed text refused")?;
    let doc = render::<D>(s, &texts);
    x.desc(doc.clone());
    x.nontrivial(texts.len() > 2);
    let got = guard(|| yaserde::de::from_str::<D>(&doc))?.map_err(|e| format!("reading {:?} failed: {}", doc, e))?;
    if got != want || format!("{:?}", got) != format!("{:?}", want) {
        return Err(format!("{:?} reads as {:?}, expected {:?}", doc, got, want));
    }
    Ok(())
}

fn bad_text<T: Cell>(s: &mut Src, dict: &Dict) -> Option<String> {
    for _ in 0..6 {
        let b = *s.pick(T::SEED);
        let mut t = match s.below(6) {
            0 => s.pick(&SEEDS).to_string(),
            1 => token(s, dict),
            2 => s.pick(&["", "x", "é", "0", "--", "1 2", "INF", "2024-02-29junk"]).to_string(),
            _ => mutate(s, b),
        };
        t.retain(xml_ok);
        let t = xtrim(&t).to_string();
        if T::read(&t).is_none() {
            return Some(t);
        }
    }
    None
}

fn judge_bad<D: Doc>(s: &mut Src, x: &mut Ctx, dict: &Dict) -> Result<(), String> {
    let mut texts = cells(s, dict, text_for::<D::C>);
    let bad = match bad_text::<D::C>(s, dict) {
        Some(b) => b,
        None => return Ok(()),
    };
    let i = s.below(texts.len() - 1);
    texts[i].1 = bad.clone();
    let doc = render::<D>(s, &texts);
    x.desc(doc.clone());
    x.nontrivial(true);
    x.label(["single", "optional", "repeated"][texts[i].0]);
    match guard(|| yaserde::de::from_str::<D>(&doc))? {
        Err(_) => Ok(()),
        Ok(v) => Err(format!("{:?} holds the invalid text {:?} but reads as {:?}", doc, bad, v)),
    }
}

type J = fn(&mut Src, &mut Ctx, &Dict) -> Result<(), String>;
macro_rules! js { ($f:ident: $($d:ident)+) => { [$( $f::<$d> as J ),+] } }

pub fn t09(c: &mut Check) {
    c.rule = "34 document structures, each with a required, an optional and a repeated field of one runtime type, wrapper, list or union (with and without a namespace prefix), over generated values; layouts vary element order, padding, comments, CDATA, character references, processing instructions and prefixes; and documents with one invalid text in a required, optional or repeated field. Oracle: the cell type's own text reader/printer and an XML event reader. Non-trivial: at least three cells, or an invalid cell; distinct by document.".into();
    c.assumptions = vec!["Floats are finite; literal carriage returns are not generated; CDATA covers a whole text; no text holds the CDATA end marker, which the XML library's writer does not escape.".into()];
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    let w = js!(judge_write: DDate DTime DDateTime DStamp DDuration DGDay DGMonth DGMonthDay DGYear DGYearMonth DInteger
        DPositive DNegative DNonNegative DNonPositive DDecimal DWString DWBool DWI8 DWwDate DLI32 DLDate DUA DUD
        PDate PDecimal PWU64 PWF64 PWGYear PWDecimal PLString PUJ PUL PDuration);
    let r = js!(judge_read: DDate DTime DDateTime DStamp DDuration DGDay DGMonth DGMonthDay DGYear DGYearMonth DInteger
        DPositive DNegative DNonNegative DNonPositive DDecimal DWString DWBool DWI8 DWwDate DLI32 DLDate DUA DUD
        PDate PDecimal PWU64 PWF64 PWGYear PWDecimal PLString PUJ PUL PDuration);
    let b = js!(judge_bad: DDate DTime DDateTime DStamp DDuration DGDay DGMonth DGMonthDay DGYear DGYearMonth DInteger
        DPositive DNegative DNonNegative DNonPositive DDecimal DWBool DWI8 DWwDate
        PDate PDecimal PWU64 PWF64 PWGYear PWDecimal PDuration);
    c.prop("write", c.scale(960_000, 4_800_000), 60, &|s, x| {
        let f = *s.pick(&w);
        f(s, x, &dict)
    });
    c.prop("read", c.scale(1_280_000, 6_400_000), 90, &|s, x| {
        let f = *s.pick(&r);
        f(s, x, &dict)
    });
    c.prop("invalid", c.scale(960_000, 4_800_000), 90, &|s, x| {
        let f = *s.pick(&b);
        f(s, x, &dict)
    });
}
