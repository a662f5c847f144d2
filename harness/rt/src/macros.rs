//! M01, M02: derived wrappers, lists and unions against their content types.
use crate::gens::*;
use crate::numeric::SEEDS;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use vp_common::*;
use xsd_macro_utils::*;
use xsd_types::types as xs;

pub trait Wrap: FromStr + Display + Debug + Clone + PartialEq {
    type Inner: FromStr + Display + Debug + Clone + PartialEq;
    const NAME: &'static str;
    const STRING: bool;
    fn inner(&self) -> &Self::Inner;
    fn make(i: Self::Inner) -> Self;
}
pub trait List: FromStr + Display + Debug + Clone + PartialEq {
    type Item: FromStr + Display + Debug + Clone + PartialEq;
    const NAME: &'static str;
    fn items(&self) -> &Vec<Self::Item>;
    fn make(i: Vec<Self::Item>) -> Self;
}

macro_rules! wrap {
    ($($name:ident($($ty:tt)+) $string:expr;)+) => { $(
        #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
        pub struct $name(pub $($ty)+);
        impl Wrap for $name {
            type Inner = $($ty)+;
            const NAME: &'static str = stringify!($name);
            const STRING: bool = $string;
            fn inner(&self) -> &Self::Inner { &self.0 }
            fn make(i: Self::Inner) -> Self { $name(i) }
        }
    )+ };
}
macro_rules! list {
    ($($name:ident($($ty:tt)+);)+) => { $(
        #[derive(Default, Clone, PartialEq, Debug, UtilsTupleIo, UtilsDefaultSerde)]
        pub struct $name(pub Vec<$($ty)+>);
        impl List for $name {
            type Item = $($ty)+;
            const NAME: &'static str = stringify!($name);
            fn items(&self) -> &Vec<Self::Item> { &self.0 }
            fn make(i: Vec<Self::Item>) -> Self { $name(i) }
        }
    )+ };
}

wrap! {
    WString(String) true;
    WString2(std::string::String) true;
    WBool(bool) false;
    WI8(i8) false;
    WU8(u8) false;
    WI16(i16) false;
    WU16(u16) false;
    WI32(i32) false;
    WU32(u32) false;
    WI64(i64) false;
    WU64(u64) false;
    WF32(f32) false;
    WF64(f64) false;
    WDate(xs::Date) false;
    WTime(xs::Time) false;
    WDateTime(xs::DateTime) false;
    WDateTimeStamp(xs::DateTimeStamp) false;
    WDuration(xs::Duration) false;
    WGDay(xs::GDay) false;
    WGMonth(xs::GMonth) false;
    WGMonthDay(xs::GMonthDay) false;
    WGYear(xs::GYear) false;
    WGYearMonth(xs::GYearMonth) false;
    WInteger(xsd_types::types::Integer) false;
    WPositive(xs::PositiveInteger) false;
    WNegative(xs::NegativeInteger) false;
    WNonNegative(xs::NonNegativeInteger) false;
    WNonPositive(xs::NonPositiveInteger) false;
    WDecimal(xs::Decimal) false;
    WwString(WString) true;
    WwI32(WI32) false;
    WwDate(WDate) false;
    WwwI32(WwI32) false;
    WList(LI32) false;
    WListS(LString) false;
}
list! {
    LString(String);
    LBool(bool);
    LI8(i8);
    LU8(u8);
    LI16(i16);
    LU16(u16);
    LI32(i32);
    LU32(u32);
    LI64(i64);
    LU64(u64);
    LF32(f32);
    LF64(f64);
    LDate(xs::Date);
    LTime(xs::Time);
    LDuration(xs::Duration);
    LGYear(xs::GYear);
    LInteger(xs::Integer);
    LDecimal(xs::Decimal);
    LWString(WString);
    LWI32(WI32);
    LWwDate(WwDate);
}

/// Equality that also holds for NaN: Debug text and, unless NaN, PartialEq.
fn same<T: Debug + PartialEq>(a: &T, b: &T) -> bool {
    let d = format!("{:?}", a);
    d == format!("{:?}", b) && (a == b || d.contains("NaN"))
}

fn judge_wrap<W: Wrap>(t: &str) -> Result<bool, String> {
    let want = guard(|| t.parse::<W::Inner>().ok())?;
    let got = guard(|| t.parse::<W>().ok()).map_err(|e| format!("{} on {:?}: {}", W::NAME, t, e))?;
    match (want, got) {
        (None, None) => Ok(false),
        (Some(w), Some(g)) => {
            if !same(&w, g.inner()) {
                return Err(format!("{} {:?} holds {:?}, its content type reads {:?}", W::NAME, t, g.inner(), w));
            }
            if W::STRING && g.to_string() != t {
                return Err(format!("{} changed the string {:?} to {:?}", W::NAME, t, g.to_string()));
            }
            let (p, q) = (g.to_string(), w.to_string());
            if p != q {
                return Err(format!("{} prints {:?}, its content prints {:?}", W::NAME, p, q));
            }
            if W::make(w.clone()).to_string() != q {
                return Err(format!("{} built from {:?} prints {:?}", W::NAME, w, W::make(w.clone()).to_string()));
            }
            match guard(|| p.parse::<W>().ok())? {
                Some(b) if same(&b, &g) => Ok(true),
                o => Err(format!("{}: {:?} prints {:?}, which reads back as {:?}", W::NAME, g, p, o)),
            }
        }
        (w, g) => Err(format!("{} on {:?}: wrapper {:?}, content type {:?}", W::NAME, t, g, w)),
    }
}

fn judge_list<L: List>(t: &str) -> Result<usize, String> {
    // XML white space only; other Unicode blanks are not generated for lists.
    let want: Vec<L::Item> = t
        .split([' ', '\t', '\n', '\r'])
        .filter(|p| !p.is_empty())
        .filter_map(|p| p.parse::<L::Item>().ok())
        .collect();
    let got = match guard(|| t.parse::<L>().ok()).map_err(|e| format!("{} on {:?}: {}", L::NAME, t, e))? {
        Some(g) => g,
        None => return Err(format!("{} refused {:?}", L::NAME, t)),
    };
    if !same(got.items(), &want) {
        return Err(format!("{} {:?} holds {:?}, expected {:?}", L::NAME, t, got.items(), want));
    }
    let p = got.to_string();
    let q = want.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ");
    if p != q || L::make(want.clone()).to_string() != q {
        return Err(format!("{} prints {:?}, expected {:?}", L::NAME, p, q));
    }
    let b = p.parse::<L>().ok();
    if !b.as_ref().map(|b| same(b, &got)).unwrap_or(false) {
        return Err(format!("{}: {:?} prints {:?}, which reads back as {:?}", L::NAME, got, p, b));
    }
    Ok(want.len())
}

macro_rules! each_wrap { ($f:ident, $t:expr, $n:ident: $($ty:ident)+) => { $( if $f::<$ty>($t)? { $n += 1; } )+ } }
macro_rules! each_list { ($f:ident, $t:expr, $n:ident: $($ty:ident)+) => { $( $n += $f::<$ty>($t)?; )+ } }

fn all_wraps(t: &str) -> Result<usize, String> {
    let mut n = 0;
    if crate::reference::lenient(t) {
        return Ok(0);
    }
    each_wrap!(judge_wrap, t, n: WString WString2 WBool WI8 WU8 WI16 WU16 WI32 WU32 WI64 WU64 WF32 WF64 WDate WTime
        WDateTime WDateTimeStamp WDuration WGDay WGMonth WGMonthDay WGYear WGYearMonth WInteger WPositive WNegative
        WNonNegative WNonPositive WDecimal WwString WwI32 WwDate WwwI32);
    Ok(n)
}
fn all_lists(t: &str) -> Result<usize, String> {
    let mut n = 0;
    if t.split_whitespace().any(crate::reference::lenient) {
        return Ok(0);
    }
    each_list!(judge_list, t, n: LString LBool LI8 LU8 LI16 LU16 LI32 LU32 LI64 LU64 LF32 LF64 LDate LTime LDuration
        LGYear LInteger LDecimal LWString LWI32 LWwDate);
    let w: WList = t.parse().map_err(|e| format!("WList refused {:?}: {}", t, e))?;
    if w.0 != t.parse::<LI32>().unwrap() || w.to_string() != w.0.to_string() {
        return Err(format!("wrapper over a list differs from the list on {:?}", t));
    }
    let w: WListS = t.parse().map_err(|e| format!("WListS refused {:?}: {}", t, e))?;
    if w.0 != t.parse::<LString>().unwrap() || w.to_string() != w.0.to_string() {
        return Err(format!("wrapper over a list differs from the list on {:?}", t));
    }
    Ok(n)
}

/// One text token likely to be accepted by some content type.
pub fn token(s: &mut Src, dict: &Dict) -> String {
    match s.below(12) {
        0 => s.pick(&["true", "false", "1", "0", "TRUE", "True"]).to_string(),
        1 => {
            let v: i128 = (1i128 << *s.pick(&[7, 8, 15, 16, 31, 32, 63, 64])) + s.range(-2, 1) as i128;
            (if s.flip() { -v } else { v }).to_string()
        }
        2 => format!("{}{}", s.pick(&["", "-", "+"]), number(s, dict, 8)),
        3 => {
            let (a, b) = (number(s, dict, 4), number(s, dict, 4));
            format!("{}{}.{}{}", s.pick(&["", "-"]), a, b, s.pick(&["", "e3", "E-9", "e400"]))
        }
        4 => s.pick(&["NaN", "INF", "-INF", "inf", "-inf", "infinity", "nan", "-0", "-0.0", "1e39", "1e-50", "0.1", "3.4028236e38", "16777217", "9007199254740993"]).to_string(),
        5 | 6 => s.pick(&SEEDS).to_string(),
        7 => {
            let b = *s.pick(&SEEDS);
            mutate(s, b).replace(char::is_whitespace, "")
        }
        8 => s.pick(&["a", "hello", "x-y", "é", "日本", "&", "<", "\"", "'", "]]>", "%", "{}", "a_b"]).to_string(),
        _ => format!("{}", s.range(-1000, 1000)),
    }
}

const SEPS: &[&str] = &[" ", "  ", "\t", "\n", " \n\t ", "\r\n", "   "];

pub fn list_text(s: &mut Src, dict: &Dict) -> (String, usize) {
    let tail = size_tail(s, dict, 400, 2100);
    let n = s.count(6);
    let homog = s.flip();
    let mut t = String::new();
    if s.chance(1, 4) {
        t.push_str(s.pick(SEPS));
    }
    let kind = s.below(6);
    for i in 0..n {
        if i > 0 {
            t.push_str(s.pick(SEPS));
        }
        if homog && !s.chance(1, 8) {
            t.push_str(&match kind {
                0 => s.range(-300, 300).to_string(),
                1 => s.pick(&["true", "false"]).to_string(),
                2 => s.pick(&["2024-02-29", "0001-01-01Z", "1999-12-31-05:30"]).to_string(),
                3 => format!("{}.{}", s.range(-99, 99), s.below(100)),
                4 => s.pick(&["P1D", "-PT5S", "P1Y2M"]).to_string(),
                _ => s.pick(&["aa", "b", "é", "ccc"]).to_string(),
            });
        } else {
            t.push_str(&token(s, dict));
        }
    }
    if s.chance(1, 4) {
        t.push_str(s.pick(SEPS));
    }
    if let (Some(k), true) = (tail, n > 0) {
        // a long list: the same few items again and again
        let times = k.div_ceil(n);
        return (vec![t; times].join(s.pick(SEPS)), n * times);
    }
    (t, n)
}

fn clean(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace() || " \t\n\r".contains(*c)).collect()
}

pub fn m01(c: &mut Check) {
    c.rule = "33 derived wrappers (strings, booleans, every machine integer, floats, every runtime type, wrappers of wrappers and of lists) and 21 derived lists; texts are tokens valid for some content type, boundary numbers, near-valid edits, arbitrary strings with blanks, and token lists with every blank separator. Oracle: the content type's own reader and printer. Non-trivial: some non-string content type accepts the text (wrappers) or at least two items (lists); distinct by text.".into();
    c.assumptions = vec!["Date and time spellings outside the XSD forms (see T02, T03) are not judged.".into(), "List texts contain no blank other than XML white space.".into()];
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo()), &format!("{}/xsd-macro-utils/src", repo())]);
    let d1 = dict.clone();
    c.prop("wrappers", c.scale(1_600_000, 8_000_000), 40, &move |s, x| {
        let mut t = token(s, &d1);
        match s.below(8) {
            0 => t = format!("{}{}{}", s.pick(&[" ", "\n", "\t", "", "\u{a0}"]), t, s.pick(&[" ", "\n", "", "\u{2003}"])),
            1 => t = mutate(s, &t),
            2 => t = junk(s, 12),
            3 => t = list_text(s, &d1).0,
            _ => {}
        }
        x.desc(format!("{:?}", t));
        let n = all_wraps(&t)?;
        x.nontrivial(n > 3);
        x.label(format!("accepted by {} wrappers", if n > 12 { ">12".into() } else { n.to_string() }));
        Ok(())
    });
    c.prop("lists", c.scale(1_600_000, 8_000_000), 60, &move |s, x| {
        let (t, n) = list_text(s, &dict);
        let t = clean(&t);
        x.desc(format!("{:?}", t));
        all_lists(&t)?;
        x.nontrivial(n >= 2);
        x.label(if n > 6 { ">6 items".into() } else { format!("{} items", n) });
        Ok(())
    });
    c.case("long_lists", |x| {
        let mut n = 0;
        for k in [7usize, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4096, 5000, 10_000, 65_535, 65_536, 65_537] {
            for w in ["1", "true", "-7", "2024-02-29Z", "P1D", "0.5"] {
                let t = vec![w; k].join(" ");
                if k <= 1025 {
                    all_lists(&t)?;
                    n += 21;
                } else {
                    judge_list::<LString>(&t)?;
                    judge_list::<LI32>(&t)?;
                    judge_list::<LDecimal>(&t)?;
                    n += 3;
                }
            }
        }
        x.evals(n);
        x.nontrivial(true);
        x.desc("lists of 7 to 65537 equal items");
        Ok(())
    });
    c.case("machine_boundaries", |x| {
        let mut n = 0;
        for p in [7u32, 8, 15, 16, 31, 32, 63, 64] {
            for d in -3i128..=3 {
                for sg in [1i128, -1] {
                    let v = sg * (1i128 << p) + d;
                    for t in [v.to_string(), format!("+{}", v.abs()), format!("00{}", v.abs()), format!("{}.0", v)] {
                        all_wraps(&t)?;
                        all_lists(&format!("{} {}", t, t))?;
                        n += 2;
                    }
                }
            }
        }
        for t in ["", " ", "\n", "\t\r\n "] {
            all_wraps(t)?;
            all_lists(t)?;
        }
        x.evals(n);
        x.nontrivial(true);
        x.desc("2^k-3..2^k+3 for every machine width, with signs, zeros and a point");
        Ok(())
    });
}

// ---------------------------------------------------------------- unions

/// (variant index or None for unknown, Debug of content, printed content)
pub type Held = (Option<usize>, String, String);

pub trait Union: yaserde::YaSerialize + yaserde::YaDeserialize + Debug + PartialEq + std::str::FromStr {
    const NAME: &'static str;
    fn held(&self) -> Held;
    /// What each member's own reader makes of the text.
    fn readers() -> Vec<fn(&str) -> Option<(String, String)>>;
    fn build(i: usize, t: &str) -> Option<Self>
    where
        Self: Sized;
}

macro_rules! union {
    ($($name:ident { $($v:ident($($ty:tt)+)),+ })+) => { $(
        #[derive(PartialEq, Debug, UtilsUnionSerDe)]
        pub enum $name { $($v($($ty)+)),+, __Unknown__(String) }
        impl Default for $name { fn default() -> Self { Self::__Unknown__("No valid variants".into()) } }
        impl Union for $name {
            const NAME: &'static str = stringify!($name);
            fn held(&self) -> Held {
                #[allow(unused_mut)]
                let mut i = 0usize;
                $( if let $name::$v(x) = self { return (Some(i), format!("{:?}", x), x.to_string()); } i += 1; )+
                let _ = i;
                match self { $name::__Unknown__(x) => (None, format!("{:?}", x), x.clone()), _ => unreachable!() }
            }
            fn readers() -> Vec<fn(&str) -> Option<(String, String)>> {
                vec![$( |t| t.parse::<$($ty)+>().ok().map(|x| (format!("{:?}", x), x.to_string())) ),+]
            }
            fn build(i: usize, t: &str) -> Option<Self> {
                let mut k = 0;
                $( if k == i { return t.parse::<$($ty)+>().ok().map($name::$v); } k += 1; )+
                let _ = k;
                None
            }
        }
    )+ };
}

union! {
    UA { Int(i32), Bool(bool), Str(String) }
    UB { Str(String), Int(i32) }
    UC { Bool(bool), Small(i8), Wide(i64), Big(xs::Integer), Dec(xs::Decimal) }
    UD { Date(xs::Date), DateTime(xs::DateTime), Time(xs::Time), Year(xs::GYear), Ym(xs::GYearMonth), Dur(xs::Duration) }
    UE { W(WI32), Ww(WwDate), Ws(WU8), F(f64) }
    UF { Neg(xs::NegativeInteger), Pos(xs::PositiveInteger), Np(xs::NonPositiveInteger), Nn(xs::NonNegativeInteger) }
    UG { F(f32), I(i16), B(WBool) }
    UH { Only(u16) }
    UI { D(xs::GDay), M(xs::GMonth), Md(xs::GMonthDay), Stamp(xs::DateTimeStamp), Dt(xs::DateTime) }
    UJ { Dec(xs::Decimal), Big(xs::Integer), Wide(u64), S(WString) }
    UK { L(LI32), S(String) }
    UL { U(u8), Z(i8), Y(u32), X(u64), W(i64) }
}

/// Characters XML 1.0 allows, with carriage returns left out of literal text.
pub fn xml_ok(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

pub fn esc(t: &str) -> String {
    t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// XML white space trimmed at both ends.
pub fn xtrim(t: &str) -> &str {
    t.trim_matches([' ', '\t', '\n', '\r'])
}

/// Text content of the single element of a document, as an XML parser sees it.
pub fn root_text(doc: &str) -> Result<(String, String), String> {
    use xml::reader::{EventReader, XmlEvent};
    let mut name = None;
    let mut text = String::new();
    let mut open = 0;
    for e in EventReader::new(doc.as_bytes()) {
        match e.map_err(|e| format!("output is not well-formed XML: {} in {:?}", e, doc))? {
            XmlEvent::StartElement { name: n, .. } => {
                open += 1;
                if open > 1 {
                    return Err(format!("nested element in {:?}", doc));
                }
                name = Some(n.local_name);
            }
            XmlEvent::Characters(t) | XmlEvent::CData(t) | XmlEvent::Whitespace(t) => text.push_str(&t),
            _ => {}
        }
    }
    Ok((name.ok_or("no element")?, text))
}

fn judge_union<U: Union>(t: &str) -> Result<(Option<usize>, usize), String> {
    let doc = format!("<{}>{}</{}>", U::NAME, esc(t), U::NAME);
    let seen = xtrim(t);
    let mut want: Held = (None, format!("{:?}", seen), seen.to_string());
    let mut accepts = 0;
    for (i, r) in U::readers().iter().enumerate() {
        if let Some((d, p)) = r(seen) {
            if accepts == 0 {
                want = (Some(i), d, p);
            }
            accepts += 1;
        }
    }
    let got = guard(|| yaserde::de::from_str::<U>(&doc)).map_err(|e| format!("{} on {:?}: {}", U::NAME, t, e))?;
    let got = got.map_err(|e| format!("{}: reading {:?} failed: {}", U::NAME, t, e))?;
    if got.held() != want {
        return Err(format!("{} on {:?}: {:?}, expected {:?} (member index, value, printed)", U::NAME, t, got.held(), want));
    }
    judge_union_text::<U>(t)?;
    // the XML writer below the code under test does not escape "]]>"
    if want.0.is_some() && !want.2.contains("]]>") {
        write_union(&got)?;
    }
    Ok((want.0, accepts))
}

/// The same from a bare text, where every character counts.
fn judge_union_text<U: Union>(t: &str) -> Result<(), String> {
    let first = U::readers().iter().enumerate().find_map(|(i, r)| r(t).map(|(d, p)| (Some(i), d, p)));
    let got = guard(|| t.parse::<U>()).map_err(|e| format!("{} on the text {:?}: {}", U::NAME, t, e))?;
    match (first, got) {
        (Some(w), Ok(v)) if v.held() == w => Ok(()),
        (Some(w), Ok(v)) => Err(format!("{} on the text {:?}: {:?}, expected {:?}", U::NAME, t, v.held(), w)),
        (Some(w), Err(_)) => Err(format!("{} refuses the text {:?}, which is {:?}", U::NAME, t, w)),
        (None, Ok(v)) if v.held().0.is_some() => Err(format!("{} on the text {:?}: {:?}, which no member accepts", U::NAME, t, v.held())),
        (None, _) => Ok(()),
    }
}

/// A member value writes its own printed form and reads back to the first
/// member that accepts that form.
fn write_union<U: Union>(v: &U) -> Result<(), String> {
    let (i, dbg, printed) = v.held();
    let out = guard(|| yaserde::ser::to_string(v))?.map_err(|e| format!("{}: writing {:?} failed: {}", U::NAME, v, e))?;
    let (_, text) = root_text(&out)?;
    if text != printed {
        return Err(format!("{}: {:?} is written as {:?}, its content prints {:?}", U::NAME, v, text, printed));
    }
    let seen = xtrim(&printed);
    let first = U::readers().iter().position(|r| r(seen).is_some());
    let back = guard(|| yaserde::de::from_str::<U>(&out))?.map_err(|e| format!("{}: reading back {:?} failed: {}", U::NAME, out, e))?;
    if back.held().0 != first {
        return Err(format!("{}: {:?} written as {:?} reads back as {:?}", U::NAME, v, out, back));
    }
    if first == i && seen == printed && back.held().1 != dbg {
        return Err(format!("{}: {:?} written as {:?} reads back as {:?}", U::NAME, v, out, back));
    }
    Ok(())
}

macro_rules! each_union {
    ($t:expr, $hit:ident, $multi:ident: $($u:ident)+) => { $({
        let (h, n) = judge_union::<$u>($t)?;
        if h.is_some() { $hit += 1; }
        if n > 1 { $multi += 1; }
    })+ };
}

fn all_unions(t: &str) -> Result<(usize, usize), String> {
    if crate::reference::lenient(xtrim(t)) {
        return Ok((0, 0));
    }
    let (mut hit, mut multi) = (0, 0);
    each_union!(t, hit, multi: UA UB UC UD UE UF UG UH UI UJ UK UL);
    Ok((hit, multi))
}

fn build_unions(s: &mut Src, t: &str) -> Result<usize, String> {
    let mut n = 0;
    macro_rules! b { ($($u:ident)+) => { $(
        let k = U::len::<$u>();
        let i = s.below(k);
        if let Some(v) = <$u as Union>::build(i, t) {
            if v.held().0 != Some(i) { return Err(format!("harness: {} built as {:?}", stringify!($u), v)); }
            write_union(&v)?;
            n += 1;
        }
    )+ } }
    struct U;
    impl U {
        fn len<T: Union>() -> usize {
            T::readers().len()
        }
    }
    b!(UA UB UC UD UE UF UG UI UJ UL);
    Ok(n)
}

fn xml_text(s: &mut Src, dict: &Dict) -> String {
    let mut t = token(s, dict);
    match s.below(10) {
        0 => t = format!("{}{}{}", s.pick(&[" ", "\n  ", "\t", "", "\u{a0}", "\u{2003}", "\u{85}"]), t, s.pick(&[" ", "\n", "", "\u{a0}", "\u{3000}"])),
        1 | 2 => t = mutate(s, &t),
        3 => t = junk(s, 12),
        4 => t = list_text(s, dict).0,
        _ => {}
    }
    t.chars().filter(|c| xml_ok(*c)).collect()
}

pub fn m02(c: &mut Check) {
    c.rule = "12 derived unions (member orders over machine numbers, strings, runtime types, wrappers, lists, a single member); texts valid for none, one or several members, boundary numbers, edits, padded with blanks; and every member built directly and written. Oracle: the members' own readers in declaration order, and their printers. Non-trivial: at least one union has a text accepted by two or more of its members or a non-string member accepts; distinct by text.".into();
    c.assumptions = vec!["Texts are XML characters without literal carriage returns; the reader sees the text with outer XML white space removed.".into(), "What is written for a value in the unknown case is not judged.".into(), "No text holds the CDATA end marker, which the XML library's writer does not escape.".into()];
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo()), &format!("{}/xsd-macro-utils/src", repo())]);
    let d1 = dict.clone();
    c.prop("read", c.scale(768_000, 3_840_000), 40, &move |s, x| {
        let t = xml_text(s, &d1);
        x.desc(format!("{:?}", t));
        let (hit, multi) = all_unions(&t)?;
        x.nontrivial(multi > 2 || hit > 4);
        x.label(format!("{} unions take a member", hit));
        Ok(())
    });
    c.prop("write", c.scale(768_000, 3_840_000), 40, &move |s, x| {
        let mut t = token(s, &dict);
        t.retain(xml_ok);
        if t.contains("]]>") || crate::reference::lenient(xtrim(&t)) {
            t.clear();
        }
        x.desc(format!("{:?}", t));
        let n = build_unions(s, &t)?;
        x.nontrivial(n > 0);
        Ok(())
    });
}

/// Totality of everything derived (used by T08).
pub fn total(t: &str) -> Result<u32, String> {
    let mut any = 0;
    macro_rules! p { ($($ty:ident)+) => { $(
        let r = guard(|| t.parse::<$ty>().ok().map(|v| v.to_string())).map_err(|e| format!("{} on {:?}: {}", stringify!($ty), clip(t, 300), e))?;
        if r.is_some() && !matches!(stringify!($ty).as_bytes()[0], b'L') { any += 1; }
    )+ } }
    p!(WBool WI8 WU64 WF64 WDuration WGDay WGMonth WGMonthDay WDecimal WwDate LDate LDuration LDecimal LF32 LI64 LWwDate);
    if t.chars().all(xml_ok) {
        macro_rules! u { ($($ty:ident)+) => { $(
            let doc = format!("<a>{}</a>", esc(t));
            guard(|| yaserde::de::from_str::<$ty>(&doc).ok().map(|v| yaserde::ser::to_string(&v).is_ok()))
                .map_err(|e| format!("{} on {:?}: {}", stringify!($ty), clip(t, 300), e))?;
        )+ } }
        u!(UD UI UC);
    }
    Ok(any)
}
