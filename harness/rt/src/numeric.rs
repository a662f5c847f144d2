//! T05-T08: duration, integers, decimal, totality.
use crate::gens::*;
use crate::reference as r;
use bigdecimal::BigDecimal;
use num_bigint::{BigInt, BigUint, ToBigInt, ToBigUint};
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use vp_common::*;
use xsd_types::types as xs;

fn parse<T: FromStr>(s: &str) -> Result<Option<T>, String> {
    guard(|| s.parse::<T>().ok()).map_err(|e| format!("parsing {:?} panicked: {}", clip(s, 200), e))
}

// ---------------------------------------------------------------- T05

struct DurWant {
    c: [u64; 5],
    secs: f64,
    neg: bool,
}

/// None: a component does not fit 64 bits.
fn dur_value(d: &r::Dur) -> Option<DurWant> {
    let mut c = [0u64; 5];
    for i in 0..5 {
        if let Some(t) = &d.c[i] {
            c[i] = t.parse().ok()?;
        }
    }
    let secs = match &d.s {
        None => 0.0,
        Some((a, f)) => {
            a.parse::<u64>().ok()?;
            format!("{}.{}", a, if f.is_empty() { "0" } else { f }).parse::<f64>().ok()?
        }
    };
    Some(DurWant { c, secs, neg: d.neg })
}

fn comps(v: &xs::Duration) -> [u64; 5] {
    [v.years, v.months, v.days, v.hours, v.minutes]
}

fn close(a: f64, b: f64) -> bool {
    // the written decimal may be rounded to a neighbouring double
    a == b || (a - b).abs() <= (a.abs().max(b.abs())) * 4.0 * f64::EPSILON
}

pub fn judge_dur(t: &str) -> Result<bool, String> {
    if t.is_empty() {
        return Ok(false);
    }
    let got = parse::<xs::Duration>(t)?;
    let want = r::duration(t);
    match (&want, &got) {
        (None, None) => Ok(false),
        (None, Some(g)) => Err(format!("ungrammatical duration {:?} was accepted as {:?}", t, g)),
        (Some(d), got) => match (dur_value(d), got) {
            (None, None) => Ok(false),
            // seconds beyond 64 bits may be kept as a float; other components must not
            (None, Some(g)) => {
                let fits = d.c.iter().flatten().all(|x| x.parse::<u64>().is_ok());
                if fits {
                    round_dur(g)?;
                    return Ok(false);
                }
                Err(format!("duration {:?} with a component beyond 64 bits became {:?}", t, g))
            }
            (Some(_), None) => Err(format!("valid duration {:?} was refused", t)),
            (Some(w), Some(g)) => {
                if comps(g) != w.c || g.is_negative != w.neg || !close(g.seconds, w.secs) {
                    return Err(format!("duration {:?} became {:?}", t, g));
                }
                round_dur(g)?;
                span_dur(g)?;
                Ok(true)
            }
        },
    }
}

fn round_dur(g: &xs::Duration) -> Result<(), String> {
    let p = guard(|| g.to_string()).map_err(|e| format!("printing {:?}: {}", g, e))?;
    if r::duration(&p).is_none() {
        return Err(format!("{:?} prints the ungrammatical {:?}", g, p));
    }
    match parse::<xs::Duration>(&p)? {
        Some(b) if comps(&b) == comps(g) && b.is_negative == g.is_negative && close(b.seconds, g.seconds) => Ok(()),
        o => Err(format!("{:?} prints {:?}, which parses back to {:?}", g, p, o)),
    }
}

fn span_dur(g: &xs::Duration) -> Result<(), String> {
    let got = guard(|| g.to_std_duration()).map_err(|e| format!("converting {:?}: {}", g, e))?;
    if g.years > 0 || g.months > 0 {
        return match got {
            Err(_) => Ok(()),
            Ok(d) => Err(format!("{:?} has months or years but converted to {:?}", g, d)),
        };
    }
    let whole = g.seconds.trunc();
    if whole >= 1.8e19 {
        return Ok(());
    }
    let total = g.days as u128 * 86400 + g.hours as u128 * 3600 + g.minutes as u128 * 60 + whole as u128;
    if total > u64::MAX as u128 {
        return match got {
            Err(_) => Ok(()),
            Ok(d) => Err(format!("{:?} exceeds the span type but converted to {:?}", g, d)),
        };
    }
    let want = total * 1_000_000_000 + ((g.seconds - whole) * 1e9) as u128;
    match got {
        Ok(d) if d.as_nanos().abs_diff(want) <= 1 => Ok(()),
        o => Err(format!("{:?} converts to {:?}, expected {} ns", g, o, want)),
    }
}

pub fn dur_text(s: &mut Src, dict: &Dict) -> String {
    let mut t = String::new();
    if s.chance(1, 4) {
        t.push('-');
    }
    t.push('P');
    for d in ["Y", "M", "D"] {
        if s.chance(2, 5) {
            let w = if s.chance(1, 10) { 24 } else { 5 };
            t += &number(s, dict, w);
            t += d;
        }
    }
    if s.chance(3, 5) {
        t.push('T');
        for d in ["H", "M"] {
            if s.chance(2, 5) {
                let w = if s.chance(1, 10) { 24 } else { 5 };
            t += &number(s, dict, w);
                t += d;
            }
        }
        if s.chance(1, 2) {
            let w = if s.chance(1, 10) { 24 } else { 6 };
            t += &number(s, dict, w);
            if s.flip() {
                t.push('.');
                let n = match s.below(6) {
                    0 => s.below(40),
                    1 => 0,
                    _ => 1 + s.below(9),
                };
                match size_tail(s, dict, 60, 1100) {
                    Some(n) => t += &dig_long(s, n),
                    None => t += &dig(s, n),
                }
            }
            t.push('S');
        }
    }
    t
}

pub fn t05(c: &mut Check) {
    c.rule = "Texts are built from component subsets with digit strings of 1 to 24 digits and 0 to 40 fraction digits, then optionally edited (inserted, dropped, duplicated or swapped characters, stray numbers and designators); values are also built directly. Judged by an independent grammar. Non-trivial: accepted, or refused with a P in it; distinct by text.".into();
    c.assumptions = vec!["Seconds are compared to within 4 units in the last place of a double; the empty text (pinned by the repository's tests as zero) is not judged.".into()];
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    c.prop("text", c.scale(8_000_000, 40_000_000), 60, &move |s, x| {
        let mut t = dur_text(s, &dict);
        match s.below(8) {
            0 | 1 => t = mutate(s, &t),
            2 => {
                // stray number / designator
                let at = s.below(t.len() + 1);
                let ins = *s.pick(&["0", "1", "00", "0.5", ".5", "1.", "5", "Y", "M", "D", "T", "H", "S", "P", "-", "0S", "0M", "1D", "T0H"]);
                t.insert_str(at, ins);
            }
            3 => {
                let tail = *s.pick(&["0", "00", "1", "0.0", "0.5", ".", "T", "T0", "P", "12"]);
                t.push_str(tail);
            }
            _ => {}
        }
        x.desc(format!("{:?}", t));
        let ok = judge_dur(&t)?;
        x.nontrivial(ok || t.contains('P'));
        x.label(if ok { "accepted" } else { "refused" });
        Ok(())
    });
    c.prop("values", c.scale(1_920_000, 9_600_000), 24, &|s, x| {
        let mut f = |s: &mut Src, big: bool| -> u64 {
            match s.below(6) {
                0 => 0,
                1 => s.below(100) as u64,
                2 if big => *s.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 60, u64::MAX / 3600, u64::MAX / 86400, u64::MAX / 60 + 1, u64::MAX / 3600 + 1, u64::MAX / 86400 + 1, 1 << 32, 1 << 53, 1 << 63]),
                _ => s.below(1 << 20) as u64,
            }
        };
        let ym = s.chance(1, 2);
        let v = xs::Duration {
            is_negative: s.flip(),
            years: if ym { f(s, true) } else { 0 },
            months: if ym { f(s, true) } else { 0 },
            days: f(s, true),
            hours: f(s, true),
            minutes: f(s, true),
            seconds: match s.below(5) {
                0 => 0.0,
                1 => s.below(60) as f64,
                2 => s.below(60) as f64 + s.below(1_000_000_000) as f64 / 1e9,
                3 => *s.pick(&[0.001, 59.999_999_999, 1e-9, 0.1, 0.25, 1e15, 4294967296.5, 1e-12]),
                _ => s.below(1 << 30) as f64 / 1000.0,
            },
        };
        x.desc(format!("{:?}", v));
        x.nontrivial(true);
        round_dur(&v)?;
        span_dur(&v)?;
        Ok(())
    });
    near_all(
        c,
        "near",
        &["P1Y2M3DT4H5M6S", "-P1Y", "PT0.5S", "P10D", "PT36H", "P1M", "PT1M", "-P1DT12.25S"],
        &["0", "1", ".", "-", "+", "T", "M", "S"],
        &|t| judge_dur(t).map(|_| ()),
    );
    // every subset of components with small values, and every single edit of them
    c.case("subsets", |x| {
        let mut n = 0;
        for mask in 0..64u32 {
            for neg in [false, true] {
                for vals in [["1"; 6], ["0"; 6], ["12"; 6]] {
                    let mut t = String::from(if neg { "-P" } else { "P" });
                    for (i, d) in ["Y", "M", "D", "H", "M", "S"].iter().enumerate() {
                        if i == 3 && mask >> 3 != 0 {
                            t.push('T');
                        }
                        if mask >> i & 1 == 1 {
                            t += vals[i];
                            t += d;
                        }
                    }
                    judge_dur(&t)?;
                    n += 1;
                    for at in 0..=t.len() {
                        for ins in ["0", "1", "-", "P", "T", "Y", "M", "D", "H", "S", ".", ".5", "0.5"] {
                            let mut u = t.clone();
                            u.insert_str(at, ins);
                            judge_dur(&u)?;
                            n += 1;
                        }
                        if at < t.len() {
                            let mut u = t.clone();
                            u.remove(at);
                            judge_dur(&u)?;
                            n += 1;
                        }
                    }
                }
            }
        }
        x.evals(n);
        x.nontrivial(true);
        x.desc("all component subsets x 3 values x all single insertions and deletions");
        Ok(())
    });
}

// ---------------------------------------------------------------- T06

trait Int: FromStr + Display + Debug + PartialEq + PartialOrd + Clone + Default {
    const NAME: &'static str;
    /// -1 negative, 0 zero, 1 positive allowed?
    const CLASS: [bool; 3];
    fn big(&self) -> BigInt;
}
macro_rules! int {
    ($t:ident, $class:expr, $f:expr) => {
        impl Int for xs::$t {
            const NAME: &'static str = stringify!($t);
            const CLASS: [bool; 3] = $class;
            fn big(&self) -> BigInt {
                #[allow(clippy::redundant_closure_call)]
                ($f)(self)
            }
        }
    };
}
int!(Integer, [true, true, true], |v: &xs::Integer| v.to_bigint().unwrap());
int!(PositiveInteger, [false, false, true], |v: &xs::PositiveInteger| BigInt::from(v.to_biguint().unwrap()));
int!(NonNegativeInteger, [false, true, true], |v: &xs::NonNegativeInteger| BigInt::from(v.to_biguint().unwrap()));
int!(NegativeInteger, [true, false, false], |v: &xs::NegativeInteger| v.to_bigint().unwrap());
int!(NonPositiveInteger, [true, true, false], |v: &xs::NonPositiveInteger| v.to_bigint().unwrap());

fn class(v: &(bool, String)) -> usize {
    if v.1.is_empty() {
        1
    } else if v.0 {
        0
    } else {
        2
    }
}

fn canon(v: &(bool, String)) -> String {
    if v.1.is_empty() {
        "0".into()
    } else if v.0 {
        format!("-{}", v.1)
    } else {
        v.1.clone()
    }
}

fn judge_int<T: Int>(t: &str) -> Result<Option<T>, String> {
    let got = parse::<T>(t)?;
    let want = r::integer(t);
    match (&want, got) {
        (None, None) => Ok(None),
        (None, Some(g)) => {
            if t.contains('_') {
                return Ok(None); // separators are not judged
            }
            Err(format!("{}: non-integer text {:?} was accepted as {:?}", T::NAME, t, g))
        }
        (Some(w), g) => {
            let ok = T::CLASS[class(w)];
            match (ok, g) {
                (false, None) => Ok(None),
                (false, Some(g)) => Err(format!("{}: {:?} is outside the value space but became {:?}", T::NAME, t, g)),
                (true, None) => Err(format!("{}: valid {:?} was refused", T::NAME, t)),
                (true, Some(g)) => {
                    let p = guard(|| g.to_string()).map_err(|e| format!("{} {:?} printing: {}", T::NAME, t, e))?;
                    if p != canon(w) {
                        return Err(format!("{}: {:?} prints {:?}, expected {:?}", T::NAME, t, p, canon(w)));
                    }
                    if g.big().to_string() != canon(w) {
                        return Err(format!("{}: {:?} holds {}", T::NAME, t, g.big()));
                    }
                    match parse::<T>(&p)? {
                        Some(b) if b == g => Ok(Some(g)),
                        o => Err(format!("{}: {:?} prints {:?} which parses to {:?}", T::NAME, t, p, o)),
                    }
                }
            }
        }
    }
}

fn cmp_int(a: &(bool, String), b: &(bool, String)) -> Ordering {
    let n = |v: &(bool, String)| r::norm_decimal(v.0, &v.1, 0);
    r::cmp_decimal(&n(a), &n(b))
}

pub fn int_text(s: &mut Src, dict: &Dict) -> String {
    let sg = *s.pick(&["", "-", "+", "", "-"]);
    if let Some(n) = size_tail(s, dict, 300, 4100) {
        let t = if s.chance(1, 4) { format!("{}{}", "0".repeat(n), s.below(1000)) } else { dig_long(s, n) };
        return format!("{}{}", sg, t);
    }
    let b = match s.below(10) {
        0 => s.pick(&["0", "00", "1", "01", "10", "9", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "4294967296"]).to_string(),
        1 => {
            let n = 1 + s.below(400);
            dig(s, n)
        }
        2 => "0".repeat(1 + s.below(30)),
        _ => number(s, dict, 40),
    };
    let t = format!("{}{}", sg, b);
    match s.below(8) {
        0 => mutate(s, &t),
        1 if s.chance(1, 2) => s
            .pick(&["", " ", "-", "+", "--1", "+-1", "-+1", "++1", "1.0", "1.", ".1", "1e3", "0x10", "١", "1 ", " 1", "1-", "one", "-0", "+0", "-00", "1,000", "∞", "NaN", "1\u{a0}", "\n1"])
            .to_string(),
        2 if s.chance(1, 3) => junk(s, 8),
        _ => t,
    }
}

fn int_all(t: &str) -> Result<bool, String> {
    let mut any = judge_int::<xs::Integer>(t)?.is_some();
    any |= judge_int::<xs::PositiveInteger>(t)?.is_some();
    any |= judge_int::<xs::NonNegativeInteger>(t)?.is_some();
    any |= judge_int::<xs::NegativeInteger>(t)?.is_some();
    any |= judge_int::<xs::NonPositiveInteger>(t)?.is_some();
    Ok(any)
}

fn int_pair<T: Int>(a: &str, b: &str, want: Ordering) -> Result<(), String> {
    if let (Some(x), Some(y)) = (judge_int::<T>(a)?, judge_int::<T>(b)?) {
        if x.partial_cmp(&y) != Some(want) || (x == y) != want.is_eq() {
            return Err(format!("{}: {} vs {} compares {:?}, expected {:?}", T::NAME, a, b, x.partial_cmp(&y), want));
        }
    }
    Ok(())
}

pub fn t06(c: &mut Check) {
    c.rule = "Digit strings up to 400 digits (one in 300 up to 4100) with signs and leading zeros, machine-word boundaries, edits and malformed texts go to all five types; pairs check the order; values are built from big integers. Judged by digit-string arithmetic. Non-trivial: accepted by some type, or a non-empty refused text; distinct by text.".into();
    c.assumptions = vec!["Texts with '_' digit separators are not judged.".into()];
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    let d1 = dict.clone();
    c.prop("text", c.scale(4_800_000, 24_000_000), 60, &move |s, x| {
        let t = int_text(s, &d1);
        x.desc(format!("{:?}", t));
        let ok = int_all(&t)?;
        x.nontrivial(ok || !t.is_empty());
        x.label(if ok { "accepted" } else { "refused by all" });
        Ok(())
    });
    let d2 = dict.clone();
    c.prop("order", c.scale(2_560_000, 12_800_000), 90, &move |s, x| {
        let a = int_text(s, &d2);
        let b = match s.below(3) {
            0 => {
                let d = char::from(b'0' + s.below(10) as u8);
                format!("{}{}", a, d)
            }
            1 => mutate(s, &a),
            _ => int_text(s, &d2),
        };
        x.desc(format!("{:?} vs {:?}", a, b));
        if let (Some(p), Some(q)) = (r::integer(&a), r::integer(&b)) {
            let want = cmp_int(&p, &q);
            x.nontrivial(true);
            int_pair::<xs::Integer>(&a, &b, want)?;
            int_pair::<xs::PositiveInteger>(&a, &b, want)?;
            int_pair::<xs::NonNegativeInteger>(&a, &b, want)?;
            int_pair::<xs::NegativeInteger>(&a, &b, want)?;
            int_pair::<xs::NonPositiveInteger>(&a, &b, want)?;
        }
        Ok(())
    });
    c.prop("from_big", c.scale(640_000, 3_200_000), 40, &|s, x| {
        let n = 1 + s.below(12);
        let w: Vec<u32> = (0..n).map(|_| if s.chance(1, 5) { *s.pick(&[0, 1, u32::MAX]) } else { s.raw() }).collect();
        let u = BigUint::new(w);
        let i = if s.flip() { -BigInt::from(u.clone()) } else { BigInt::from(u.clone()) };
        x.desc(i.to_string());
        x.nontrivial(true);
        let zero = BigInt::from(0);
        let v = xs::Integer::from_bigint(i.clone());
        if v.to_string() != i.to_string() || parse::<xs::Integer>(&v.to_string())? != Some(v) {
            return Err("Integer from big integer does not round trip".into());
        }
        if i < zero {
            let v = xs::NegativeInteger::from_bigint(i.clone());
            if v.to_string() != i.to_string() || parse::<xs::NegativeInteger>(&v.to_string())? != Some(v) {
                return Err("NegativeInteger from big integer does not round trip".into());
            }
        }
        if i <= zero {
            let v = xs::NonPositiveInteger::from_bigint(i.clone());
            if v.to_string() != i.to_string() || parse::<xs::NonPositiveInteger>(&v.to_string())? != Some(v) {
                return Err("NonPositiveInteger from big integer does not round trip".into());
            }
        }
        if u > BigUint::from(0u32) {
            let v = xs::PositiveInteger::from_biguint(u.clone());
            if v.to_string() != u.to_string() || parse::<xs::PositiveInteger>(&v.to_string())? != Some(v) {
                return Err("PositiveInteger from big integer does not round trip".into());
            }
        }
        let v = xs::NonNegativeInteger::from_biguint(u.clone());
        if v.to_string() != u.to_string() || parse::<xs::NonNegativeInteger>(&v.to_string())? != Some(v) {
            return Err("NonNegativeInteger from big integer does not round trip".into());
        }
        Ok(())
    });
    near_all(c, "near", &["0", "1", "-1", "+10", "007", "-0", "18446744073709551616"], &["0", "1", "-", "+", ".", "e"], &|t| int_all(t).map(|_| ()));
    c.case("small", |x| {
        for i in -70_000i64..=70_000 {
            int_all(&i.to_string())?;
            if i % 7 == 0 {
                int_all(&format!("{}00{}", if i < 0 { "-" } else { "+" }, i.abs()))?;
            }
        }
        x.evals(160_000);
        x.nontrivial(true);
        x.desc("-70000..70000 for five types");
        Ok(())
    });
}

// ---------------------------------------------------------------- T07

pub fn dec_text(s: &mut Src, dict: &Dict) -> String {
    let sg = *s.pick(&["", "-", "+", ""]);
    if let Some(n) = size_tail(s, dict, 300, 4100) {
        let k = match s.below(4) {
            0 => 0,
            1 => n,
            2 => 1,
            _ => s.below(n + 1),
        };
        let (a, b) = (dig_long(s, k), dig_long(s, n - k));
        return match s.below(4) {
            0 if k > 0 => format!("{}{}", sg, a),
            1 => format!("{}{}.{}{}", sg, k % 10, "0".repeat(n), s.below(1000)),
            2 => format!("{}{}{}.{}", sg, "0".repeat(n), s.below(1000), s.below(1000)),
            _ => format!("{}{}.{}0", sg, a, b),
        };
    }
    let i = match s.below(6) {
        0 => String::new(),
        1 => "0".repeat(1 + s.below(12)),
        2 => {
            let n = 1 + s.below(200);
            dig(s, n)
        }
        _ => number(s, dict, 25),
    };
    let f = match s.below(6) {
        0 | 1 => String::new(),
        2 => {
            let n = s.below(60);
            let m = 1 + s.below(6);
            format!(".{}{}", "0".repeat(n), dig(s, m))
        }
        3 => ".".into(),
        4 => {
            let n = 1 + s.below(200);
            format!(".{}", dig(s, n))
        }
        _ => {
            let n = 1 + s.below(6);
            let z = s.below(5);
            format!(".{}{}", dig(s, n), "0".repeat(z))
        }
    };
    format!("{}{}{}", sg, i, f)
}

fn dec_norm(b: &BigDecimal) -> (bool, String, i64) {
    let (i, scale) = b.as_bigint_and_exponent();
    let t = i.to_string();
    let (neg, d) = match t.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, t.as_str()),
    };
    r::norm_decimal(neg, d, -scale)
}

fn round_dec(g: &xs::Decimal) -> Result<(), String> {
    let want = dec_norm(&g.to_bigdecimal());
    let p = guard(|| g.to_string()).map_err(|e| format!("printing {:?}: {}", g, e))?;
    match r::decimal(&p) {
        None => return Err(format!("{:?} prints {:?}, which is not an XSD decimal literal", g, clip(&p, 300))),
        Some(v) if v != want => return Err(format!("{:?} prints {:?}, a different value", g, clip(&p, 300))),
        _ => {}
    }
    match parse::<xs::Decimal>(&p)? {
        Some(b) if b == *g && dec_norm(&b.to_bigdecimal()) == want => Ok(()),
        o => Err(format!("{:?} prints {:?}, which parses to {:?}", g, clip(&p, 300), o)),
    }
}

fn judge_dec(t: &str) -> Result<Option<xs::Decimal>, String> {
    let got = parse::<xs::Decimal>(t)?;
    let want = r::decimal(t);
    match (want, got) {
        (Some(w), Some(g)) => {
            if dec_norm(&g.to_bigdecimal()) != w {
                return Err(format!("decimal {:?} became {:?}", t, g));
            }
            round_dec(&g)?;
            Ok(Some(g))
        }
        (Some(_), None) => Err(format!("valid decimal {:?} was refused", clip(t, 300))),
        (None, None) => Ok(None),
        (None, Some(g)) => {
            Err(format!("non-decimal text {:?} was accepted as {:?}", t, g))
        }
    }
}

pub fn t07(c: &mut Check) {
    c.rule = "Literals with up to 200 digits (one in 300 up to 4100) on each side of an optional point (either side may be empty), signs, long zero runs, edits and malformed texts; values built from unscaled integers and scales -300..300; pairs for the order. Judged by digit-string arithmetic. Non-trivial: an accepted literal or value, or a refused non-empty text; distinct by text.".into();
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    let d1 = dict.clone();
    c.prop("text", c.scale(3_840_000, 19_200_000), 120, &move |s, x| {
        let mut t = dec_text(s, &d1);
        match s.below(8) {
            0 => t = mutate(s, &t),
            1 if s.flip() => {
                t = s
                    .pick(&["", ".", "+", "-", "+.", "-.", "1..2", "1.2.3", "--1", "+-1", "-+1", "1-", "1e5", "1E-7", "1e", "e5", "INF", "NaN", "0x1", "1,5", " 1", "1 ", "1 .5", "١.٢", "€", "1.é", "infinity", "1.+5", "1.-5"])
                    .to_string()
            }
            2 if s.chance(1, 3) => t = junk(s, 8),
            _ => {}
        }
        x.desc(format!("{:?}", clip(&t, 200)));
        x.key(&t);
        let ok = judge_dec(&t)?.is_some();
        x.nontrivial(ok || !t.is_empty());
        x.label(if ok { "accepted" } else { "refused" });
        Ok(())
    });
    near_all(c, "near", &["0", "1.5", "-.5", "+1.", "00.100", "-12.034"], &["0", "1", "-", "+", ".", "e"], &|t| judge_dec(t).map(|_| ()));
    c.prop("values", c.scale(1_920_000, 9_600_000), 30, &|s, x| {
        let n = 1 + s.below(6);
        let w: Vec<u32> = (0..n).map(|_| s.raw()).collect();
        let mut i = BigInt::from(match s.below(4) {
            0 => BigUint::from(s.below(100) as u32),
            1 => BigUint::from(10u32).pow(s.below(30) as u32),
            _ => BigUint::new(w),
        });
        if s.flip() {
            i = -i;
        }
        let scale = match s.below(4) {
            0 => s.range(-6, 12),
            1 => s.range(-40, 40),
            _ => s.range(-300, 300),
        };
        let b = BigDecimal::new(i.clone(), scale);
        x.desc(format!("{}E{}", i, -scale));
        x.nontrivial(true);
        let g = xs::Decimal::from_bigdecimal(b.clone());
        if g.to_bigdecimal() != b {
            return Err("conversion changes the value".into());
        }
        round_dec(&g)
    });
    c.prop("order", c.scale(1_920_000, 9_600_000), 120, &move |s, x| {
        let a = dec_text(s, &dict);
        let b = match s.below(4) {
            0 => format!("{}0", a),
            1 => format!("0{}", a.trim_start_matches(['-', '+'])),
            2 => mutate(s, &a),
            _ => dec_text(s, &dict),
        };
        x.desc(format!("{:?} vs {:?}", clip(&a, 100), clip(&b, 100)));
        if let (Some(p), Some(q)) = (r::decimal(&a), r::decimal(&b)) {
            x.nontrivial(true);
            let want = r::cmp_decimal(&p, &q);
            if let (Some(m), Some(n)) = (judge_dec(&a)?, judge_dec(&b)?) {
                if m.partial_cmp(&n) != Some(want) || (m == n) != want.is_eq() {
                    return Err(format!("{:?} vs {:?}: {:?}, expected {:?}", a, b, m.partial_cmp(&n), want));
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- T08

macro_rules! total {
    ($t:expr, $any:ident, $($ty:ty),+) => {
        $(
            let r = guard(|| $t.parse::<$ty>().ok().map(|v| v.to_string()))
                .map_err(|e| format!("{} on {:?}: {}", stringify!($ty), clip($t, 300), e))?;
            if r.is_some() { $any += 1; }
        )+
    };
}

fn total_all(t: &str) -> Result<u32, String> {
    let mut any = 0;
    total!(t, any, xs::Date, xs::Time, xs::DateTime, xs::DateTimeStamp, xs::Duration, xs::GDay, xs::GMonth,
        xs::GMonthDay, xs::GYear, xs::GYearMonth, xs::Integer, xs::PositiveInteger, xs::NegativeInteger,
        xs::NonNegativeInteger, xs::NonPositiveInteger, xs::Decimal);
    let _ = guard(|| xs::utils::parse_timezone(t)).map_err(|e| format!("timezone reader on {:?}: {}", clip(t, 300), e))?;
    if let Ok(d) = t.parse::<xs::Duration>() {
        let _ = guard(|| d.to_std_duration()).map_err(|e| format!("converting duration {:?}: {}", clip(t, 300), e))?;
    }
    any += crate::macros::total(t)?;
    Ok(any)
}

pub fn t08(c: &mut Check) {
    c.rule = "Arbitrary strings over an alphabet of lexical-form characters, multi-byte letters, non-ASCII digits and random code points; valid literals of every type spliced with multi-byte characters at every position; over-long digit runs. Each string goes to all parsers, wrappers, lists and unions. Non-trivial: contains a non-ASCII character or more than 18 digits, or is accepted by a type; distinct by text.".into();
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    c.prop("strings", c.scale(3_200_000, 16_000_000), 60, &move |s, x| {
        let t = match s.below(10) {
            0 | 1 => junk(s, 20),
            2 => dur_text(s, &dict),
            3 => int_text(s, &dict),
            4 => dec_text(s, &dict),
            5 => {
                let base = *s.pick(&SEEDS);
                let c: Vec<char> = base.chars().collect();
                let i = s.below(c.len() + 1);
                let j = (i + s.below(4)).min(c.len());
                let ins = *s.pick(&["é", "€", "𝟙", "日", "٣", "\u{301}", "é-", "-é", "é-é", "Ⅷ"]);
                let mut o: String = c[..i].iter().collect();
                o.push_str(ins);
                o.extend(&c[j..]);
                o
            }
            6 => {
                let run = match size_tail(s, &dict, 30, 5000) {
                    Some(n) => dig_long(s, n),
                    None => {
                        let n = s.below(60);
                        dig(s, n)
                    }
                };
                let base = *s.pick(&SEEDS);
                base.replacen(|c: char| c.is_ascii_digit(), &run, 1 + s.below(2))
            }
            7 => {
                // fixed byte length, arbitrary characters: hits length guards
                let want = s.below(12);
                let mut o = String::new();
                while o.len() < want {
                    o.push_str(s.pick(&["-", "0", "1", "é", "€", "Z", ":", "+"]));
                }
                o
            }
            _ => {
                let base = *s.pick(&SEEDS);
                mutate(s, base)
            }
        };
        x.desc(format!("{:?}", clip(&t, 200)));
        x.key(&t);
        let any = total_all(&t)?;
        x.nontrivial(any > 0 || !t.is_ascii() || t.chars().filter(|c| c.is_ascii_digit()).count() > 18);
        x.label(if any > 0 { "accepted by some type" } else { "refused by all" });
        Ok(())
    });
    // All short strings over a small alphabet (complete).
    c.case("short_strings", |x| {
        const A: &[&str] = &["-", "0", "3", "é", "€", "Z", "+", ":", "P", "T", "S", "."];
        let mut n = 0u64;
        let mut stack = vec![(String::new(), 0)];
        while let Some((t, d)) = stack.pop() {
            total_all(&t)?;
            n += 1;
            if d < 4 {
                for a in A {
                    stack.push((format!("{}{}", t, a), d + 1));
                }
            }
        }
        x.evals(n);
        x.nontrivial(true);
        x.desc("all strings of up to 4 symbols over 12");
        Ok(())
    });
}

pub const SEEDS: [&str; 22] = [
    "---31", "---01+05:30", "--12", "--02-29", "--02-29-05:30", "2024", "-0044Z", "2024-02", "-0044-12+14:00",
    "2024-02-29", "-0044-03-15-05:30", "12:34:56", "12:34:56.789Z", "2024-02-29T12:34:56", "2024-02-29T12:34:56.5-05:30",
    "P1Y2M3DT4H5M6.7S", "-P1D", "123456789012345678901234567890", "-0", "123.456", "+05:30", "Z",
];
