//! T10: equality, order, conversions and defaults of the value types.
use vp_rt::gens::*;
use vp_rt::numeric::{dec_text, dur_text, int_text};
use vp_rt::reference as r;
use vp_rt::reference::Verdict;
use vp_rt::temporal::*;
use bigdecimal::BigDecimal;
use chrono::{Datelike, NaiveDate, NaiveTime, TimeZone, Timelike};
use num_bigint::{BigInt, BigUint, ToBigInt, ToBigUint};
use std::cmp::Ordering;
use std::fmt::{Debug, Display};
use std::str::FromStr;
use vp_common::*;
use vp_rt::check;
use xsd_types::types as xs;

const TYPES: usize = 17;

fn plain<V>(v: Verdict<V>) -> Option<V> {
    match v {
        Verdict::Valid(v) => Some(v),
        _ => None,
    }
}

/// Equality of two values read from texts; `None` where the reference does
/// not read both.
fn eq_as<T: FromStr + PartialEq + Clone + Debug, V: PartialEq>(
    a: &str,
    b: &str,
    reff: impl Fn(&str) -> Option<V>,
) -> Result<Option<bool>, String> {
    let (Some(x), Some(y)) = (reff(a), reff(b)) else { return Ok(None) };
    let read = |t: &str| guard(|| t.parse::<T>().ok()).and_then(|v| v.ok_or_else(|| format!("valid text {:?} was refused", clip(t, 200))));
    let (va, vb) = (read(a)?, read(b)?);
    let want = x == y;
    if (va == vb) != want || (vb == va) != want || (va != vb) == want {
        return Err(format!("{} and {} compare as {}", clip(a, 200), clip(b, 200), if want { "different" } else { "equal" }));
    }
    if va.clone() != va || va != va {
        return Err(format!("{} differs from its copy", clip(a, 200)));
    }
    Ok(Some(want))
}

fn num(t: &str) -> Option<(bool, String, i64)> {
    r::decimal(t)
}

fn int_of(t: &str, lo: bool, hi: bool, zero: bool) -> Option<(bool, String)> {
    let v = r::integer(t)?;
    let ok = if v.1.is_empty() { zero } else if v.0 { lo } else { hi };
    ok.then_some(v)
}

/// Components as numbers, seconds in a canonical spelling.
fn dur_key(t: &str) -> Option<(bool, [u64; 5], String)> {
    let d = r::duration(t)?;
    let mut c = [0; 5];
    for i in 0..5 {
        if let Some(x) = &d.c[i] {
            c[i] = x.parse().ok()?;
        }
    }
    let s = match &d.s {
        None => String::new(),
        Some((a, f)) => {
            a.parse::<u64>().ok()?;
            // only what a double tells apart
            let (a, f) = (a.trim_start_matches('0'), f.trim_end_matches('0'));
            if a.len() + f.len() > 15 {
                return None;
            }
            format!("{}.{}", a, f)
        }
    };
    let s = if s == "." { String::new() } else { s };
    Some((d.neg, c, s))
}

fn instant(t: &str) -> Option<(i64, i64)> {
    plain(r::datetime(t)).map(|v| (v.0, v.1))
}

fn stamp(t: &str) -> Option<(i64, i64)> {
    plain(r::datetime(t)).filter(|v| v.2.is_some()).map(|v| (v.0, v.1))
}

fn equal(kind: usize, a: &str, b: &str) -> Result<Option<bool>, String> {
    match kind {
        0 => eq_as::<xs::GDay, _>(a, b, r::gday),
        1 => eq_as::<xs::GMonth, _>(a, b, r::gmonth),
        2 => eq_as::<xs::GMonthDay, _>(a, b, r::gmonthday),
        3 => eq_as::<xs::GYear, _>(a, b, r::gyear),
        4 => eq_as::<xs::GYearMonth, _>(a, b, r::gyearmonth),
        5 => eq_as::<xs::Date, _>(a, b, |t| plain(r::date(t))),
        6 => eq_as::<xs::Time, _>(a, b, |t| plain(r::time(t))),
        7 => eq_as::<xs::DateTime, _>(a, b, instant),
        8 => eq_as::<xs::DateTimeStamp, _>(a, b, stamp),
        9 => eq_as::<xs::Decimal, _>(a, b, num),
        10 => eq_as::<xs::Integer, _>(a, b, |t| int_of(t, true, true, true)),
        11 => eq_as::<xs::PositiveInteger, _>(a, b, |t| int_of(t, false, true, false)),
        12 => eq_as::<xs::NonNegativeInteger, _>(a, b, |t| int_of(t, false, true, true)),
        13 => eq_as::<xs::NegativeInteger, _>(a, b, |t| int_of(t, true, false, false)),
        14 => eq_as::<xs::NonPositiveInteger, _>(a, b, |t| int_of(t, true, false, true)),
        _ => eq_as::<xs::Duration, _>(a, b, dur_key),
    }
}

const NAMES: [&str; TYPES] = [
    "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "date", "time", "dateTime", "dateTimeStamp", "decimal", "integer",
    "positiveInteger", "nonNegativeInteger", "negativeInteger", "nonPositiveInteger", "duration", "duration",
];

fn text(s: &mut Src, kind: usize, dict: &Dict) -> String {
    match kind {
        0..=4 => frag_text(s, kind, dict),
        5 => date_text(s),
        6 => format!("{}{}", time_body(s), opt_tz_ok(s)),
        7 | 8 => {
            let d = date_text(s);
            let d = d.trim_start_matches('-');
            format!("{}T{}{}", &d[..d.len().min(10)], time_body(s), if kind == 8 { tz_ok(s) } else { opt_tz_ok(s) })
        }
        9 => dec_text(s, dict),
        10..=14 => {
            let t = int_text(s, dict);
            let b = t.trim_start_matches(['-', '+']).to_string();
            match kind {
                13 | 14 => format!("-{}", b),
                11 | 12 => b,
                _ => t,
            }
        }
        _ => dur_text(s, dict),
    }
}

/// Another text: the same value spelled differently, a neighbour, or any.
fn other(s: &mut Src, kind: usize, a: &str, dict: &Dict) -> String {
    match s.below(6) {
        0 => a.to_string(),
        1 => text(s, kind, dict),
        2 | 3 => mutate(s, a),
        _ => match kind {
            9 => match s.below(3) {
                0 => format!("{}{}", a, if a.contains('.') { "000" } else { ".00" }),
                1 => a.replacen('+', "", 1),
                _ if a.starts_with(['-', '+']) => format!("{}0{}", &a[..1], &a[1..]),
                _ => format!("00{}", a),
            },
            10..=14 => match a.strip_prefix('-') {
                Some(b) => format!("-0{}", b),
                None => format!("+0{}", a.trim_start_matches('+')),
            },
            15 | 16 => match s.below(3) {
                0 => a.replacen('P', "P0", 1).replacen("P0T", "PT", 1),
                1 if a.contains('.') => a.replacen('S', "0S", 1),
                _ => match a.strip_prefix('-') {
                    Some(b) => b.to_string(),
                    None => format!("-{}", a),
                },
            },
            7 | 8 => match a.strip_suffix('Z') {
                Some(b) => format!("{}{}", b, s.pick(&["+00:00", "-00:00", ""])),
                // one hour later in a zone one hour ahead
                None => {
                    let d = s.pick(&["Z", "+01:00", "-01:00", "+13:30"]);
                    let k = a.len().min(19);
                    format!("{}{}", &a[..if a.is_char_boundary(k) { k } else { 0 }], d)
                }
            },
            _ => match a.strip_suffix('Z') {
                Some(b) => format!("{}{}", b, s.pick(&["+00:00", "-00:00", "", "+00:01"])),
                None => format!("{}Z", a),
            },
        },
    }
}

fn default_of<T: Default + Display + FromStr + PartialEq + Debug>(name: &str, reff: impl Fn(&str) -> bool) -> Result<(), String> {
    let d = T::default();
    let t = guard(|| d.to_string()).map_err(|e| format!("printing the default {}: {}", name, e))?;
    if !reff(&t) {
        return Err(format!("the default {} prints {:?}, which is no {}", name, t, name));
    }
    match guard(|| t.parse::<T>().ok())? {
        Some(v) if v == d => Ok(()),
        v => Err(format!("the default {} prints {:?}, which reads as {:?}", name, t, v)),
    }
}

fn small_dur(s: &mut Src) -> ([u64; 5], u64, u32) {
    let mut c = [0u64; 5];
    for (i, m) in [5, 12, 28, 24, 60].iter().enumerate() {
        c[i] = match s.below(4) {
            0 => 0,
            1 => m - 1,
            _ => s.below(*m as usize) as u64,
        };
    }
    (c, s.below(60) as u64, *s.pick(&[0u32, 5, 25, 125, 500, 999, 1]))
}

fn dur_spell(d: &([u64; 5], u64, u32)) -> String {
    format!("P{}Y{}M{}DT{}H{}M{}.{:03}S", d.0[0], d.0[1], d.0[2], d.0[3], d.0[4], d.1, d.2)
}

pub fn t10(c: &mut Check) {
    c.rule = "Equality: pairs of texts of one type, the second the same, respelled, one edit away or independent, judged by the independent readers; conversions from and to the calendar and big-number types; order of durations from normalised components. Non-trivial: both texts valid, or any value pair; distinct by texts.".into();
    c.assumptions = vec![
        "Durations that are spelled differently are judged different when a component differs; XSD-equal durations of other components (PT24H, P1D) and a negative zero are not judged equal or different.".into(),
        "Order of durations is judged for non-negative ones with months below 12, days below 28, hours below 24, minutes and seconds below 60; the rest is a known finding.".into(),
    ];
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    c.prop("equality", c.scale(2_400_000, 16_000_000), 120, &move |s, x| {
        let kind = s.below(TYPES);
        let a = text(s, kind, &dict);
        let b = other(s, kind, &a, &dict);
        x.desc(format!("{} {:?} vs {:?}", NAMES[kind], clip(&a, 200), clip(&b, 200)));
        x.key((kind, &a, &b));
        if kind >= 15 {
            // other components, equal in XSD
            if let (Some(p), Some(q)) = (dur_key(&a), dur_key(&b)) {
                let zero = |d: &(bool, [u64; 5], String)| d.1 == [0; 5] && d.2.is_empty();
                if p != q && (zero(&p) && zero(&q) || span(&p) == span(&q)) {
                    x.exclude();
                    return Ok(());
                }
            }
        }
        match equal(kind, &a, &b)? {
            None => (),
            Some(e) => {
                x.nontrivial(true);
                x.label(format!("{} {}", NAMES[kind], if e { "equal" } else { "different" }));
            }
        }
        Ok(())
    });
    c.prop("conversions", c.scale(1_200_000, 8_000_000), 70, &|s, x| {
        x.nontrivial(true);
        match s.below(5) {
            0 => {
                let y = if s.chance(1, 4) { -s.range(1, 9999) } else { s.range(1, 9999) };
                let m = s.range(1, 12);
                let d = s.range(1, r::days_in(y, m));
                x.desc(format!("date {}-{}-{}", y, m, d));
                let n = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
                let v = xs::Date::from_chrono_naive_date(n);
                let b = v.to_chrono_naive_date();
                if (b.year() as i64, b.month() as i64, b.day() as i64) != (y, m, d) || date_v(&v) != (y, m, d, None) {
                    return Err(format!("conversion gives {:?}", v));
                }
                let z = mk_off(Some(s.range(-840, 840) as i32));
                let w = xs::Date { value: n, timezone: z };
                if w.to_chrono_naive_date() != n || w == v {
                    return Err(format!("{:?} converts to {:?}", w, w.to_chrono_naive_date()));
                }
            }
            1 => {
                let (sec, ns) = (s.below(86_400) as u32, if s.flip() { 0 } else { s.range(0, 999_999_999) as u32 });
                x.desc(format!("time {} s {} ns", sec, ns));
                let n = NaiveTime::from_num_seconds_from_midnight_opt(sec, ns).unwrap();
                let v = xs::Time::from_chrono_naive_time(n);
                let b = v.to_chrono_naive_time();
                if (b.num_seconds_from_midnight(), b.nanosecond()) != (sec, ns) || time_v(&v) != (sec as i64, ns as i64, None) {
                    return Err(format!("conversion gives {:?}", v));
                }
            }
            2 => {
                let (t, ns) = (s.range(-62_135_510_400, 253_402_214_400), s.range(0, 999_999_999) as u32);
                let o = s.range(-840, 840) as i32;
                x.desc(format!("instant {} s {} ns {} min", t, ns, o));
                let d = mk_off(Some(o)).unwrap().timestamp_opt(t, ns).single().unwrap();
                for b in [
                    xs::DateTime::from_chrono_datetime(d).to_chrono_datetime(),
                    xs::DateTimeStamp::from_chrono_datetime(d).to_chrono_datetime(),
                ] {
                    if dt_v(&b) != (t, ns as i64, Some(o)) {
                        return Err(format!("conversion gives {:?}", b));
                    }
                }
            }
            3 => {
                let n = if s.chance(1, 6) { 1 + s.below(60) } else { 1 + s.below(6) };
                let w: Vec<u32> = (0..n).map(|_| s.raw()).collect();
                let i = BigInt::from(BigUint::new(w));
                let i = if s.flip() { -i } else { i };
                let sc = if s.chance(1, 6) { s.range(-600, 600) } else { s.range(-40, 60) };
                x.desc(format!("decimal {} scale {}", i, sc));
                let d = BigDecimal::new(i.clone(), sc);
                let v = xs::Decimal::from_bigdecimal(d.clone());
                if v.to_bigdecimal() != d || v.0 != d {
                    return Err(format!("conversion gives {:?}", v));
                }
            }
            _ => {
                let n = if s.chance(1, 6) { 1 + s.below(60) } else { 1 + s.below(8) };
                let w: Vec<u32> = (0..n).map(|_| if s.chance(1, 4) { *s.pick(&[0, 1, u32::MAX]) } else { s.raw() }).collect();
                let u = BigUint::new(w);
                let i = if s.flip() { -BigInt::from(u.clone()) } else { BigInt::from(u.clone()) };
                let neg = -BigInt::from(u.clone());
                x.desc(format!("integer {}", i));
                let ok = xs::Integer::from_bigint(i.clone()).to_bigint() == Some(i.clone())
                    && xs::NonNegativeInteger::from_biguint(u.clone()).to_biguint() == Some(u.clone())
                    && xs::NonPositiveInteger::from_bigint(neg.clone()).to_bigint() == Some(neg.clone())
                    && (u == BigUint::from(0u32)
                        || xs::PositiveInteger::from_biguint(u.clone()).to_biguint() == Some(u.clone())
                            && xs::NegativeInteger::from_bigint(neg.clone()).to_bigint() == Some(neg));
                if !ok {
                    return Err(format!("{} is not converted to itself", i));
                }
            }
        }
        Ok(())
    });
    c.prop("duration_order", c.scale(800_000, 6_000_000), 24, &|s, x| {
        let a = small_dur(s);
        let mut b = if s.flip() { a } else { small_dur(s) };
        let i = s.below(7);
        match i {
            5 => b.1 = s.below(60) as u64,
            6 => b.2 = *s.pick(&[0u32, 4, 5, 6, 999]),
            _ => b.0[i] = s.below([5, 12, 28, 24, 60][i]) as u64,
        }
        let (ta, tb) = (dur_spell(&a), dur_spell(&b));
        x.desc(format!("{} vs {}", ta, tb));
        x.nontrivial(true);
        let want = a.cmp(&b);
        let (va, vb) = (ta.parse::<xs::Duration>()?, tb.parse::<xs::Duration>()?);
        if va.partial_cmp(&vb) != Some(want) || (va == vb) != want.is_eq() || (va < vb) != want.is_lt() || (va >= vb) == want.is_lt() {
            return Err(format!("{} is {:?} to {}, not {:?}", ta, va.partial_cmp(&vb), tb, want));
        }
        Ok(())
    });
    c.case("defaults", |x| {
        x.desc("the default value of every type");
        default_of::<xs::GDay>("gDay", |t| r::gday(t).is_some())?;
        default_of::<xs::GMonth>("gMonth", |t| r::gmonth(t).is_some())?;
        default_of::<xs::GMonthDay>("gMonthDay", |t| r::gmonthday(t).is_some())?;
        default_of::<xs::GYear>("gYear", |t| r::gyear(t).is_some())?;
        default_of::<xs::GYearMonth>("gYearMonth", |t| r::gyearmonth(t).is_some())?;
        default_of::<xs::Date>("date", |t| plain(r::date(t)).is_some())?;
        default_of::<xs::Time>("time", |t| plain(r::time(t)).is_some())?;
        default_of::<xs::DateTime>("dateTime", |t| instant(t).is_some())?;
        default_of::<xs::DateTimeStamp>("dateTimeStamp", |t| stamp(t).is_some())?;
        default_of::<xs::Decimal>("decimal", |t| num(t).is_some())?;
        default_of::<xs::Integer>("integer", |t| r::integer(t).is_some())?;
        default_of::<xs::PositiveInteger>("positiveInteger", |t| int_of(t, false, true, false).is_some())?;
        default_of::<xs::NonNegativeInteger>("nonNegativeInteger", |t| int_of(t, false, true, true).is_some())?;
        default_of::<xs::NegativeInteger>("negativeInteger", |t| int_of(t, true, false, false).is_some())?;
        default_of::<xs::NonPositiveInteger>("nonPositiveInteger", |t| int_of(t, true, false, true).is_some())?;
        x.evals(15);
        x.nontrivial(true);
        Ok(())
    });
    let order = |a: &str, b: &str| guard(|| a.parse::<xs::Duration>().ok()?.partial_cmp(&b.parse::<xs::Duration>().ok()?)).ok().flatten();
    c.finding("duration-sign", "the duration -PT1S compares as greater than PT1S", order("-PT1S", "PT1S") != Some(Ordering::Less));
    c.finding("duration-carry", "the duration PT25H compares as less than P1D", order("PT25H", "P1D") != Some(Ordering::Greater));
}

/// Months and milliseconds, signed, where they are small.
fn span(d: &(bool, [u64; 5], String)) -> Option<(i128, String)> {
    let c = d.1.map(|x| x as i128);
    let (whole, frac) = d.2.split_once('.').unwrap_or(("", ""));
    let w: i128 = if whole.is_empty() { 0 } else { whole.parse().ok()? };
    let months = c[0] * 12 + c[1];
    let secs = ((c[2] * 24 + c[3]) * 60 + c[4]) * 60 + w;
    Some((if d.0 { -months - 1 } else { months }, format!("{} {}.{}", d.0, secs, frac)))
}

fn main() {
    let (_, mut c) = check();
    t10(&mut c);
    c.finish()
}
