//! T01-T04: gregorian fragments, date, time, dateTime, timezones.
use crate::gens::*;
use crate::reference as r;
use crate::reference::Verdict;
use chrono::{Datelike, FixedOffset, NaiveDate, NaiveTime, Offset, TimeZone, Timelike};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use vp_common::*;
use xsd_types::types as xs;

fn off(t: &Option<FixedOffset>) -> Option<i32> {
    t.map(|o| o.fix().local_minus_utc())
}

pub fn mk_off(m: Option<i32>) -> Option<FixedOffset> {
    m.map(|m| FixedOffset::east_opt(m * 60).unwrap())
}

pub trait Frag: FromStr + Display + Debug + PartialEq + Clone {
    const NAME: &'static str;
    fn reference(s: &str) -> Option<r::V>;
    fn value(&self) -> r::V;
    /// Constructor with arbitrary components.
    fn build(y: i64, m: i64, d: i64, tz: Option<i32>) -> Option<Result<Self, String>>;
}

macro_rules! frag {
    ($ty:ident, $name:expr, $reff:path, |$v:ident| $val:expr, |$y:ident, $m:ident, $d:ident, $tz:ident| $build:expr) => {
        impl Frag for xs::$ty {
            const NAME: &'static str = $name;
            fn reference(s: &str) -> Option<r::V> {
                $reff(s)
            }
            fn value(&self) -> r::V {
                let $v = self;
                $val
            }
            #[allow(unused_variables)]
            fn build($y: i64, $m: i64, $d: i64, $tz: Option<i32>) -> Option<Result<Self, String>> {
                $build
            }
        }
    };
}

fn secs_tz(t: &Option<FixedOffset>) -> Option<i32> {
    // whole minutes are guaranteed by the lexical form; keep seconds visible
    t.map(|o| {
        let s = o.local_minus_utc();
        if s % 60 == 0 {
            s / 60
        } else {
            100_000 + s
        }
    })
}

frag!(GDay, "gDay", r::gday, |v| (0, 0, v.value as i64, secs_tz(&v.timezone)),
    |y, m, d, tz| i32::try_from(d).ok().map(|d| xs::GDay::new(d, mk_off(tz))));
frag!(GMonth, "gMonth", r::gmonth, |v| (0, v.value as i64, 0, secs_tz(&v.timezone)),
    |y, m, d, tz| i32::try_from(m).ok().map(|m| xs::GMonth::new(m, mk_off(tz))));
frag!(GMonthDay, "gMonthDay", r::gmonthday, |v| (0, v.month as i64, v.day as i64, secs_tz(&v.timezone)),
    |y, m, d, tz| i32::try_from(m).ok().and_then(|m| i32::try_from(d).ok().map(|d| xs::GMonthDay::new(m, d, mk_off(tz)))));
frag!(GYear, "gYear", r::gyear, |v| (v.value as i64, 0, 0, secs_tz(&v.timezone)),
    |y, m, d, tz| i32::try_from(y).ok().map(|y| xs::GYear::new(y, mk_off(tz))));
frag!(GYearMonth, "gYearMonth", r::gyearmonth, |v| (v.year as i64, v.month as i64, 0, secs_tz(&v.timezone)),
    |y, m, d, tz| i32::try_from(y).ok().and_then(|y| i32::try_from(m).ok().map(|m| xs::GYearMonth::new(y, m, mk_off(tz)))));

fn parse<T: FromStr>(s: &str) -> Result<Option<T>, String> {
    guard(|| s.parse::<T>().ok()).map_err(|e| format!("parsing {:?} panicked: {}", s, e))
}

/// The parse verdict must equal the reference's, and a value must round trip.
pub fn judge_frag<T: Frag>(text: &str) -> Result<bool, String> {
    let want = T::reference(text);
    let got = parse::<T>(text)?;
    match (&want, &got) {
        (None, None) => Ok(false),
        (Some(w), Some(g)) => {
            if g.value() != *w {
                return Err(format!("{} {:?}: value {:?}, expected {:?} (year, month, day, tz minutes)", T::NAME, text, g.value(), w));
            }
            round_frag(g)?;
            Ok(true)
        }
        (Some(w), None) => Err(format!("{}: valid text {:?} (= {:?}) was refused", T::NAME, text, w)),
        (None, Some(g)) => Err(format!("{}: invalid text {:?} was accepted as {:?}", T::NAME, text, g)),
    }
}

pub fn round_frag<T: Frag>(v: &T) -> Result<(), String> {
    let p = guard(|| v.to_string()).map_err(|e| format!("{}: printing {:?}: {}", T::NAME, v, e))?;
    match T::reference(&p) {
        Some(w) if w == v.value() => {}
        o => return Err(format!("{}: {:?} prints {:?}, which the lexical form reads as {:?}", T::NAME, v, p, o)),
    }
    match parse::<T>(&p)? {
        Some(b) if b == *v && b.value() == v.value() => Ok(()),
        o => Err(format!("{}: {:?} prints {:?}, which parses back to {:?}", T::NAME, v, p, o)),
    }
}

pub fn frag_text(s: &mut Src, kind: usize, dict: &Dict) -> String {
    // components mostly valid, sometimes just outside
    let mon = |s: &mut Src| -> String {
        if s.chance(1, 6) {
            s.pick(&["00", "13", "1", "012", "20", "99", "é", "1é", "٣٣"]).to_string()
        } else {
            format!("{:02}", s.range(1, 12))
        }
    };
    let day = |s: &mut Src| -> String {
        if s.chance(1, 6) {
            s.pick(&["00", "32", "1", "012", "30", "31", "99", "€", "é"]).to_string()
        } else {
            format!("{:02}", *s.pick(&[1, 28, 29, 30, 31, 15, 9, 10, 2]))
        }
    };
    let year = |s: &mut Src| -> String {
        let neg = if s.chance(1, 3) { "-" } else { "" };
        let b = match s.below(8) {
            0 => format!("{:04}", s.range(1, 9999)),
            1 => s.pick(&["0000", "0001", "9999", "10000", "99999", "2147483647", "2147483648", "2147483646", "4294967296", "999", "1", "00001", "012345", "00000", ""]).to_string(),
            2 => number(s, dict, 11),
            _ => format!("{:04}", s.range(1, 2100)),
        };
        format!("{}{}", neg, b)
    };
    let tz = if s.chance(1, 5) { tz_any(s) } else { opt_tz_ok(s) };
    let body = match kind {
        0 => format!("---{}", day(s)),
        1 => format!("--{}", mon(s)),
        2 => format!("--{}-{}", mon(s), day(s)),
        3 => year(s),
        _ => format!("{}-{}", year(s), mon(s)),
    };
    let t = format!("{}{}", body, tz);
    match s.below(8) {
        0 | 1 => mutate(s, &t),
        2 if s.flip() => junk(s, 10),
        _ => t,
    }
}

fn all_frags(text: &str) -> Result<bool, String> {
    let mut any = judge_frag::<xs::GDay>(text)?;
    any |= judge_frag::<xs::GMonth>(text)?;
    any |= judge_frag::<xs::GMonthDay>(text)?;
    any |= judge_frag::<xs::GYear>(text)?;
    any |= judge_frag::<xs::GYearMonth>(text)?;
    Ok(any)
}

fn build_check<T: Frag>(y: i64, m: i64, d: i64, tz: Option<i32>) -> Result<bool, String> {
    let ok = match T::NAME {
        "gDay" => (1..=31).contains(&d),
        "gMonth" => (1..=12).contains(&m),
        "gMonthDay" => (1..=12).contains(&m) && d >= 1 && d <= r::month_len(m as i32) as i64,
        "gYear" => y != 0,
        _ => y != 0 && (1..=12).contains(&m),
    };
    match guard(|| T::build(y, m, d, tz)).map_err(|e| format!("{} constructor({},{},{}): {}", T::NAME, y, m, d, e))? {
        None => Ok(false),
        Some(Ok(v)) => {
            if !ok {
                return Err(format!("{} constructor accepted out-of-range ({},{},{}): {:?}", T::NAME, y, m, d, v));
            }
            let used = match T::NAME {
                "gDay" => (0, 0, d, tz),
                "gMonth" => (0, m, 0, tz),
                "gMonthDay" => (0, m, d, tz),
                "gYear" => (y, 0, 0, tz),
                _ => (y, m, 0, tz),
            };
            if v.value() != used {
                return Err(format!("{} constructor({:?}) holds {:?}", T::NAME, used, v.value()));
            }
            round_frag(&v)?;
            Ok(true)
        }
        Some(Err(e)) => {
            if ok {
                return Err(format!("{} constructor refused in-range ({},{},{}): {}", T::NAME, y, m, d, e));
            }
            Ok(false)
        }
    }
}

pub fn t01(c: &mut Check) {
    c.rule = "Texts are built from in-range and just-out-of-range components, suffixes and edits, then judged by an independent recogniser; constructor calls take arbitrary components. Non-trivial: a text or construction that yields a value, or a refused text within three edits of a valid one; distinct by text.".into();
    let dict = source_dict(&[&format!("{}/xsd-types/src", repo())]);
    let d2 = dict.clone();
    c.prop("text", c.scale(6_400_000, 32_000_000), 40, &move |s, x| {
        let k = s.below(5);
        let t = frag_text(s, k, &d2);
        x.desc(format!("{:?}", t));
        let any = all_frags(&t)?;
        x.nontrivial(any || t.len() > 2);
        x.label(if any { "accepted" } else { "refused" });
        Ok(())
    });
    c.prop("construct", c.scale(2_560_000, 12_800_000), 16, &move |s, x| {
        let num = |s: &mut Src| -> i64 {
            match s.below(8) {
                0 => s.range(-5, 40),
                1 => *s.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 1, 0, 1, -1, 999, 1000, 9999, 10000, -9999, -10000, 12, 13, 31, 32]),
                2 => *s.pick(&dict.nums) as i64,
                3 => s.range(i32::MIN as i64, i32::MAX as i64),
                _ => s.range(1, 31),
            }
        };
        let (y, m, d) = (num(s), if s.flip() { s.range(1, 12) } else { num(s) }, num(s));
        let tz = if s.flip() { Some(s.range(-840, 840) as i32) } else { None };
        x.desc(format!("({}, {}, {}, tz {:?})", y, m, d, tz));
        let mut any = build_check::<xs::GDay>(y, m, d, tz)?;
        any |= build_check::<xs::GMonth>(y, m, d, tz)?;
        any |= build_check::<xs::GMonthDay>(y, m, d, tz)?;
        any |= build_check::<xs::GYear>(y, m, d, tz)?;
        any |= build_check::<xs::GYearMonth>(y, m, d, tz)?;
        // component views keep value and timezone
        if let Some(Ok(v)) = xs::GMonthDay::build(y, m, d, tz) {
            if v.clone().gmonth().value() != (0, m, 0, tz) || v.gday().value() != (0, 0, d, tz) {
                return Err("gMonthDay component view differs".into());
            }
        }
        if let Some(Ok(v)) = xs::GYearMonth::build(y, m, d, tz) {
            if v.clone().gyear().value() != (y, 0, 0, tz) || v.gmonth().value() != (0, m, 0, tz) {
                return Err("gYearMonth component view differs".into());
            }
        }
        x.nontrivial(any);
        Ok(())
    });
    near_all(
        c,
        "near",
        &["---01", "---31Z", "---10+05:30", "--12", "--01-05:30", "--02-29", "--10-31Z", "2024", "-0044Z", "12345+01:00", "2024-02", "-0044-03-08:00"],
        &["+", "-", "0", "1", ":", "Z"],
        &|t| all_frags(t).map(|_| ()),
    );
    // Finite parts completely: every two-digit month/day text and every small component.
    c.case("all_month_day", |x| {
        let mut n = 0;
        for a in 0..100 {
            for b in 0..100 {
                for z in ["", "Z", "-14:00", "+14:00", "+00:01", "-14:01"] {
                    judge_frag::<xs::GMonthDay>(&format!("--{:02}-{:02}{}", a, b, z))?;
                    n += 1;
                }
            }
            for z in ["", "Z", "-14:00", "+14:00", "+00:01", "-14:01"] {
                judge_frag::<xs::GDay>(&format!("---{:02}{}", a, z))?;
                judge_frag::<xs::GMonth>(&format!("--{:02}{}", a, z))?;
                n += 2;
            }
        }
        for m in -3..20 {
            for d in -3..40 {
                build_check::<xs::GDay>(1, m, d, None)?;
                build_check::<xs::GMonth>(1, m, d, None)?;
                build_check::<xs::GMonthDay>(1, m, d, None)?;
                build_check::<xs::GYearMonth>(1, m, d, None)?;
                n += 4;
            }
        }
        for y in -12000i64..12000 {
            let t = if y < 0 { format!("-{:04}", -y) } else { format!("{:04}", y) };
            judge_frag::<xs::GYear>(&t)?;
            judge_frag::<xs::GYear>(&format!("{}+05:30", t))?;
            judge_frag::<xs::GYear>(&format!("{}-05:30", t))?;
            judge_frag::<xs::GYearMonth>(&format!("{}-07", t))?;
            judge_frag::<xs::GYearMonth>(&format!("{}-07-05:30", t))?;
            n += 5;
        }
        x.evals(n);
        x.nontrivial(true);
        x.desc("all two-digit months and days, years -12000..12000");
        Ok(())
    });
}

// ---------------------------------------------------------------- T02

pub fn date_v(v: &xs::Date) -> r::V {
    (v.value.year() as i64, v.value.month() as i64, v.value.day() as i64, secs_tz(&v.timezone))
}
pub fn time_v(v: &xs::Time) -> r::TV {
    (v.value.num_seconds_from_midnight() as i64, v.value.nanosecond() as i64, secs_tz(&v.timezone))
}

fn judge_v<T: FromStr + Display + Debug + PartialEq, V: PartialEq + Debug>(
    name: &str,
    text: &str,
    want: Verdict<V>,
    val: impl Fn(&T) -> V,
    reff: impl Fn(&str) -> Verdict<V>,
) -> Result<bool, String> {
    let got = parse::<T>(text)?;
    match (&want, &got) {
        (Verdict::Unjudged, _) => Ok(false),
        (Verdict::Invalid, None) => Ok(false),
        (Verdict::Invalid, Some(g)) => Err(format!("{}: malformed text {:?} was accepted as {:?}", name, text, g)),
        (Verdict::Valid(w), None) => Err(format!("{}: valid text {:?} (= {:?}) was refused", name, text, w)),
        (Verdict::Valid(w), Some(g)) => {
            if val(g) != *w {
                return Err(format!("{} {:?}: value {:?}, expected {:?}", name, text, val(g), w));
            }
            round_v(name, g, &val, &reff)?;
            Ok(true)
        }
    }
}

fn round_v<T: FromStr + Display + Debug + PartialEq, V: PartialEq + Debug>(
    name: &str,
    g: &T,
    val: &impl Fn(&T) -> V,
    reff: &impl Fn(&str) -> Verdict<V>,
) -> Result<(), String> {
    let p = guard(|| g.to_string()).map_err(|e| format!("{}: printing {:?}: {}", name, g, e))?;
    if reff(&p) != Verdict::Valid(val(g)) {
        return Err(format!("{}: {:?} (= {:?}) prints {:?}, read by the lexical form as {:?}", name, g, val(g), p, reff(&p)));
    }
    match parse::<T>(&p)? {
        Some(b) if b == *g && val(&b) == val(g) => Ok(()),
        o => Err(format!("{}: {:?} prints {:?}, which parses back to {:?}", name, g, p, o)),
    }
}

pub fn date_text(s: &mut Src) -> String {
    let neg = if s.chance(1, 4) { "-" } else { "" };
    let y = match s.below(6) {
        0 => *s.pick(&[1, 4, 100, 400, 1600, 1900, 2000, 9999, 1999, 2024]),
        _ => s.range(1, 9999),
    };
    let m = if s.chance(1, 10) { *s.pick(&[0, 13, 20, 99]) } else { s.range(1, 12) };
    let d = if s.chance(1, 3) { *s.pick(&[28, 29, 30, 31, 32, 0, 99]) } else { s.range(1, 28) };
    let tz = if s.chance(1, 8) { tz_any(s) } else { opt_tz_ok(s) };
    format!("{}{:04}-{:02}-{:02}{}", neg, y, m, d, tz)
}

fn frac(s: &mut Src) -> String {
    match s.below(4) {
        0 | 1 => String::new(),
        2 => {
            let n = 1 + s.below(9);
            format!(".{}", dig(s, n))
        }
        _ => s.pick(&[".0", ".000000001", ".999999999", ".1", ".100", ".001", ".000001", ".5", ".123456", ".12345", ".000000010"]).to_string(),
    }
}

pub fn time_body(s: &mut Src) -> String {
    let h = if s.chance(1, 12) { *s.pick(&[24, 25, 60, 99]) } else { s.range(0, 23) };
    let m = if s.chance(1, 12) { *s.pick(&[60, 61, 99]) } else { s.range(0, 59) };
    let c = if s.chance(1, 12) { *s.pick(&[60, 61, 62, 99]) } else { s.range(0, 59) };
    format!("{:02}:{:02}:{:02}{}", h, m, c, frac(s))
}

fn drop_add(s: &mut Src, t: String, sep: char) -> String {
    // missing or extra components
    let p: Vec<&str> = t.split(sep).collect();
    match s.below(3) {
        0 if p.len() > 1 => {
            let i = s.below(p.len());
            let q: Vec<&str> = p.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, v)| *v).collect();
            q.join(&sep.to_string())
        }
        1 => {
            let i = s.below(p.len());
            let mut q = p.clone();
            q.insert(i, p[i]);
            q.join(&sep.to_string())
        }
        _ => format!("{}{}{:02}", t, sep, s.below(60)),
    }
}

pub fn t02(c: &mut Check) {
    c.rule = "Literals are built from field values (years -9999..9999, in-range and just-outside months, days, hours, minutes, seconds, 0 to 9 fraction digits, every whole-minute offset), with components dropped, repeated or edited; values are also built directly. Judged by an independent recogniser with a civil calendar. Non-trivial: a text that is valid, or invalid only by range, count or a few edits; distinct by text.".into();
    c.assumptions = vec!["Spellings the statement neither promises nor refuses are not judged: blanks inside, missing zero padding, leading plus, year 0 or more than four digits, second 60, 24:00:00, more than nine fraction digits.".into()];
    let judge_date = |t: &str| judge_v::<xs::Date, r::V>("date", t, r::date(t), date_v, r::date);
    let judge_time = |t: &str| judge_v::<xs::Time, r::TV>("time", t, r::time(t), time_v, r::time);
    c.prop("date_text", c.scale(3_840_000, 19_200_000), 30, &|s, x| {
        let mut t = date_text(s);
        match s.below(8) {
            0 | 1 => t = mutate(s, &t),
            2 => t = drop_add(s, t, '-'),
            3 if s.chance(1, 3) => t = junk(s, 14),
            _ => {}
        }
        x.desc(format!("date {:?}", t));
        let ok = judge_date(&t)?;
        x.nontrivial(t.len() > 4 && r::date(&t) != Verdict::Unjudged);
        x.label(match r::date(&t) {
            Verdict::Valid(_) => "valid",
            Verdict::Invalid => "invalid",
            _ => "unjudged",
        });
        let _ = ok;
        Ok(())
    });
    c.prop("time_text", c.scale(3_840_000, 19_200_000), 34, &|s, x| {
        let b = time_body(s);
        let z = if s.chance(1, 8) { tz_any(s) } else { opt_tz_ok(s) };
        let mut t = format!("{}{}", b, z);
        match s.below(8) {
            0 | 1 => t = mutate(s, &t),
            2 => t = format!("{}{}", drop_add(s, b, ':'), z),
            3 if s.chance(1, 3) => t = junk(s, 14),
            _ => {}
        }
        x.desc(format!("time {:?}", t));
        judge_time(&t)?;
        x.nontrivial(t.len() > 4 && r::time(&t) != Verdict::Unjudged);
        x.label(match r::time(&t) {
            Verdict::Valid(_) => "valid",
            Verdict::Invalid => "invalid",
            _ => "unjudged",
        });
        Ok(())
    });
    c.prop("values", c.scale(2_560_000, 12_800_000), 16, &|s, x| {
        let y = if s.chance(1, 4) { -s.range(1, 9999) } else { s.range(1, 9999) };
        let m = s.range(1, 12);
        let d = s.range(1, r::days_in(y, m));
        let tz = if s.flip() { Some(s.range(-840, 840) as i32) } else { None };
        let nd = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
        let v = xs::Date { value: nd, timezone: mk_off(tz) };
        let h = s.range(0, 86399);
        let n = match s.below(4) {
            0 => 0,
            1 => *s.pick(&[1i64, 10, 100, 1000, 999, 1_000_000, 999_999_999, 500_000_000, 1_000, 120_000, 999_000]),
            _ => s.range(0, 999_999_999),
        };
        let nt = NaiveTime::from_num_seconds_from_midnight_opt(h as u32, n as u32).unwrap();
        let t = xs::Time { value: nt, timezone: mk_off(tz) };
        x.desc(format!("{:?} {:?}", v, t));
        x.nontrivial(true);
        round_v("date", &v, &date_v, &r::date)?;
        round_v("time", &t, &time_v, &r::time)?;
        if xs::Date::from_chrono_naive_date(nd).to_chrono_naive_date() != nd
            || date_v(&xs::Date::from_chrono_naive_date(nd)) != (y, m, d, None)
            || v.to_chrono_naive_date() != nd
        {
            return Err("date conversion changes the value".into());
        }
        if xs::Time::from_chrono_naive_time(nt).to_chrono_naive_time() != nt
            || time_v(&xs::Time::from_chrono_naive_time(nt)) != (h, n, None)
            || t.to_chrono_naive_time() != nt
        {
            return Err("time conversion changes the value".into());
        }
        Ok(())
    });
    let few = ["+", "-", "0", "1", ":", "."];
    near_all(c, "near_date", &["2024-02-29", "-0044-03-15Z", "1999-12-31-05:30"], &few, &|t| judge_date(t).map(|_| ()));
    near_all(c, "near_time", &["23:59:59", "10:10:10Z", "00:00:00.123", "12:30:01.5+01:00"], &few, &|t| judge_time(t).map(|_| ()));
    // Finite: every day of a 400-year cycle, every second of a day.
    c.case("all_days_seconds", |x| {
        let mut n = 0;
        for y in (1590i64..2010).step_by(1) {
            for m in 1..=12i64 {
                for d in 1..=32i64 {
                    let t = format!("{:04}-{:02}-{:02}", y, m, d);
                    if (27..=32).contains(&d) || d == 1 {
                        judge_date(&t)?;
                        n += 1;
                    }
                }
            }
        }
        for sec in 0..86400i64 {
            let t = format!("{:02}:{:02}:{:02}", sec / 3600, sec / 60 % 60, sec % 60);
            if sec % 7 == 0 || sec % 60 > 58 {
                judge_time(&t)?;
                n += 1;
            }
        }
        x.evals(n);
        x.nontrivial(true);
        x.desc("month ends of 1590-2009, a seventh of all seconds of the day");
        Ok(())
    });
}

// ---------------------------------------------------------------- T03

pub fn dt_v(v: &chrono::DateTime<FixedOffset>) -> (i64, i64, Option<i32>) {
    (v.timestamp(), v.timestamp_subsec_nanos() as i64, secs_tz(&Some(*v.offset())))
}

fn dt_text(s: &mut Src, with_tz: bool) -> String {
    let y = match s.below(5) {
        0 => *s.pick(&[1, 4, 100, 1600, 1969, 1970, 2000, 9999, 1900]),
        _ => s.range(1, 9999),
    };
    let m = if s.chance(1, 16) { *s.pick(&[0, 13, 99]) } else { s.range(1, 12) };
    let d = if s.chance(1, 4) { *s.pick(&[28, 29, 30, 31, 32, 0]) } else { s.range(1, 28) };
    let tz = if !with_tz {
        String::new()
    } else if s.chance(1, 8) {
        tz_any(s)
    } else {
        opt_tz_ok(s)
    };
    format!("{:04}-{:02}-{:02}T{}{}", y, m, d, time_body(s), tz)
}

fn judge_dt(t: &str) -> Result<(), String> {
    let want = r::datetime(t);
    let plain = |s: &str| match r::datetime(s) {
        Verdict::Valid((a, b, z)) => Verdict::Valid((a, b, Some(z.unwrap_or(0)))),
        Verdict::Invalid => Verdict::Invalid,
        Verdict::Unjudged => Verdict::Unjudged,
    };
    judge_v::<xs::DateTime, _>("dateTime", t, plain(t), |v| dt_v(&v.to_chrono_datetime()), plain)?;
    let stamp = |s: &str| match r::datetime(s) {
        Verdict::Valid((_, _, None)) => Verdict::Invalid,
        o => o,
    };
    let _ = want;
    judge_v::<xs::DateTimeStamp, _>("dateTimeStamp", t, stamp(t), |v| dt_v(&v.to_chrono_datetime()), stamp)?;
    Ok(())
}

pub fn t03(c: &mut Check) {
    c.rule = "Literals from in-range and just-outside fields, 0 to 9 fraction digits, every offset or none, with edits; values built directly; pairs of values for the order. Judged by an independent recogniser and civil-calendar arithmetic. Non-trivial: judged text longer than ten characters, or any value pair; distinct by text.".into();
    c.assumptions = vec!["Not judged: RFC 3339 liberties (lower case, blank separator), second 60, 24:00:00, offsets between 14:01 and 23:59, more than nine fraction digits, years other than 0001-9999.".into()];
    c.prop("text", c.scale(5_120_000, 25_600_000), 40, &|s, x| {
        let mut t = dt_text(s, true);
        match s.below(8) {
            0 | 1 => t = mutate(s, &t),
            2 => {
                let sep = *s.pick(&['-', ':', 'T']);
                t = drop_add(s, t, sep)
            }
            3 if s.chance(1, 3) => t = junk(s, 26),
            _ => {}
        }
        x.desc(format!("{:?}", t));
        judge_dt(&t)?;
        let v = r::datetime(&t);
        x.nontrivial(t.len() > 10 && v != Verdict::Unjudged);
        x.label(match v {
            Verdict::Valid((_, _, Some(_))) => "valid with offset",
            Verdict::Valid(_) => "valid without offset",
            Verdict::Invalid => "invalid",
            _ => "unjudged",
        });
        Ok(())
    });
    let few = ["+", "-", "0", ":", "."];
    near_all(c, "near", &["2024-02-29T23:59:59", "1999-12-31T10:10:10Z", "2000-01-01T00:00:00.5-05:30"], &few, &|t| judge_dt(t).map(|_| ()));
    c.prop("order", c.scale(2_560_000, 12_800_000), 24, &|s, x| {
        let base = s.range(-62_135_510_400, 253_402_214_400);
        let n1 = s.range(0, 999_999_999) as u32;
        let o1 = s.range(-840, 840) as i32;
        let (b2, n2) = match s.below(5) {
            0 => (base, n1),
            1 => (base, if n1 > 0 { n1 - 1 } else { 1 }),
            2 => (base + s.range(-1, 1), n1),
            3 => (base + s.range(-50_000, 50_000), s.range(0, 999_999_999) as u32),
            _ => (s.range(-62_135_510_400, 253_402_214_400), n1),
        };
        let o2 = s.range(-840, 840) as i32;
        let mk = |t: i64, n: u32, o: i32| {
            FixedOffset::east_opt(o * 60).unwrap().timestamp_opt(t, n).single().unwrap()
        };
        let in_years = |v: &chrono::DateTime<FixedOffset>| (1..=9999).contains(&v.year());
        let (a, b) = (mk(base, n1, o1), mk(b2, n2, o2));
        if !in_years(&a) || !in_years(&b) {
            return Ok(());
        }
        x.desc(format!("{} vs {}", a, b));
        x.nontrivial(true);
        let (va, vb) = (xs::DateTime::from_chrono_datetime(a), xs::DateTime::from_chrono_datetime(b));
        let want = (base, n1).cmp(&(b2, n2));
        if va.partial_cmp(&vb) != Some(want) || (va == vb) != want.is_eq() {
            return Err(format!("dateTime order {:?}, instants say {:?}", va.partial_cmp(&vb), want));
        }
        let (sa, sb) = (xs::DateTimeStamp::from_chrono_datetime(a), xs::DateTimeStamp::from_chrono_datetime(b));
        if sa.partial_cmp(&sb) != Some(want) || (sa == sb) != want.is_eq() {
            return Err(format!("dateTimeStamp order {:?}, instants say {:?}", sa.partial_cmp(&sb), want));
        }
        let vv = |v: &xs::DateTime| dt_v(&v.to_chrono_datetime());
        let vs = |v: &xs::DateTimeStamp| dt_v(&v.to_chrono_datetime());
        let plain = |s: &str| match r::datetime(s) {
            Verdict::Valid((a, b, z)) => Verdict::Valid((a, b, Some(z.unwrap_or(0)))),
            o => o,
        };
        if vv(&va) != (base, n1 as i64, Some(o1)) {
            return Err(format!("conversion changed the value: {:?}", vv(&va)));
        }
        round_v("dateTime", &va, &vv, &plain)?;
        round_v("dateTimeStamp", &sa, &vs, &r::datetime)?;
        Ok(())
    });
}

// ---------------------------------------------------------------- T04

/// (type name, body text without suffix, parse to offset, print of parsed)
type TzProbe = (&'static str, &'static [&'static str], fn(&str) -> Result<Option<(Option<i32>, String)>, String>);

macro_rules! probe {
    ($ty:ident, $name:expr, $bodies:expr) => {
        ($name, $bodies, |t: &str| {
            guard(|| t.parse::<xs::$ty>().ok().map(|v| (off(&v.timezone), v.to_string())))
                .map_err(|e| format!("{} {:?}: {}", $name, t, e))
        })
    };
}

const PROBES: &[TzProbe] = &[
    probe!(Date, "date", &["2024-02-29", "-0044-03-15", "0001-01-01", "9999-12-31"]),
    probe!(Time, "time", &["00:00:00", "23:59:59", "12:34:56.789"]),
    probe!(GDay, "gDay", &["---01", "---31"]),
    probe!(GMonth, "gMonth", &["--01", "--12"]),
    probe!(GMonthDay, "gMonthDay", &["--02-29", "--12-31"]),
    probe!(GYear, "gYear", &["2024", "-0044", "12345"]),
    probe!(GYearMonth, "gYearMonth", &["2024-02", "-0044-03", "12345-12"]),
];

fn judge_suffix(sfx: &str) -> Result<bool, String> {
    let want = r::tz(sfx);
    let got = guard(|| xs::utils::parse_timezone(sfx)).map_err(|e| format!("timezone reader on {:?}: {}", sfx, e))?;
    match (&want, &got) {
        (Some(m), Ok(o)) if o.local_minus_utc() == m * 60 => {}
        (None, Err(_)) => {}
        _ => return Err(format!("timezone reader on {:?}: {:?}, expected {:?} minutes", sfx, got, want)),
    }
    if sfx.is_empty() {
        return Ok(false);
    }
    // A suffix made of digits, fraction or dashes could complete a longer body:
    // only judge suffixes that cannot extend it.
    let extends = sfx.chars().next().map(|c| c.is_ascii_digit() || c == '.' || c.is_whitespace()).unwrap_or(true)
        || sfx.chars().last().map(|c| c.is_whitespace()).unwrap_or(false)
        || (want.is_none() && sfx.starts_with('-') && sfx[1..].chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false) && !sfx.contains(':'))
        || sfx.chars().any(|c| c.is_whitespace());
    for (name, bodies, f) in PROBES {
        for b in *bodies {
            if want.is_none() && extends {
                continue;
            }
            let t = format!("{}{}", b, sfx);
            let got = f(&t)?;
            match (&want, &got) {
                (Some(m), Some((o, p))) => {
                    if *o != Some(m * 60) {
                        return Err(format!("{} {:?}: offset {:?} s, expected {} min", name, t, o, m));
                    }
                    // the printed suffix must read back as the same offset
                    match f(p)? {
                        Some((o2, _)) if o2 == Some(m * 60) => {}
                        o2 => return Err(format!("{} {:?} prints {:?}, whose offset reads {:?}", name, t, p, o2)),
                    }
                }
                (None, None) => {}
                (None, Some((o, _))) => return Err(format!("{} accepted {:?} with bad suffix {:?} (offset {:?} s)", name, t, sfx, o)),
                (Some(_), None) => return Err(format!("{} refused {:?} with good suffix {:?}", name, t, sfx)),
            }
        }
    }
    Ok(want.is_some())
}

pub fn t04(c: &mut Check) {
    c.rule = "Every sign with every two-digit hour and minute is tried as a suffix of every carrying type (complete), plus generated suffix strings: near-misses, doubled suffixes, multi-byte characters. Non-trivial: an accepted suffix, or a refused one of two or more characters; distinct by suffix.".into();
    c.case("all_offsets", |x| {
        let mut n = 0;
        for sg in ["+", "-"] {
            for h in 0..100 {
                for m in 0..100 {
                    judge_suffix(&format!("{}{:02}:{:02}", sg, h, m))?;
                    n += 1;
                }
            }
        }
        judge_suffix("Z")?;
        x.evals(n);
        x.nontrivial(true);
        x.desc("sign x 00..99 : 00..99 for 7 types");
        Ok(())
    });
    c.prop("suffix", c.scale(1_920_000, 9_600_000), 20, &|s, x| {
        let t = tz_any(s);
        x.desc(format!("{:?}", t));
        let ok = judge_suffix(&t)?;
        x.nontrivial(ok || t.len() > 1);
        x.label(if ok { "good" } else { "bad" });
        Ok(())
    });
    near_all(c, "near", &["Z", "+05:30", "-14:00", "+00:00", "-00:01"], &["+", "-", "0", "1", ":", "Z"], &|t| judge_suffix(t).map(|_| ()));
    // dateTime/dateTimeStamp read the same offsets
    c.case("datetime_offsets", |x| {
        for m in -840..=840 {
            for b in ["2024-02-29T12:00:00", "1999-12-31T23:59:59.5"] {
                let t = format!("{}{}", b, fmt_tz(m));
                let v = parse::<xs::DateTime>(&t)?.ok_or(format!("dateTime refused {:?}", t))?;
                let w = parse::<xs::DateTimeStamp>(&t)?.ok_or(format!("dateTimeStamp refused {:?}", t))?;
                for (n, o) in [("dateTime", v.to_chrono_datetime()), ("dateTimeStamp", w.to_chrono_datetime())] {
                    if o.offset().local_minus_utc() != m * 60 {
                        return Err(format!("{} {:?}: offset {}", n, t, o.offset()));
                    }
                }
                let p = v.to_string();
                let b = parse::<xs::DateTime>(&p)?.ok_or(format!("dateTime print {:?} refused", p))?;
                if b.to_chrono_datetime().offset().local_minus_utc() != m * 60 {
                    return Err(format!("dateTime {:?} prints {:?}", t, p));
                }
            }
        }
        x.evals(1681 * 2 - 1);
        x.nontrivial(true);
        x.desc("all 1681 offsets on dateTime and dateTimeStamp");
        Ok(())
    });
}
