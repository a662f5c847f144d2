//! Reference recognisers for the XSD lexical forms, written from the XSD
//! specification, independently of the code under test.

pub fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

/// `Z` or (+|-)hh:mm, magnitude at most 14:00. Minutes east of UTC.
pub fn tz(s: &str) -> Option<i32> {
    if s == "Z" {
        return Some(0);
    }
    let b = s.as_bytes();
    if b.len() != 6 || !s.is_ascii() || b[3] != b':' {
        return None;
    }
    let sign = match b[0] {
        b'+' => 1,
        b'-' => -1,
        _ => return None,
    };
    if !digits(&s[1..3]) || !digits(&s[4..6]) {
        return None;
    }
    let h: i32 = s[1..3].parse().unwrap();
    let m: i32 = s[4..6].parse().unwrap();
    if m > 59 || h * 60 + m > 840 {
        return None;
    }
    Some(sign * (h * 60 + m))
}

pub fn opt_tz(s: &str) -> Option<Option<i32>> {
    if s.is_empty() {
        Some(None)
    } else {
        tz(s).map(Some)
    }
}

fn split(s: &str, n: usize) -> Option<(&str, &str)> {
    if s.is_char_boundary(n) && s.len() >= n {
        Some((&s[..n], &s[n..]))
    } else {
        None
    }
}

fn two(s: &str) -> Option<i32> {
    if s.len() == 2 && digits(s) {
        s.parse().ok()
    } else {
        None
    }
}

pub fn month_len(m: i32) -> i32 {
    [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
}

pub type V = (i64, i64, i64, Option<i32>);

pub fn gday(s: &str) -> Option<V> {
    let r = s.strip_prefix("---")?;
    let (d, t) = split(r, 2)?;
    let d = two(d)?;
    if !(1..=31).contains(&d) {
        return None;
    }
    Some((0, 0, d as i64, opt_tz(t)?))
}

pub fn gmonth(s: &str) -> Option<V> {
    let r = s.strip_prefix("--")?;
    let (m, t) = split(r, 2)?;
    let m = two(m)?;
    if !(1..=12).contains(&m) {
        return None;
    }
    Some((0, m as i64, 0, opt_tz(t)?))
}

pub fn gmonthday(s: &str) -> Option<V> {
    let r = s.strip_prefix("--")?;
    let (m, r) = split(r, 2)?;
    let m = two(m)?;
    let r = r.strip_prefix('-')?;
    let (d, t) = split(r, 2)?;
    let d = two(d)?;
    if !(1..=12).contains(&m) || !(1..=31).contains(&d) || d > month_len(m) {
        return None;
    }
    Some((0, m as i64, d as i64, opt_tz(t)?))
}

/// Year part: optional minus, at least four digits; returns (value, rest).
fn year(s: &str) -> Option<(i64, &str)> {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let n = r.bytes().take_while(|b| b.is_ascii_digit()).count();
    if n < 4 {
        return None;
    }
    let v: i64 = r[..n].trim_start_matches('0').parse::<i64>().ok()?;
    if v == 0 {
        return None;
    }
    let v = if neg { -v } else { v };
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return None;
    }
    Some((v, &r[n..]))
}

pub fn gyear(s: &str) -> Option<V> {
    let (y, t) = year(s)?;
    Some((y, 0, 0, opt_tz(t)?))
}

pub fn gyearmonth(s: &str) -> Option<V> {
    let (y, r) = year(s)?;
    let r = r.strip_prefix('-')?;
    let (m, t) = split(r, 2)?;
    let m = two(m)?;
    if !(1..=12).contains(&m) {
        return None;
    }
    Some((y, m as i64, 0, opt_tz(t)?))
}

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn days_in(y: i64, m: i64) -> i64 {
    if m == 2 && !leap(y) {
        28
    } else {
        month_len(m as i32) as i64
    }
}

/// What the reference says about a text.
#[derive(Debug, Clone, PartialEq)]
pub enum Verdict<T> {
    Valid(T),
    /// Outside the property's domain (spellings neither promised nor refused).
    Unjudged,
    Invalid,
}

/// Strict xs:date with exactly four year digits, year nonzero.
pub fn date(s: &str) -> Verdict<V> {
    let strict = || -> Option<V> {
        let (neg, r) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let (y, r) = split(r, 4)?;
        if !digits(y) {
            return None;
        }
        let y: i64 = y.parse().ok()?;
        let y = if neg { -y } else { y };
        if y == 0 {
            return None;
        }
        let (m, r) = split(r.strip_prefix('-')?, 2)?;
        let m = two(m)? as i64;
        let (d, t) = split(r.strip_prefix('-')?, 2)?;
        let d = two(d)? as i64;
        if !(1..=12).contains(&m) || d < 1 || d > days_in(y, m) {
            return None;
        }
        Some((y, m, d, opt_tz(t)?))
    };
    if let Some(v) = strict() {
        return Verdict::Valid(v);
    }
    // Lenient spellings that are not judged: blanks, missing zero padding,
    // explicit plus, other year widths, year zero.
    let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let b = t.strip_prefix(['-', '+']).unwrap_or(&t);
    let neg = t.starts_with('-');
    let n = b.bytes().take_while(|b| b.is_ascii_digit()).count();
    let lenient = || -> Option<()> {
        if n == 0 || n > 9 {
            return None;
        }
        let y: i64 = b[..n].parse().ok()?;
        let y = if neg { -y } else { y };
        let r = b[n..].strip_prefix('-')?;
        let k = r.bytes().take_while(|b| b.is_ascii_digit()).count();
        let m: i64 = r[..k].parse().ok()?;
        let r = r[k..].strip_prefix('-')?;
        let k = r.bytes().take_while(|b| b.is_ascii_digit()).count();
        let d: i64 = r[..k].parse().ok()?;
        opt_tz(&r[k..])?;
        if (1..=12).contains(&m) && d >= 1 && d <= days_in(y, m) {
            Some(())
        } else {
            None
        }
    };
    if lenient().is_some() {
        return Verdict::Unjudged;
    }
    Verdict::Invalid
}

/// (seconds of day, nanoseconds, tz)
pub type TV = (i64, i64, Option<i32>);

pub fn hms(s: &str) -> Option<(i64, i64, &str)> {
    let (h, r) = split(s, 2)?;
    let (m, r) = split(r.strip_prefix(':')?, 2)?;
    let (sec, mut r) = split(r.strip_prefix(':')?, 2)?;
    let (h, m, sec) = (two(h)?, two(m)?, two(sec)?);
    if h > 23 || m > 59 || sec > 59 {
        return None;
    }
    let mut nanos = 0i64;
    if let Some(f) = r.strip_prefix('.') {
        let n = f.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n == 0 || n > 9 {
            return None;
        }
        nanos = format!("{:0<9}", &f[..n]).parse().ok()?;
        r = &f[n..];
    }
    Some(((h * 3600 + m * 60 + sec) as i64, nanos, r))
}

pub fn time(s: &str) -> Verdict<TV> {
    if let Some((sec, n, r)) = hms(s) {
        if let Some(t) = opt_tz(r) {
            return Verdict::Valid((sec, n, t));
        }
    }
    let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let lenient = || -> Option<()> {
        let k = t.find(|c: char| c == 'Z' || c == '+' || c == '-').unwrap_or(t.len());
        let (b, z) = t.split_at(k);
        opt_tz(z)?;
        let p: Vec<&str> = b.split(':').collect();
        if p.len() != 3 {
            return None;
        }
        let (sec, frac) = match p[2].split_once('.') {
            Some((a, b)) => (a, b),
            None => (p[2], ""),
        };
        if !frac.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        for x in [p[0], p[1], sec] {
            if !digits(x) || x.len() > 2 {
                return None;
            }
        }
        let (h, m, sc): (i32, i32, i32) =
            (p[0].parse().ok()?, p[1].parse().ok()?, sec.parse().ok()?);
        if h <= 24 && m <= 59 && sc <= 60 {
            if h == 24 && (m, sc) != (0, 0) {
                return None;
            }
            Some(())
        } else {
            None
        }
    };
    if lenient().is_some() {
        return Verdict::Unjudged;
    }
    Verdict::Invalid
}

/// Days from civil (proleptic Gregorian), days since 1970-01-01.
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// (unix seconds, nanos, offset minutes if written)
pub fn datetime(s: &str) -> Verdict<(i64, i64, Option<i32>)> {
    let strict = || -> Option<(i64, i64, Option<i32>)> {
        let (y, r) = split(s, 4)?;
        if !digits(y) {
            return None;
        }
        let y: i64 = y.parse().ok()?;
        if y == 0 {
            return None;
        }
        let (m, r) = split(r.strip_prefix('-')?, 2)?;
        let m = two(m)? as i64;
        let (d, r) = split(r.strip_prefix('-')?, 2)?;
        let d = two(d)? as i64;
        if !(1..=12).contains(&m) || d < 1 || d > days_in(y, m) {
            return None;
        }
        let (sec, n, r) = hms(r.strip_prefix('T')?)?;
        let t = opt_tz(r)?;
        let local = days_from_civil(y, m, d) * 86400 + sec;
        Some((local - t.unwrap_or(0) as i64 * 60, n, t))
    };
    if let Some(v) = strict() {
        return Verdict::Valid(v);
    }
    // Unjudged spellings: RFC 3339 liberties (case, blank or several blanks as
    // separator), second 60, 24:00:00, offsets between 14:00 and 23:59, long
    // fractions, signs and other year widths, year zero.
    let up: String = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c }).collect();
    let up = up.trim().to_string();
    let lenient = || -> Option<()> {
        let k = up.find(|c: char| c == 'T' || c == ' ')?;
        let (dt, r) = (&up[..k], up[k + 1..].trim_start());
        match date(dt.trim()) {
            Verdict::Invalid => return None,
            Verdict::Valid((_, _, _, z)) if z.is_some() => return None,
            _ => {}
        }
        if dt.contains('Z') {
            return None;
        }
        let k = r.find(|c: char| c == 'Z' || c == '+' || c == '-').unwrap_or(r.len());
        let (b, z) = r.split_at(k);
        if time(b.trim()) == Verdict::Invalid {
            return None;
        }
        if z.is_empty() || z == "Z" {
            return Some(());
        }
        let z = z.replace(' ', "");
        let body: String = z[1..].chars().filter(|c| *c != ':').collect();
        if body.len() == 4 && digits(&body) && &body[..2] <= "23" && &body[2..] <= "59" {
            Some(())
        } else {
            None
        }
    };
    if lenient().is_some() {
        return Verdict::Unjudged;
    }
    Verdict::Invalid
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Dur {
    pub neg: bool,
    /// years, months, days, hours, minutes: digit strings
    pub c: [Option<String>; 5],
    /// seconds: integer digits and fraction digits
    pub s: Option<(String, String)>,
}

/// Grammar of xs:duration (non-empty text).
pub fn duration(s: &str) -> Option<Dur> {
    let mut d = Dur::default();
    let mut r = s;
    if let Some(x) = r.strip_prefix('-') {
        d.neg = true;
        r = x;
    }
    r = r.strip_prefix('P')?;
    let (date, time) = match r.split_once('T') {
        Some((a, b)) => {
            if b.is_empty() {
                return None;
            }
            (a, Some(b))
        }
        None => (r, None),
    };
    let mut any = false;
    let mut rest = date;
    for (i, des) in ['Y', 'M', 'D'].iter().enumerate() {
        let n = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
        if n > 0 && rest[n..].starts_with(*des) {
            d.c[i] = Some(rest[..n].into());
            rest = &rest[n + 1..];
            any = true;
        }
    }
    if !rest.is_empty() {
        return None;
    }
    if let Some(t) = time {
        let mut rest = t;
        let mut tany = false;
        for (i, des) in ['H', 'M'].iter().enumerate() {
            let n = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
            if n > 0 && rest[n..].starts_with(*des) {
                d.c[3 + i] = Some(rest[..n].into());
                rest = &rest[n + 1..];
                tany = true;
            }
        }
        if let Some(b) = rest.strip_suffix('S') {
            let (a, f) = match b.split_once('.') {
                Some((a, f)) => {
                    if !digits(f) {
                        return None;
                    }
                    (a, f)
                }
                None => (b, ""),
            };
            if !digits(a) {
                return None;
            }
            d.s = Some((a.into(), f.into()));
            rest = "";
            tany = true;
        }
        if !rest.is_empty() || !tany {
            return None;
        }
        any = true;
    }
    if any {
        Some(d)
    } else {
        None
    }
}

/// Integer literal: sign and digits without leading zeros ("" for zero).
pub fn integer(s: &str) -> Option<(bool, String)> {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    if !digits(r) {
        return None;
    }
    let v = r.trim_start_matches('0').to_string();
    Some((neg && !v.is_empty(), v))
}

/// Decimal literal: (negative, digits without leading/trailing zeros, exponent
/// of the last digit); zero is (false, "", 0).
pub fn decimal(s: &str) -> Option<(bool, String, i64)> {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (i, f) = match r.split_once('.') {
        Some((i, f)) => (i, f),
        None => (r, ""),
    };
    if i.is_empty() && f.is_empty() {
        return None;
    }
    if !i.bytes().all(|b| b.is_ascii_digit()) || !f.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    Some(norm_decimal(neg, &format!("{}{}", i, f), -(f.len() as i64)))
}

pub fn norm_decimal(neg: bool, all: &str, mut exp: i64) -> (bool, String, i64) {
    let mut v = all.trim_start_matches('0').to_string();
    while v.ends_with('0') {
        v.pop();
        exp += 1;
    }
    if v.is_empty() {
        (false, v, 0)
    } else {
        (neg, v, exp)
    }
}

/// Three-way comparison of normalised decimals.
pub fn cmp_decimal(a: &(bool, String, i64), b: &(bool, String, i64)) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let sgn = |x: &(bool, String, i64)| if x.1.is_empty() { 0 } else if x.0 { -1 } else { 1 };
    let (sa, sb) = (sgn(a), sgn(b));
    if sa != sb {
        return sa.cmp(&sb);
    }
    if sa == 0 {
        return Equal;
    }
    let mag = |x: &(bool, String, i64)| x.1.len() as i64 + x.2;
    let o = mag(a).cmp(&mag(b)).then_with(|| {
        let n = a.1.len().max(b.1.len());
        let pa = format!("{:0<w$}", a.1, w = n);
        let pb = format!("{:0<w$}", b.1, w = n);
        pa.cmp(&pb)
    });
    if sa < 0 {
        o.reverse()
    } else {
        o
    }
}

/// Spellings of dates and times that no property judges (see `Verdict`).
pub fn lenient(t: &str) -> bool {
    date(t) == Verdict::Unjudged || time(t) == Verdict::Unjudged || datetime(t) == Verdict::Unjudged
}
