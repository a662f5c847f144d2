//! Text generators for the value types.
use vp_common::{Dict, Src};

pub const ALPHA: &[&str] = &[
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", "+", ":", "Z", "T", ".", "P", "Y", "M",
    "D", "H", "S", "z", "t", " ", "e", "E", "_", "x", ",", "/", "\u{e9}", "€", "日", "𝟙", "٣", "\n",
    "\u{0}", "\u{7f}", "Ⅷ", "½", "İ",
];

pub fn junk(s: &mut Src, max: usize) -> String {
    let n = s.count(max);
    let mut o = String::new();
    for _ in 0..n {
        match s.below(12) {
            0 => o.push(char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}')),
            1 | 2 => o.push_str(ALPHA[s.below(10)]),
            _ => o.push_str(s.pick(ALPHA)),
        }
    }
    o
}

pub fn mutate(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = 1 + s.below(3);
    for _ in 0..n {
        match s.below(6) {
            0 if !c.is_empty() => {
                let i = s.below(c.len());
                c.remove(i);
            }
            1 => {
                let i = s.below(c.len() + 1);
                let a = *s.pick(ALPHA);
                for (k, ch) in a.chars().enumerate() {
                    c.insert(i + k, ch);
                }
            }
            2 if !c.is_empty() => {
                let i = s.below(c.len());
                let a = *s.pick(ALPHA);
                c.splice(i..i + 1, a.chars());
            }
            3 if c.len() > 1 => {
                let i = s.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            4 if !c.is_empty() => {
                // duplicate a segment
                let i = s.below(c.len());
                let j = (i + 1 + s.below(4)).min(c.len());
                let seg: Vec<char> = c[i..j].to_vec();
                let at = s.below(c.len() + 1);
                c.splice(at..at, seg);
            }
            5 if !c.is_empty() => {
                // digit step
                let ds: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_ascii_digit()).collect();
                if !ds.is_empty() {
                    let i = *s.pick(&ds);
                    c[i] = char::from(b'0' + s.below(10) as u8);
                }
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

pub fn dig(s: &mut Src, n: usize) -> String {
    (0..n).map(|_| char::from(b'0' + s.below(10) as u8)).collect()
}

/// A digit string of some length, biased to boundaries and code literals.
pub fn number(s: &mut Src, dict: &Dict, maxlen: usize) -> String {
    match s.below(8) {
        0 => "0".into(),
        1 => s.below(100).to_string(),
        2 => {
            let n = s.count(4);
            format!("{}{}", "0".repeat(n), s.below(1000))
        }
        3 if !dict.nums.is_empty() => {
            let v = *s.pick(&dict.nums) as i128 + s.range(-1, 1) as i128;
            v.max(0).to_string()
        }
        4 => {
            // around powers of two and ten
            let v: i128 = if s.flip() { 1i128 << s.below(70) } else { 10i128.pow(s.below(24) as u32) };
            (v + s.range(-1, 1) as i128).to_string()
        }
        _ => {
            let n = 1 + s.below(maxlen);
            dig(s, n)
        }
    }
}

pub fn tz_ok(s: &mut Src) -> String {
    match s.below(6) {
        0 => "Z".into(),
        1 => {
            let m = *s.pick(&[0, 1, 59, 60, 61, 599, 600, 659, 779, 780, 839, 840]);
            fmt_tz(if s.flip() { -m } else { m })
        }
        _ => {
            let m = s.range(-840, 840) as i32;
            if m == 0 && s.flip() {
                "-00:00".into()
            } else {
                fmt_tz(m)
            }
        }
    }
}

pub fn fmt_tz(m: i32) -> String {
    format!("{}{:02}:{:02}", if m < 0 { '-' } else { '+' }, m.abs() / 60, m.abs() % 60)
}

pub fn opt_tz_ok(s: &mut Src) -> String {
    if s.chance(2, 3) {
        tz_ok(s)
    } else {
        String::new()
    }
}

pub fn tz_any(s: &mut Src) -> String {
    match s.below(8) {
        0 => tz_ok(s),
        1 => {
            let (h, m) = (s.range(0, 99), s.range(0, 99));
            format!("{}{:02}:{:02}", s.pick(&["+", "-", "±", " ", "−"]), h, m)
        }
        2 => {
            let h = *s.pick(&[0, 13, 14, 15, 23, 24]);
            let m = *s.pick(&[0, 1, 59, 60]);
            format!("{}{:02}:{:02}", s.pick(&["+", "-"]), h, m)
        }
        3 => {
            let t = tz_ok(s);
            mutate(s, &t)
        }
        4 => s.pick(&["", "z", "ZZ", "UTC", "+", "-", ":", "+:", "+1:00", "+01:0", "+001:00", "+01:000", "+0100", "+01", "+01:00:00", "+01:00Z", "Z+01:00", "é", "€1:00", "é01:00", "日01:00", "+é1:00", "+0é:00", "+01:é", "+٣٣:٣٣"]).to_string(),
        5 => format!("{}{}", tz_ok(s), tz_ok(s)),
        6 => format!(" {}", tz_ok(s)),
        _ => junk(s, 8),
    }
}

/// Now and then a size far beyond everyday ones: near a power of two, a round
/// number or a number literal of the code.
pub fn size_tail(s: &mut Src, dict: &Dict, one_in: usize, cap: usize) -> Option<usize> {
    if !s.chance(1, one_in) {
        return None;
    }
    let n = match s.below(4) {
        0 => 1usize << s.below(13),
        1 => *s.pick(&[20, 50, 100, 150, 200, 250, 300, 400, 500, 1000, 1500, 2000, 3000, 4000]),
        2 if !dict.nums.is_empty() => *s.pick(&dict.nums) as usize % (cap + 1),
        _ => s.below(cap),
    };
    Some((n + s.below(3)).saturating_sub(1).clamp(1, cap))
}

/// A digit string of any length from one choice.
pub fn dig_long(s: &mut Src, n: usize) -> String {
    let mut x = s.raw() as u64 * 2 + 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            char::from(b'0' + ((x >> 20) % 10) as u8)
        })
        .collect()
}

/// Every single edit of a text by a character of ALPHA, and every pair of edits
/// by the characters given.
pub fn near(text: &str, few: &[&str], mut f: impl FnMut(&str) -> Result<(), String>) -> Result<usize, String> {
    fn edits(c: &[char], with: &[&str]) -> Vec<Vec<char>> {
        let mut o = vec![];
        for i in 0..=c.len() {
            for w in with {
                let mut a = c.to_vec();
                a.splice(i..i, w.chars());
                o.push(a);
                if i < c.len() {
                    let mut a = c.to_vec();
                    a.splice(i..i + 1, w.chars());
                    o.push(a);
                }
            }
            if i < c.len() {
                let mut a = c.to_vec();
                a.remove(i);
                o.push(a);
            }
        }
        o
    }
    let c: Vec<char> = text.chars().collect();
    let mut n = 0;
    for e in edits(&c, ALPHA) {
        f(&e.iter().collect::<String>())?;
        n += 1;
    }
    for e in edits(&c, few) {
        for d in edits(&e, few) {
            f(&d.iter().collect::<String>())?;
            n += 1;
        }
    }
    Ok(n)
}

/// The same as a sub-check, over several texts.
pub fn near_all(c: &mut vp_common::Check, sub: &str, texts: &[&str], few: &[&str], f: &dyn Fn(&str) -> Result<(), String>) {
    let texts = texts.to_vec();
    c.case(sub, |x| {
        let mut n = 0;
        for t in &texts {
            n += near(t, few, |t| {
                let r = f(t);
                if r.is_err() {
                    x.desc(format!("{:?}", t));
                }
                r
            })?;
        }
        x.evals(n as _);
        x.nontrivial(true);
        x.desc(format!("every single edit by {} characters and every pair of edits by {:?} of {:?}", ALPHA.len(), few, texts));
        Ok(())
    });
}
