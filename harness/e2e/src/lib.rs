//! What the programs around generated code share: values from tokens, and
//! the loop that answers requests.
#![allow(dead_code)]
use std::fmt::{Debug, Display};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
pub use xsd_parser::generator::validator::Validate;
use xsd_types::types as xs;
use yaserde::{YaDeserialize, YaSerialize};

pub struct T<'a>(std::vec::IntoIter<&'a str>);

impl<'a> T<'a> {
    pub fn next(&mut self) -> &'a str {
        self.0.next().expect("a token")
    }
    pub fn count(&mut self) -> usize {
        self.next().parse().expect("a count")
    }
}

/// A value built from tokens, following the shape of its type.
pub trait B: Sized {
    fn b(t: &mut T) -> Self;
}

pub fn parse<X: FromStr>(t: &mut T) -> X
where
    X::Err: Debug,
{
    let w = t.next();
    w.parse().unwrap_or_else(|e| panic!("{:?} refused: {:?}", w, e))
}

macro_rules! prims {
    ($($t:ty),*) => { $(impl B for $t { fn b(t: &mut T) -> Self { parse(t) } })* };
}
prims!(
    i8, i16, i32, i64, u8, u16, u32, u64, f64, xs::Integer, xs::NonNegativeInteger, xs::PositiveInteger,
    xs::NonPositiveInteger, xs::NegativeInteger, xs::Decimal, xs::Date, xs::Time, xs::DateTime, xs::DateTimeStamp,
    xs::Duration, xs::GDay, xs::GMonth, xs::GMonthDay, xs::GYear, xs::GYearMonth
);
impl B for String {
    fn b(t: &mut T) -> Self {
        t.next().to_string()
    }
}
impl B for bool {
    fn b(t: &mut T) -> Self {
        matches!(t.next(), "true" | "1")
    }
}
impl<X: B> B for Option<X> {
    fn b(t: &mut T) -> Self {
        if t.count() == 0 {
            None
        } else {
            Some(X::b(t))
        }
    }
}
impl<X: B> B for Vec<X> {
    fn b(t: &mut T) -> Self {
        let n = t.count();
        (0..n).map(|_| X::b(t)).collect()
    }
}
impl<X: B> B for Box<X> {
    fn b(t: &mut T) -> Self {
        Box::new(X::b(t))
    }
}

fn clip(s: String) -> String {
    if s.chars().count() > 700 {
        s.chars().take(700).collect::<String>() + "…"
    } else {
        s
    }
}

/// Reads a document, compares with the value, writes it and reads it again.
pub fn doc<S: B + PartialEq + Debug + YaDeserialize + YaSerialize>(t: &mut T) -> Result<String, String> {
    let text = t.next();
    let want = S::b(t);
    if t.0.next().is_some() {
        return Err("harness: tokens left over".into());
    }
    let got: S = yaserde::de::from_str(text).map_err(|e| format!("reading: {}", e))?;
    if got != want {
        return Err(format!("read as {}\ninstead of {}", clip(format!("{:?}", got)), clip(format!("{:?}", want))));
    }
    let out = yaserde::ser::to_string(&got).map_err(|e| format!("writing: {}", e))?;
    let again: S = yaserde::de::from_str(&out).map_err(|e| format!("reading the written {:?}: {}", clip(out.clone()), e))?;
    if again != want {
        return Err(format!("written as {:?}\nwhich reads as {}", clip(out), clip(format!("{:?}", again))));
    }
    Ok(out)
}

pub fn validate<S: B + Validate>(t: &mut T) -> Result<String, String> {
    let v = S::b(t);
    Ok(match v.validate() {
        Ok(()) => "valid".into(),
        Err(_) => "invalid".into(),
    })
}

/// The text of a value, by its own `Display` after its own `FromStr`.
pub fn text<S: FromStr + Display>(t: &mut T) -> Result<String, String>
where
    S::Err: Debug,
{
    let w = t.next();
    match w.parse::<S>() {
        Ok(v) => Ok(v.to_string()),
        Err(e) => Err(format!("refused: {:?}", e)),
    }
}

pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

/// Each line: case, root, tokens; answered by "+ text" or "- reason".
pub fn serve(f: fn(usize, usize, &mut T) -> Result<String, String>) {
    std::panic::set_hook(Box::new(|_| ()));
    let input = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in input.lock().lines() {
        let line = line.expect("a line");
        let parts: Vec<String> = line.split('\t').map(unesc).collect();
        let (c, r) = (parts[0].parse().unwrap(), parts[1].parse().unwrap());
        let toks: Vec<&str> = parts[2..].iter().map(|s| s.as_str()).collect();
        let res = catch_unwind(AssertUnwindSafe(|| f(c, r, &mut T(toks.into_iter())))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {}", m.unwrap_or_default()))
        });
        let _ = match res {
            Ok(t) => writeln!(out, "+{}", esc(&t)),
            Err(t) => writeln!(out, "-{}", esc(&t)),
        };
        let _ = out.flush();
    }
}
