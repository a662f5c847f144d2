//! A small XML tree and its writer with a tape-driven style.
use vp_common::Src;

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema";

#[derive(Clone, Debug)]
pub enum K {
    E(X),
    T(String),
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct X {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<K>,
}

impl X {
    pub fn new(tag: impl Into<String>) -> X {
        X { tag: tag.into(), attrs: vec![], kids: vec![] }
    }
    pub fn attr(&mut self, k: &str, v: &str) {
        self.attrs.push((k.into(), v.into()));
    }
    pub fn ns(&mut self, p: Option<&str>, uri: &str) {
        let k = match p {
            Some(p) => format!("xmlns:{}", p),
            None => "xmlns".into(),
        };
        self.attrs.push((k, uri.into()));
    }
    pub fn elems(&self) -> impl Iterator<Item = &X> {
        self.kids.iter().filter_map(|k| if let K::E(x) = k { Some(x) } else { None })
    }
    pub fn local(&self) -> &str {
        self.tag.rsplit(':').next().unwrap()
    }
    pub fn walk(&mut self, f: &mut dyn FnMut(&mut X)) {
        f(self);
        for k in &mut self.kids {
            if let K::E(x) = k {
                x.walk(f);
            }
        }
    }
    pub fn has_text(&self) -> bool {
        self.kids.iter().any(|k| matches!(k, K::T(_)))
    }

    /// Plain writing: one element per line.
    pub fn plain(&self) -> String {
        let mut o = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        self.write(&mut o, 0, &mut |_| 0);
        o
    }

    /// Writing with a style drawn from the tape.
    pub fn styled(&self, s: &mut Src) -> String {
        let mut o = match s.below(3) {
            0 => String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
            1 => String::new(),
            _ => String::from("<?xml version='1.0'?>\r\n<!-- head -->\n<?pi x?>\n"),
        };
        self.write(&mut o, 0, &mut |n| s.below(n));
        if s.flip() {
            o.push_str("\n<!-- tail -->\n");
        }
        o
    }

    fn write(&self, o: &mut String, ind: usize, r: &mut dyn FnMut(usize) -> usize) {
        o.push('<');
        o.push_str(&self.tag);
        for (k, v) in &self.attrs {
            o.push_str(match r(4) {
                0 | 1 => " ",
                2 => "\n\t",
                _ => "   ",
            });
            o.push_str(k);
            o.push_str(if r(6) == 5 { " = " } else { "=" });
            let q = if r(3) == 2 { '\'' } else { '"' };
            o.push(q);
            esc(v, Some(q), o, r);
            o.push(q);
        }
        if self.kids.is_empty() {
            match r(3) {
                0 => o.push_str("/>"),
                1 => o.push_str(" />"),
                _ => {
                    o.push('>');
                    if r(2) == 1 {
                        o.push_str("\n  ");
                    }
                    o.push_str("</");
                    o.push_str(&self.tag);
                    o.push('>');
                }
            }
            return;
        }
        o.push('>');
        let text = self.has_text();
        for k in &self.kids {
            if !text {
                match r(4) {
                    0 | 1 => {
                        o.push('\n');
                        o.push_str(&"  ".repeat(ind + 1));
                    }
                    2 => (),
                    _ => o.push_str("\n\n\t\r\n"),
                }
            }
            match k {
                K::E(x) => x.write(o, ind + 1, r),
                K::T(t) => esc(t, None, o, r),
                K::Raw(t) => o.push_str(t),
            }
        }
        if !text && r(3) < 2 {
            o.push('\n');
            o.push_str(&"  ".repeat(ind));
        }
        o.push_str("</");
        o.push_str(&self.tag);
        o.push_str(if r(5) == 4 { " >" } else { ">" });
    }
}

/// Escapes text; line feeds and tabs in attributes as references, since a
/// reader would turn them into blanks.
pub fn esc(s: &str, quote: Option<char>, o: &mut String, r: &mut dyn FnMut(usize) -> usize) {
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str(if r(2) == 0 { "&amp;" } else { "&#38;" }),
            '\r' => o.push_str("&#13;"),
            '\n' | '\t' if quote.is_some() => o.push_str(&format!("&#{};", c as u32)),
            c if Some(c) == quote => o.push_str(if c == '"' { "&quot;" } else { "&apos;" }),
            c => o.push(c),
        }
    }
}

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    esc(s, Some('"'), &mut o, &mut |_| 0);
    o
}
