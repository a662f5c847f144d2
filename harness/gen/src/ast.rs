//! Reading of generated code: definitions, fields, serde marks and scopes.
use quote::ToTokens;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Struct,
    Tuple,
    Enum,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub ident: String,
    pub ty: String,
    pub ya: BTreeMap<String, String>,
    pub public: bool,
    pub line: usize,
}

impl Field {
    pub fn wire(&self) -> Option<&str> {
        self.ya.get("rename").map(|s| s.as_str())
    }
    pub fn prefix(&self) -> Option<&str> {
        // the empty prefix is that of the default namespace
        self.ya.get("prefix").map(|s| s.as_str()).filter(|p| !p.is_empty())
    }
    pub fn is_attr(&self) -> bool {
        self.ya.contains_key("attribute")
    }
    pub fn flat(&self) -> bool {
        self.ya.contains_key("flatten")
    }
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub ident: String,
    pub ty: Option<String>,
    pub ya: BTreeMap<String, String>,
    pub line: usize,
}

impl Variant {
    /// The text or element the variant stands for.
    pub fn wire(&self) -> &str {
        self.ya.get("rename").unwrap_or(&self.ident)
    }
}

#[derive(Clone, Debug)]
pub struct Def {
    pub kind: Kind,
    pub name: String,
    pub scope: usize,
    pub derives: Vec<String>,
    pub ya: BTreeMap<String, String>,
    pub has_ya: bool,
    pub fields: Vec<Field>,
    pub variants: Vec<Variant>,
    pub ty: String,
    pub line: usize,
    pub validate: usize,
    pub default: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub name: String,
    pub parent: Option<usize>,
    pub mods: Vec<usize>,
    pub defs: Vec<usize>,
    pub glob: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Code {
    pub defs: Vec<Def>,
    pub mods: Vec<Module>,
    /// Items that are none of the known forms, as text.
    pub other: Vec<String>,
    pub stray_impls: Vec<String>,
    pub lines: Vec<String>,
}

pub fn toks(t: &impl ToTokens) -> String {
    let mut out = String::new();
    flat(t.to_token_stream(), &mut out);
    out
}

fn flat(ts: proc_macro2::TokenStream, out: &mut String) {
    use proc_macro2::TokenTree::*;
    for t in ts {
        match t {
            Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                out.push_str(a);
                flat(g.stream(), out);
                out.push_str(b);
            }
            Ident(i) => {
                if out.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                    out.push(' ');
                }
                out.push_str(&i.to_string());
            }
            Punct(p) => out.push(p.as_char()),
            Literal(l) => {
                if out.ends_with(|c: char| c.is_alphanumeric() || c == '_') {
                    out.push(' ');
                }
                out.push_str(&l.to_string());
            }
        }
    }
}

fn serde_marks(attrs: &[syn::Attribute]) -> Result<(BTreeMap<String, String>, bool), String> {
    let mut m = BTreeMap::new();
    let mut seen = false;
    for a in attrs {
        if !a.path().is_ident("yaserde") {
            continue;
        }
        seen = true;
        a.parse_nested_meta(|n| {
            let k = toks(&n.path);
            let v = if n.input.peek(syn::Token![=]) {
                let l: syn::LitStr = n.value()?.parse()?;
                l.value()
            } else {
                String::new()
            };
            m.insert(k, v);
            Ok(())
        })
        .map_err(|e| format!("malformed yaserde mark: {}", e))?;
    }
    Ok((m, seen))
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|n| {
                out.push(toks(&n.path));
                Ok(())
            });
        }
    }
    out
}

/// First line of an item: that of its first attribute, or of its own.
fn top(attrs: &[syn::Attribute], own: proc_macro2::Span) -> usize {
    attrs.iter().map(|a| a.pound_token.span.start().line).chain([own.start().line]).min().unwrap()
}

pub fn read(text: &str) -> Result<Code, String> {
    let file = syn::parse_file(text).map_err(|e| {
        let l = e.span().start().line;
        format!("not a Rust file: {} at line {}: {:?}", e, l, text.lines().nth(l.saturating_sub(1)).unwrap_or(""))
    })?;
    let mut c = Code { mods: vec![Module { name: "crate".into(), ..Default::default() }], ..Default::default() };
    c.lines = text.split('\n').map(String::from).collect();
    items(&mut c, 0, &file.items)?;
    Ok(c)
}

fn items(c: &mut Code, m: usize, its: &[syn::Item]) -> Result<(), String> {
    let mut impls = vec![];
    for it in its {
        match it {
            syn::Item::Struct(s) => {
                let (ya, has_ya) = serde_marks(&s.attrs)?;
                let mut d = Def {
                    kind: Kind::Struct,
                    name: s.ident.to_string(),
                    scope: m,
                    derives: derives(&s.attrs),
                    ya,
                    has_ya,
                    fields: vec![],
                    variants: vec![],
                    ty: String::new(),
                    line: top(&s.attrs, s.struct_token.span),
                    validate: 0,
                    default: 0,
                };
                match &s.fields {
                    syn::Fields::Named(n) => {
                        for f in &n.named {
                            let id = f.ident.as_ref().unwrap();
                            d.fields.push(Field {
                                ident: id.to_string(),
                                ty: toks(&f.ty),
                                ya: serde_marks(&f.attrs)?.0,
                                public: matches!(f.vis, syn::Visibility::Public(_)),
                                line: top(&f.attrs, id.span()),
                            });
                        }
                    }
                    syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                        d.kind = Kind::Tuple;
                        d.ty = toks(&u.unnamed[0].ty);
                    }
                    _ => return Err(format!("struct {} of an unknown form", s.ident)),
                }
                c.mods[m].defs.push(c.defs.len());
                c.defs.push(d);
            }
            syn::Item::Enum(e) => {
                let (ya, has_ya) = serde_marks(&e.attrs)?;
                let mut d = Def {
                    kind: Kind::Enum,
                    name: e.ident.to_string(),
                    scope: m,
                    derives: derives(&e.attrs),
                    ya,
                    has_ya,
                    fields: vec![],
                    variants: vec![],
                    ty: String::new(),
                    line: top(&e.attrs, e.enum_token.span),
                    validate: 0,
                    default: 0,
                };
                for v in &e.variants {
                    let ty = match &v.fields {
                        syn::Fields::Unit => None,
                        syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => Some(toks(&u.unnamed[0].ty)),
                        _ => return Err(format!("variant {} of an unknown form", v.ident)),
                    };
                    d.variants.push(Variant {
                        ident: v.ident.to_string(),
                        ty,
                        ya: serde_marks(&v.attrs)?.0,
                        line: top(&v.attrs, v.ident.span()),
                    });
                }
                c.mods[m].defs.push(c.defs.len());
                c.defs.push(d);
            }
            syn::Item::Mod(md) => {
                let id = c.mods.len();
                c.mods.push(Module { name: md.ident.to_string(), parent: Some(m), ..Default::default() });
                c.mods[m].mods.push(id);
                if let Some((_, its)) = &md.content {
                    items(c, id, its)?;
                }
            }
            syn::Item::Use(u) if toks(&u.tree) == "super::*" => c.mods[m].glob = true,
            syn::Item::Impl(i) => impls.push(i),
            it => c.other.push(toks(it)),
        }
    }
    for i in impls {
        let ty = toks(&i.self_ty);
        let tr = i.trait_.as_ref().map(|t| toks(&t.1)).unwrap_or_default();
        let d = c.mods[m].defs.iter().copied().find(|d| c.defs[*d].name == ty);
        match (d, tr.as_str()) {
            (Some(d), "Validate") => c.defs[d].validate += 1,
            (Some(d), "Default") => c.defs[d].default += 1,
            _ => c.stray_impls.push(format!("impl {} for {}", tr, ty)),
        }
    }
    Ok(())
}

impl Code {
    /// The words of the comment lines immediately before a line.
    pub fn comment_words(&self, line: usize) -> Vec<&str> {
        self.comments(line).pop().unwrap_or_default()
    }

    /// The words of the comment lines before a line, for every way of seeing an item in
    /// some of them: imports and aliases are written as comments. The last is all of them.
    pub fn comments(&self, line: usize) -> Vec<Vec<&str>> {
        let mut all = vec![];
        let mut from = line - 1;
        let mut texts: Vec<Vec<&str>> = vec![];
        while from > 0 && self.lines[from - 1].trim_start().starts_with("//") {
            let l = self.lines[from - 1].trim_start();
            if l.starts_with("//use ") || l.starts_with("// pub type ") {
                all.push(texts.iter().rev().flatten().copied().collect());
            }
            texts.push(l[2..].split_whitespace().collect());
            from -= 1;
        }
        all.push(texts.iter().rev().flatten().copied().collect());
        all
    }

    pub fn path(&self, d: usize) -> String {
        let mut p = vec![self.defs[d].name.clone()];
        let mut m = Some(self.defs[d].scope);
        while let Some(i) = m {
            p.push(self.mods[i].name.clone());
            m = self.mods[i].parent;
        }
        p.reverse();
        p.join("::")
    }

    /// The definitions a path written in module `scope` can mean.
    pub fn resolve(&self, scope: usize, path: &str) -> Vec<usize> {
        let segs: Vec<&str> = path.split("::").collect();
        let mut m = scope;
        loop {
            if segs.len() == 1 {
                let hit: Vec<usize> = self.mods[m].defs.iter().copied().filter(|d| self.defs[*d].name == segs[0]).collect();
                if !hit.is_empty() {
                    return hit;
                }
            } else {
                let subs: Vec<usize> = self.mods[m].mods.iter().copied().filter(|i| self.mods[*i].name == segs[0]).collect();
                if !subs.is_empty() {
                    return subs.into_iter().flat_map(|s| self.down(s, &segs[1..])).collect();
                }
            }
            match self.mods[m].parent {
                Some(p) if self.mods[m].glob => m = p,
                _ => return vec![],
            }
        }
    }

    fn down(&self, m: usize, segs: &[&str]) -> Vec<usize> {
        if segs.len() == 1 {
            return self.mods[m].defs.iter().copied().filter(|d| self.defs[*d].name == segs[0]).collect();
        }
        self.mods[m].mods.iter().copied().filter(|i| self.mods[*i].name == segs[0]).flat_map(|s| self.down(s, &segs[1..])).collect()
    }
}
