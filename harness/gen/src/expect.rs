//! The definitions a schema must give, compared with those it gives.
use crate::ast::*;
use crate::model::*;
use std::collections::BTreeSet;

pub type Diff = (Vec<&'static str>, String);

pub struct Judge<'m> {
    pub s: &'m Schema,
    pub c: &'m Code,
    pub out: Vec<Diff>,
    claimed: Vec<usize>,
    /// Recursion guard for inherited content.
    pub counts: Counts,
    /// Some declared name starts with a letter beyond ASCII, which is left out.
    foreign_heads: bool,
}

#[derive(Default, Debug, Clone)]
pub struct Counts {
    pub defs: usize,
    pub fields: usize,
    pub inherited: usize,
    pub grouped: usize,
    pub inline: usize,
    pub deep_inline: usize,
    pub branches: usize,
    pub variants: usize,
    pub fallback: usize,
    pub simple: usize,
    pub builtin: usize,
    pub local: usize,
    pub foreign: usize,
    pub odd_bounds: usize,
    pub many: usize,
    pub opt: usize,
    pub indirect: usize,
    pub prohibited: usize,
    pub words: usize,
    pub documented: usize,
}

/// A member of a complex type, own or taken over.
#[derive(Clone)]
pub enum Mem<'m> {
    E(&'m Elem),
    A(&'m Attr),
    Ch(&'m Choice, String),
}

#[derive(Clone, Copy, PartialEq)]
pub enum From {
    Own,
    Group,
    Base,
}

#[derive(Clone)]
pub struct Member<'m> {
    pub mem: Mem<'m>,
    pub from: From,
    /// The global type the declaration lies directly in.
    pub owner: Option<String>,
}

impl<'m> Member<'m> {
    pub fn key(&self) -> (bool, String) {
        match &self.mem {
            Mem::E(e) => (false, e.name.clone()),
            Mem::A(a) => (true, a.name.clone()),
            Mem::Ch(_, n) => (false, format!("?{}", n)),
        }
    }
}

pub fn group_attrs<'m>(s: &'m Schema, atts: &'m [Att], used: &mut BTreeSet<String>, out: &mut Vec<&'m Attr>) {
    for a in atts {
        if let Att::G(TRef::L(n)) = a {
            if used.insert(n.clone()) {
                if let Some(g) = s.group(n) {
                    for a in g {
                        if let Att::A(a) = a {
                            out.push(a);
                        }
                    }
                    group_attrs(s, g, used, out);
                }
            }
        }
    }
}

/// Members in order: own elements, own attributes, group attributes, inherited.
/// Prohibited attributes are included: they keep an inherited one away.
pub fn members<'m>(s: &'m Schema, name: &str, owner: Option<&str>, c: &'m Complex) -> Vec<Member<'m>> {
    let mut out = vec![];
    let o = owner.map(String::from);
    let mut push = |mem, from| out.push(Member { mem, from, owner: o.clone() });
    let mut late = None;
    match &c.body {
        Body::None => (),
        Body::Seq(ps) => {
            let mut n = 0;
            for p in ps {
                match p {
                    Part::E(e) => push(Mem::E(e), From::Own),
                    Part::Ch(ch) => {
                        n += 1;
                        let suffix = if n == 1 { String::new() } else { n.to_string() };
                        push(Mem::Ch(ch, format!("{}Choice{}", name, suffix)), From::Own)
                    }
                    Part::Any(_) => (),
                }
            }
        }
        Body::All(es) => es.iter().for_each(|e| push(Mem::E(e), From::Own)),
        // nothing to choose from: no content at all
        Body::Choice(ch) if c.deriv == Deriv::Plain && ch.blank() => (),
        Body::Choice(ch) if c.deriv == Deriv::Plain => late = Some(Mem::Ch(ch, format!("{}Choice", name))),
        Body::Choice(ch) => push(Mem::Ch(ch, format!("{}Choice", name)), From::Own),
    }
    for a in &c.atts {
        if let Att::A(a) = a {
            push(Mem::A(a), From::Own);
        }
    }
    if let Some(m) = late {
        push(m, From::Own);
    }
    let mut g = vec![];
    group_attrs(s, &c.atts, &mut BTreeSet::new(), &mut g);
    for a in g {
        push(Mem::A(a), From::Group);
    }
    if let Deriv::Ext(TRef::L(b)) | Deriv::Restr(TRef::L(b)) | Deriv::SimpleExt(TRef::L(b)) = &c.deriv {
        if let Some(bc) = s.complex(b) {
            let have: BTreeSet<(bool, String)> = out.iter().map(|m| m.key()).collect();
            for mut m in members(s, b, Some(b), bc) {
                if !have.contains(&m.key()) {
                    m.from = From::Base;
                    out.push(m);
                }
            }
        }
    }
    out
}

pub fn prohibited(m: &Member) -> bool {
    matches!(&m.mem, Mem::A(a) if a.use_ == Some("prohibited"))
}

enum Want<'w> {
    Ref(&'w TRef),
    Text,
}

impl<'m> Judge<'m> {
    pub fn run(s: &'m Schema, c: &'m Code) -> (Vec<Diff>, Counts) {
        let mut j = Judge { s, c, out: vec![], claimed: vec![0; c.defs.len()], counts: Counts::default(), foreign_heads: s.odd_heads };
        j.schema();
        (j.out, j.counts)
    }

    fn bad(&mut self, props: &[&'static str], msg: impl Into<String>) {
        self.out.push((props.to_vec(), msg.into()));
    }

    fn schema(&mut self) {
        for d in &self.s.decls {
            match d {
                Decl::C(n, c) => {
                    if let Some(d) = self.find_root(n, Kind::Struct, &["G02"]) {
                        self.type_doc(d, None, c, n);
                        self.complex(d, n, n, Some(n), c, 0);
                    }
                }
                Decl::S(n, s) => self.simple_root(n, s, None),
                Decl::E(n, EBody::Empty, doc) => {
                    if let Some(d) = self.find_root(n, Kind::Struct, &["G02"]) {
                        self.doc(self.c.defs[d].line, doc, n);
                        self.header(d, n);
                        if !self.c.defs[d].fields.is_empty() {
                            self.bad(&["G02"], format!("empty element {:?} has fields", n));
                        }
                    }
                }
                Decl::E(n, EBody::C(c), doc) => {
                    if let Some(d) = self.find_root(n, Kind::Struct, &["G02"]) {
                        self.type_doc(d, Some(doc), c, n);
                        self.complex(d, n, n, None, c, 0);
                    }
                }
                Decl::E(n, EBody::S(s), doc) | Decl::A(n, ATy::S(s), doc) => self.simple_root(n, s, Some(doc)),
                _ => (),
            }
        }
        for d in 0..self.c.defs.len() {
            if self.claimed[d] == 0 {
                let p = self.c.path(d);
                self.bad(&["G02", "G16", "G07", "G06"], format!("definition {} comes from no declaration", p));
            }
            if self.c.defs[d].validate != 1 {
                let p = self.c.path(d);
                self.bad(&["G02"], format!("{} has {} Validate implementations", p, self.c.defs[d].validate));
            }
            let want = (self.c.defs[d].kind == Kind::Enum) as usize;
            if self.c.defs[d].default != want {
                let p = self.c.path(d);
                self.bad(&["G02"], format!("{} has {} Default implementations", p, self.c.defs[d].default));
            }
        }
        for o in self.c.other.clone().iter().chain(&self.c.stray_impls.clone()) {
            self.bad(&["G02", "G11"], format!("code that belongs to no declaration: {}", vp_common::clip(o, 200)));
        }
        // one scope, one name
        for m in 0..self.c.mods.len() {
            let mut seen = BTreeSet::new();
            for d in self.c.mods[m].defs.clone() {
                if !seen.insert(self.c.defs[d].name.clone()) {
                    let p = self.c.path(d);
                    self.bad(&["G16", "G02"], format!("two definitions named {}", p));
                }
            }
            let mut seen = BTreeSet::new();
            for d in self.c.mods[m].mods.clone() {
                let n = self.c.mods[d].name.clone();
                if !seen.insert(n.clone()) {
                    self.bad(&["G16", "G02"], format!("two modules named {}", n));
                }
            }
            if m > 0 && !self.c.mods[m].glob {
                let n = self.c.mods[m].name.clone();
                self.bad(&["G16", "G05"], format!("module {} does not see its parent's definitions", n));
            }
        }
    }

    /// The comment before a line is the words of a documentation.
    fn doc(&mut self, line: usize, doc: &Doc, at: &str) {
        let want = doc_words(doc);
        if !want.is_empty() {
            self.counts.documented += 1;
            self.counts.words += want.len();
        }
        if self.c.comments(line).contains(&want) {
            return;
        }
        let have = self.c.comment_words(line);
        let mut it = have.iter();
        match want.iter().find(|w| !it.any(|h| h == *w)) {
            Some(w) => self.bad(&["G11"], format!("{}: word {:?} of {:?} is not in its comment {:?}", at, w, doc, have.join(" "))),
            None => self.bad(&["G11"], format!("{}: its comment {:?} is more than its documentation {:?}", at, have.join(" "), doc)),
        }
    }

    fn at_root(&self, n: &str) -> Vec<usize> {
        let hits: Vec<usize> = self.c.mods[0].defs.iter().copied().filter(|d| squash(&self.c.defs[*d].name) == squash(n)).collect();
        match self.s.clean.get(n) {
            // names of the same letters
            Some((p, _)) if hits.len() > 1 => hits.into_iter().filter(|d| self.c.defs[*d].name.trim_start_matches('_') == p).collect(),
            _ => hits,
        }
    }

    fn find_root(&mut self, n: &str, kind: Kind, props: &[&'static str]) -> Option<usize> {
        let hits = self.at_root(n);
        if hits.len() != 1 {
            self.bad(props, format!("{:?} has {} definitions at the top", n, hits.len()));
            hits.iter().for_each(|d| self.claimed[*d] += 1);
            return None;
        }
        self.claim(hits[0], kind, n, props)
    }

    fn claim(&mut self, d: usize, kind: Kind, n: &str, props: &[&'static str]) -> Option<usize> {
        self.claimed[d] += 1;
        self.counts.defs += 1;
        if self.claimed[d] > 1 {
            self.bad(&["G02", "G16"], format!("{} stands for two declarations", self.c.path(d)));
        }
        if self.c.defs[d].kind != kind {
            let k = &self.c.defs[d].kind;
            self.bad(props, format!("{:?} became a {:?}, not a {:?}", n, k, kind));
            return None;
        }
        Some(d)
    }

    /// Namespace marks, derives, name spelling.
    fn header(&mut self, d: usize, n: &str) {
        let def = &self.c.defs[d];
        self.type_ident(&def.name.clone(), n);
        let want: Vec<(&str, String)> = match &self.s.target {
            Target::None => vec![],
            Target::Default => vec![("namespace", self.s.uri.clone())],
            Target::Prefix(p) | Target::Both(p) => {
                vec![("namespace", format!("{}: {}", p, self.s.uri)), ("prefix", p.clone())]
            }
        };
        // the empty prefix is that of the default namespace
        let got: Vec<(&str, String)> = def.ya.iter().filter(|(k, v)| !v.is_empty() || k.as_str() == "namespace").map(|(k, v)| (k.as_str(), v.clone())).collect();
        if got != want || !def.has_ya {
            self.bad(&["G05"], format!("{:?} has namespace marks {:?}, not {:?}", n, got, want));
        }
        let def = &self.c.defs[d];
        for t in ["YaSerialize", "YaDeserialize", "Clone", "Debug", "PartialEq"] {
            if !def.derives.iter().any(|x| x == t) {
                self.out.push((vec!["G02"], format!("{:?} does not derive {}", n, t)));
            }
        }
        if def.kind == Kind::Struct && !def.derives.iter().any(|x| x == "Default") {
            self.out.push((vec!["G02"], format!("{:?} does not derive Default", n)));
        }
    }

    pub fn type_ident(&mut self, id: &str, n: &str) {
        let body = id.strip_prefix('_').unwrap_or(id);
        let first = body.chars().next();
        let lower = first.map_or(true, |c| c.is_lowercase()) && at_ascii(n) && !self.foreign_heads;
        if body.contains('_') || lower || !id.is_ascii() {
            self.bad(&["G01"], format!("{:?} is not Pascal case (for {:?})", id, n));
        }
        if let Some((p, _)) = self.s.clean.get(n) {
            let p = p.clone();
            if body != p {
                self.bad(&["G01"], format!("type {:?} for {:?}, not {:?}", id, n, p));
            }
        } else if squash(id) != squash(n) {
            self.bad(&["G01"], format!("type {:?} for {:?}", id, n));
        }
    }

    pub fn field_ident(&mut self, id: &str, n: &str) {
        let body = id.strip_prefix('_').unwrap_or(id);
        if body.chars().any(|c| c.is_ascii_uppercase()) {
            self.bad(&["G01"], format!("field {:?} is not snake case (for {:?})", id, n));
        }
        if let Some((_, p)) = self.s.clean.get(n) {
            let p = p.clone();
            if body != p {
                self.bad(&["G01"], format!("field {:?} for {:?}, not {:?}", id, n, p));
            }
        } else if squash(id) != squash(n) {
            self.bad(&["G01"], format!("field {:?} for {:?}", id, n));
        }
    }

    /// Takes the cardinality off a type.
    fn peel<'t>(&mut self, ty: &'t str, card: Card, at: &str, extra: &[&'static str]) -> Option<&'t str> {
        let strip = |w: &str, t: &'t str| t.strip_prefix(w).and_then(|t| t.strip_suffix('>'));
        let r = match card {
            Card::One => Some(ty),
            Card::Opt => strip("Option<", ty),
            Card::Many => strip("Vec<", ty),
            Card::Indirect => {
                let (mut t, mut ind) = (ty, false);
                loop {
                    if let Some(x) = strip("Option<", t) {
                        t = x;
                    } else if let Some(x) = strip("Vec<", t).or_else(|| strip("Box<", t)) {
                        t = x;
                        ind = true;
                    } else {
                        break;
                    }
                }
                if ind { Some(t) } else { None }
            }
        };
        if r.is_none() {
            let mut p = vec!["G03"];
            p.extend(extra);
            self.bad(&p, format!("{} has type {}, not {:?}", at, ty, card));
        }
        r
    }

    fn ref_type(&mut self, scope: usize, ty: &str, want: Want, at: &str, extra: &[&'static str]) {
        let mut props = extra.to_vec();
        match want {
            Want::Text => {
                if ty != "String" {
                    props.push("G02");
                    self.bad(&props, format!("{} has type {}, not String", at, ty));
                }
            }
            Want::Ref(TRef::B(b)) => {
                self.counts.builtin += 1;
                if ty != builtin(b) {
                    props.push("G04");
                    self.bad(&props, format!("{} has type {}, not {} ({})", at, ty, builtin(b), b));
                }
            }
            Want::Ref(TRef::L(n)) => {
                self.counts.local += 1;
                props.push("G05");
                if builtin_like(n) {
                    props.push("G04");
                }
                if ty.contains(':') || ty.contains('<') || squash(ty) != squash(n) {
                    return self.bad(&props, format!("{} has type {}, not that of {:?}", at, ty, n));
                }
                self.type_ident(ty, n);
                // the definition of that name, when it has one
                let has = self.s.decls.iter().any(|d| match d {
                    Decl::C(m, _) | Decl::S(m, _) | Decl::E(m, EBody::C(_) | EBody::S(_) | EBody::Empty, _) | Decl::A(m, ATy::S(_), _) => m == n,
                    _ => false,
                });
                if has {
                    let hits = self.c.resolve(scope, ty);
                    if hits.len() != 1 || self.c.defs[hits[0]].scope != 0 {
                        props.push("G16");
                        let p: Vec<String> = hits.iter().map(|h| self.c.path(*h)).collect();
                        self.bad(&props, format!("{}: {} means {:?}, not the definition of {:?}", at, ty, p, n));
                    }
                }
            }
            Want::Ref(TRef::F(i, n)) => {
                self.counts.foreign += 1;
                props.push("G05");
                if builtin_like(n) {
                    props.push("G04");
                }
                let q = &self.s.foreign[*i].0;
                let ok = match ty.split("::").collect::<Vec<_>>()[..] {
                    [m, t] => squash(m) == squash(q) && squash(t) == squash(n) && !t.contains('<'),
                    _ => false,
                };
                if !ok {
                    self.bad(&props, format!("{} has type {}, not {:?} of {}", at, ty, n, q));
                }
            }
        }
    }

    fn inline_def(&mut self, owner: usize, ty: &str, name: &str, kind: Kind, at: &str) -> Option<usize> {
        let scope = self.c.defs[owner].scope;
        let hits = self.c.resolve(scope, ty);
        if hits.len() != 1 {
            self.bad(&["G16", "G02"], format!("{}: {} means {} definitions", at, ty, hits.len()));
            return None;
        }
        let d = hits[0];
        let m = self.c.defs[d].scope;
        let ok = self.c.mods[m].parent == Some(scope) && squash(&self.c.mods[m].name) == squash(&self.c.defs[owner].name);
        if !ok {
            let p = self.c.path(d);
            let o = self.c.path(owner);
            self.bad(&["G16"], format!("{}: its type {} is not in the module of {}", at, p, o));
        } else {
            let mn = self.c.mods[m].name.clone();
            let b = mn.strip_prefix('_').unwrap_or(&mn);
            if b.chars().any(|c| c.is_ascii_uppercase()) {
                self.bad(&["G01"], format!("module {:?} is not snake case", mn));
            }
        }
        if squash(&self.c.defs[d].name) != squash(&format!("{}Type", name)) {
            let p = self.c.path(d);
            self.bad(&["G16", "G01"], format!("{}: its type is {}", at, p));
        }
        self.counts.inline += 1;
        self.counts.deep_inline += self.c.mods[scope].parent.is_some() as usize;
        self.claim(d, kind, at, &["G16", "G02"])
    }

    fn complex(&mut self, d: usize, n: &str, raw: &str, owner: Option<&str>, c: &'m Complex, depth: usize) {
        if depth == 0 {
            self.header(d, n);
        } else {
            self.header(d, &format!("{}Type", raw));
        }
        // the name the parser knows an inline type by is its element's
        let ms = members(self.s, raw, owner, c);
        let fields = self.c.defs[d].fields.clone();
        let has_choice = matches!(&c.body, Body::Choice(ch) if c.deriv != Deriv::Plain || !ch.blank());
        let mut idents = BTreeSet::new();
        for f in &fields {
            if !idents.insert(f.ident.clone()) {
                self.bad(&["G02", "G06", "G07"], format!("{} has two fields {}", n, f.ident));
            }
            if !f.public {
                self.bad(&["G02"], format!("{}.{} is private", n, f.ident));
            }
        }
        let mut taken = vec![false; fields.len()];
        let mut order: Vec<(From, bool, usize)> = vec![];
        for m in &ms {
            let (from_p, from_s): (&[&'static str], &str) = match m.from {
                From::Own => (&[], ""),
                From::Group => (&["G07"], "group "),
                From::Base => (&["G06"], "inherited "),
            };
            let (is_attr, name) = match &m.mem {
                Mem::E(e) => (false, e.name.clone()),
                Mem::A(a) => (true, a.name.clone()),
                Mem::Ch(_, n) => (false, n.clone()),
            };
            if prohibited(m) {
                self.counts.prohibited += 1;
                if fields.iter().any(|f| f.is_attr() && f.wire() == Some(&name)) {
                    let mut p = vec!["G03", "G02"];
                    p.extend(from_p);
                    self.bad(&p, format!("{}: prohibited attribute {:?} has a field", n, name));
                    for (i, f) in fields.iter().enumerate() {
                        if f.is_attr() && f.wire() == Some(&name) {
                            taken[i] = true;
                        }
                    }
                }
                continue;
            }
            let at = format!("{}: {}{} {:?}", n, from_s, if is_attr { "attribute" } else { "member" }, name);
            let mut lost: Vec<&'static str> = from_p.to_vec();
            if m.from == From::Own {
                lost.push("G02");
            }
            if has_choice && is_attr || matches!(m.mem, Mem::Ch(..)) {
                lost.push("G09");
            }
            let hit = match &m.mem {
                Mem::Ch(_, cn) => {
                    let its = |f: &Field| f.flat() && choice_names(cn).contains(&squash(&f.ident));
                    // choices of names of the same letters come in their order
                    fields.iter().enumerate().position(|(i, f)| !taken[i] && its(f)).or_else(|| fields.iter().position(its))
                }
                _ => fields.iter().enumerate().position(|(i, f)| !taken[i] && !f.flat() && f.is_attr() == is_attr && f.wire() == Some(&name)),
            };
            let Some(i) = hit else {
                if depth > 0 {
                    lost.push("G16");
                }
                self.bad(&lost, format!("{} has no field", at));
                continue;
            };
            if taken[i] {
                self.bad(&lost, format!("{} shares a field", at));
            }
            taken[i] = true;
            order.push((m.from, is_attr, i));
            let f = fields[i].clone();
            self.counts.fields += 1;
            match m.from {
                From::Group => self.counts.grouped += 1,
                From::Base => self.counts.inherited += 1,
                _ => (),
            }
            match &m.mem {
                Mem::E(e) => self.element(d, &f, e, m, &at, from_p, depth),
                Mem::A(a) => self.attribute(d, &f, a, &at, from_p),
                Mem::Ch(ch, cn) => {
                    if f.ya.len() != 1 {
                        self.bad(&["G09"], format!("{}: marks {:?}", at, f.ya));
                    }
                    let here = m.from == From::Own && matches!(c.deriv, Deriv::Plain) && has_choice;
                    self.choice(d, &f, ch, cn, m, &at, from_p, here, depth);
                }
            }
        }
        for (i, f) in fields.iter().enumerate() {
            if !taken[i] {
                let mut p = vec!["G02"];
                if let Deriv::Ext(_) | Deriv::Restr(_) | Deriv::SimpleExt(_) = c.deriv {
                    p.push("G06");
                }
                if c.atts.iter().any(|a| matches!(a, Att::G(_))) {
                    p.push("G07");
                }
                if has_choice {
                    p.push("G09");
                }
                self.bad(&p, format!("{}: field {} ({:?}) comes from no member", n, f.ident, f.ya));
            }
        }
        // own elements in order, then own attributes in order; inherited after
        let own_e: Vec<usize> = order.iter().filter(|o| o.0 == From::Own && !o.1 && !fields[o.2].flat()).map(|o| o.2).collect();
        let own_a: Vec<usize> = order.iter().filter(|o| o.0 == From::Own && o.1).map(|o| o.2).collect();
        let base: Vec<usize> = order.iter().filter(|o| o.0 == From::Base).map(|o| o.2).collect();
        let seq: Vec<usize> = own_e.iter().chain(&own_a).copied().collect();
        if !seq.windows(2).all(|w| w[0] < w[1]) {
            self.bad(&["G02"], format!("{}: fields out of order: {:?}", n, fields.iter().map(|f| &f.ident).collect::<Vec<_>>()));
        }
        if let (Some(a), Some(b)) = (seq.last(), base.iter().min()) {
            if a > b {
                self.bad(&["G06"], format!("{}: inherited fields before own ones", n));
            }
        }
    }

    fn element(&mut self, d: usize, f: &Field, e: &'m Elem, m: &Member<'m>, at: &str, extra: &[&'static str], depth: usize) {
        self.field_ident(&f.ident, &e.name);
        self.doc(f.line, &e.doc, at);
        self.element_prefix(f.prefix(), e, at, extra);
        self.only_keys(&f.ya, &["prefix", "rename"], at, extra);
        let card = self.elem_card(e, m.owner.as_deref());
        let Some(t) = self.peel(&f.ty, card, at, extra) else { return };
        let scope = self.c.defs[d].scope;
        match &e.ty {
            ETy::T(r) | ETy::R(r) => self.ref_type(scope, t, Want::Ref(r), at, extra),
            ETy::C(c) => {
                if let Some(x) = self.inline_def(d, t, &e.name, Kind::Struct, at) {
                    let n = format!("{}::{}", at, e.name);
                    self.type_doc(x, None, c, &n);
                    self.complex(x, &n, &e.name, None, c, depth + 1);
                }
            }
            ETy::S(s) => {
                let kind = self.simple_kind(s, None);
                match kind {
                    Ok(k) => {
                        if let Some(x) = self.inline_def(d, t, &e.name, k, at) {
                            self.simple(x, &format!("{}Type", e.name), s, at, &["G16"]);
                        }
                    }
                    Err(()) => {
                        let hits = self.c.resolve(scope, t);
                        let k = hits.first().map(|h| self.c.defs[*h].kind.clone()).unwrap_or(Kind::Tuple);
                        if let Some(x) = self.inline_def(d, t, &e.name, k, at) {
                            self.simple(x, &format!("{}Type", e.name), s, at, &["G16"]);
                        }
                    }
                }
            }
        }
    }

    fn only_keys(&mut self, ya: &std::collections::BTreeMap<String, String>, keys: &[&str], at: &str, extra: &[&'static str]) {
        if ya.keys().any(|k| !keys.contains(&k.as_str())) {
            let mut p = vec!["G02"];
            p.extend(extra);
            self.bad(&p, format!("{} has marks {:?}", at, ya));
        }
    }

    fn element_prefix(&mut self, got: Option<&str>, e: &Elem, at: &str, extra: &[&'static str]) {
        let want = match &e.ty {
            ETy::R(TRef::F(i, _)) => Some(self.s.foreign[*i].0.as_str()),
            _ => self.s.prefix(),
        };
        if got != want {
            let mut p = vec!["G02", "G05"];
            p.extend(extra);
            self.bad(&p, format!("{} has prefix {:?}, not {:?}", at, got, want));
        }
    }

    fn elem_card(&mut self, e: &Elem, owner: Option<&str>) -> Card {
        let plain = |o: &Option<String>| matches!(o.as_deref(), None | Some("0") | Some("1") | Some("unbounded"));
        self.counts.odd_bounds += !(plain(&e.b.min) && plain(&e.b.max)) as usize;
        let c = match &e.ty {
            ETy::T(TRef::L(n)) if Some(n.as_str()) == owner => Card::Indirect,
            _ => e.b.card(),
        };
        match c {
            Card::Many => self.counts.many += 1,
            Card::Opt => self.counts.opt += 1,
            Card::Indirect => self.counts.indirect += 1,
            Card::One => (),
        }
        c
    }

    fn attribute(&mut self, d: usize, f: &Field, a: &'m Attr, at: &str, extra: &[&'static str]) {
        self.field_ident(&f.ident, &a.name);
        self.doc(f.line, &a.doc, at);
        let want = match &a.ty {
            ATy::R(TRef::F(i, _)) => Some(self.s.foreign[*i].0.as_str()),
            ATy::R(TRef::L(_)) => self.s.prefix(),
            _ => None,
        };
        if f.prefix() != want {
            let mut p = vec!["G02", "G05"];
            p.extend(extra);
            self.bad(&p, format!("{} has prefix {:?}, not {:?}", at, f.prefix(), want));
        }
        self.only_keys(&f.ya, &["attribute", "prefix", "rename"], at, extra);
        let card = match a.use_ {
            Some("required") => Card::One,
            _ => {
                self.counts.opt += 1;
                Card::Opt
            }
        };
        let Some(t) = self.peel(&f.ty, card, at, extra) else { return };
        let scope = self.c.defs[d].scope;
        match &a.ty {
            ATy::T(r) | ATy::R(r) => self.ref_type(scope, t, Want::Ref(r), at, extra),
            ATy::S(_) | ATy::Untyped => self.ref_type(scope, t, Want::Text, at, extra),
        }
    }

    /// `sibling`: the enumeration stands beside the structure, not in its module.
    #[allow(clippy::too_many_arguments)]
    fn choice(&mut self, d: usize, f: &Field, ch: &'m Choice, cn: &str, m: &Member<'m>, at: &str, extra: &[&'static str], sibling: bool, depth: usize) {
        let scope = self.c.defs[d].scope;
        let hits = self.c.resolve(scope, &f.ty);
        if hits.len() != 1 {
            return self.bad(&["G09", "G16"], format!("{}: {} means {} definitions", at, f.ty, hits.len()));
        }
        let x = hits[0];
        let root_base = m.from == From::Base && self.c.defs[x].scope == 0;
        if root_base {
            // shared with the base it comes from, which claims it
        } else {
            let ok = if sibling || m.from == From::Base && self.c.defs[x].scope == scope {
                self.c.defs[x].scope == scope
            } else {
                let s = self.c.defs[x].scope;
                self.c.mods[s].parent == Some(scope) && squash(&self.c.mods[s].name) == squash(&self.c.defs[d].name)
            };
            if !ok {
                let p = self.c.path(x);
                self.bad(&["G09", "G16"], format!("{}: the choice is {}", at, p));
            }
            if self.claim(x, Kind::Enum, at, &["G09"]).is_none() {
                return;
            }
        }
        let def = self.c.defs[x].clone();
        // an inline type's choice is named after the type or its element
        if !choice_names(cn).contains(&squash(&def.name)) {
            self.bad(&["G09"], format!("{}: the choice is named {}", at, def.name));
        }
        self.header(x, &def.name.clone());
        let _ = depth;
        let mut p9 = vec!["G09"];
        p9.extend(extra);
        let vs = self.cases(&def, at, &p9, "String");
        if vs.len() != ch.branches.len() {
            return self.bad(&p9, format!("{}: {} variants for {} branches", at, vs.len(), ch.branches.len()));
        }
        for (v, b) in vs.iter().zip(&ch.branches) {
            self.counts.branches += 1;
            let bat = format!("{} branch {:?}", at, b.name);
            self.doc(v.line, &b.doc, &bat);
            if v.ya.get("rename") != Some(&b.name) {
                self.bad(&p9, format!("{}: variant {} is bound to {:?}", bat, v.ident, v.ya.get("rename")));
            }
            self.element_prefix(v.ya.get("prefix").map(|s| s.as_str()).filter(|s| !s.is_empty()), b, &bat, &p9);
            self.type_ident(&v.ident, &b.name);
            if let ETy::C(_) | ETy::S(_) = &b.ty {
                // finding inline-branch: the variant holds nothing
                if v.ty.is_some() {
                    self.bad(&p9, format!("{}: unexpected content {:?}", bat, v.ty));
                }
                continue;
            }
            let Some(t) = &v.ty else {
                self.bad(&p9, format!("{}: no content", bat));
                continue;
            };
            let card = self.elem_card(b, m.owner.as_deref());
            let Some(t) = self.peel(t, card, &bat, &p9) else { continue };
            if let ETy::T(r) | ETy::R(r) = &b.ty {
                self.ref_type(def.scope, t, Want::Ref(r), &bat, &p9);
            }
        }
    }

    /// The cases before the unknown one, which must be there and last.
    fn cases(&mut self, def: &Def, at: &str, props: &[&'static str], unknown: &str) -> Vec<Variant> {
        let mut v = def.variants.clone();
        match v.pop() {
            Some(l) if l.ident == "__Unknown__" => {
                if l.ty.as_deref() != Some(unknown) && unknown != "*" {
                    self.bad(props, format!("{}: the unknown case holds {:?}, not {}", at, l.ty, unknown));
                }
            }
            _ => self.bad(props, format!("{}: no unknown case at the end", at)),
        }
        let mut seen = BTreeSet::new();
        for x in &v {
            if x.ident == "__Unknown__" || !seen.insert(x.ident.clone()) {
                self.bad(props, format!("{}: two cases {}", at, x.ident));
            }
        }
        v
    }

    /// The form of a simple type; undecided for doubtful enumerations.
    fn simple_kind(&self, s: &Simple, _n: Option<&str>) -> Result<Kind, ()> {
        Ok(match &s.kind {
            SKind::U(..) => Kind::Enum,
            SKind::R(_, fs) => {
                let vals: Vec<&str> = fs.iter().filter(|f| f.kind == "enumeration").map(|f| f.value.as_str()).collect();
                return enum_form(&vals);
            }
            _ => Kind::Tuple,
        })
    }

    fn simple_root(&mut self, n: &str, s: &'m Simple, outer: Option<&Doc>) {
        let kind = match self.simple_kind(s, Some(n)) {
            Ok(k) => k,
            Err(()) => {
                self.at_root(n).first().map(|d| self.c.defs[*d].kind.clone()).unwrap_or(Kind::Tuple)
            }
        };
        let props: &[&'static str] = match &s.kind {
            SKind::R(_, f) if f.iter().any(|f| f.kind == "enumeration") => &["G02", "G08"],
            _ => &["G02", "G10"],
        };
        if let Some(d) = self.find_root(n, kind, props) {
            match outer {
                Some(doc) if !doc.is_empty() => {
                    self.doc(self.c.defs[d].line, doc, n);
                    self.simple_of(d, n, s, n, &[], false);
                }
                _ => self.simple(d, n, s, n, &[]),
            }
        }
    }

    /// Of several annotations on one definition, the outermost.
    fn type_doc(&mut self, d: usize, outer: Option<&Doc>, c: &Complex, at: &str) {
        let line = self.c.defs[d].line;
        match outer {
            Some(doc) if !doc.is_empty() => self.doc(line, doc, at),
            _ if !c.doc.is_empty() => self.doc(line, &c.doc, at),
            _ if c.deriv == Deriv::Plain => (),
            _ => self.doc(line, &c.inner_doc, at),
        }
    }

    fn simple(&mut self, d: usize, n: &str, s: &'m Simple, at: &str, extra: &[&'static str]) {
        self.simple_of(d, n, s, at, extra, true)
    }

    fn simple_of(&mut self, d: usize, n: &str, s: &'m Simple, at: &str, extra: &[&'static str], doc: bool) {
        if doc {
            self.doc(self.c.defs[d].line, &s.doc, at);
        }
        self.counts.simple += 1;
        let def = self.c.defs[d].clone();
        let scope = def.scope;
        self.type_ident(&def.name, n);
        let mut p = vec!["G10"];
        p.extend(extra);
        if def.kind == Kind::Tuple {
            for t in ["Default", "Clone", "PartialEq", "Debug", "UtilsTupleIo", "UtilsDefaultSerde"] {
                if !def.derives.iter().any(|x| x == t) {
                    self.bad(&["G02", "G10"], format!("{:?} does not derive {}", at, t));
                }
            }
        }
        match &s.kind {
            SKind::R(base, fs) => {
                let vals: Vec<&'m Facet> = fs.iter().filter(|f| f.kind == "enumeration").collect();
                if def.kind == Kind::Tuple {
                    if !vals.is_empty() {
                        self.counts.fallback += 1;
                        p = vec!["G08", "G10"];
                    }
                    return self.ref_type(scope, &def.ty, Want::Ref(base), &format!("{} content", at), &p);
                }
                self.header(d, n);
                let vs = self.cases(&def, at, &["G08"], "*");
                if let Some(l) = def.variants.last() {
                    if let Some(t) = &l.ty {
                        self.ref_type(scope, t, Want::Ref(base), &format!("{} unknown case", at), &["G08"]);
                    }
                }
                if vs.len() != vals.len() {
                    return self.bad(&["G08"], format!("{}: {} variants for {} values", at, vs.len(), vals.len()));
                }
                for (v, f) in vs.iter().zip(vals) {
                    self.counts.variants += 1;
                    self.doc(v.line, &f.doc, &format!("{} value {:?}", at, f.value));
                    let bound = v.ya.get("rename").cloned().unwrap_or_else(|| v.ident.clone());
                    if bound != f.value || v.ty.is_some() || v.ya.keys().any(|k| k != "rename") {
                        self.bad(&["G08"], format!("{}: variant {} stands for {:?}, not {:?}", at, v.ident, bound, f.value));
                    }
                    if squash(&v.ident) != squash(&f.value) {
                        self.bad(&["G08", "G01"], format!("{}: variant {} for value {:?}", at, v.ident, f.value));
                    }
                }
            }
            SKind::L(t) => match def.ty.strip_prefix("Vec<").and_then(|t| t.strip_suffix('>')) {
                Some(i) => self.ref_type(scope, i, Want::Ref(t), &format!("{} item", at), &p),
                None => self.bad(&p, format!("{}: list holds {}", at, def.ty)),
            },
            SKind::LI(inner) => {
                let Some(i) = def.ty.strip_prefix("Vec<").and_then(|t| t.strip_suffix('>')) else {
                    return self.bad(&p, format!("{}: list holds {}", at, def.ty));
                };
                match self.simple_kind(inner, None) {
                    Ok(Kind::Enum) => self.list_item(d, i, inner, at),
                    Err(()) if squash(i).ends_with("enum") && self.c.resolve(scope, i).iter().any(|x| self.c.defs[*x].kind == Kind::Enum && self.claimed[*x] == 0) => {
                        self.list_item(d, i, inner, at)
                    }
                    _ => {
                        if let SKind::R(b, _) = &inner.kind {
                            self.ref_type(scope, i, Want::Ref(b), &format!("{} item", at), &p)
                        }
                    }
                }
            }
            SKind::U(ms, inl, _) => {
                if !def.derives.iter().any(|x| x == "UtilsUnionSerDe") {
                    self.bad(&["G10"], format!("{:?} does not derive UtilsUnionSerDe", at));
                }
                let vs = self.cases(&def, at, &p, "String");
                if vs.len() != ms.len() + inl.len() {
                    return self.bad(&p, format!("{}: {} cases for {} members", at, vs.len(), ms.len() + inl.len()));
                }
                for (v, t) in vs.iter().zip(ms) {
                    let n = match t {
                        TRef::B(n) => n.to_string(),
                        TRef::L(n) | TRef::F(_, n) => n.clone(),
                    };
                    let bat = format!("{} member {:?}", at, n);
                    self.type_ident(&v.ident, &n);
                    match &v.ty {
                        Some(ty) => self.ref_type(scope, ty, Want::Ref(t), &bat, &p),
                        None => self.bad(&p, format!("{}: no content", bat)),
                    }
                }
                for (v, s) in vs[ms.len()..].iter().zip(inl) {
                    let bat = format!("{} inline member {}", at, v.ident);
                    let ty = v.ty.clone().unwrap_or_default();
                    let hits = self.c.resolve(scope, &ty);
                    if hits.len() != 1 || self.c.defs[hits[0]].scope != scope {
                        self.bad(&["G10", "G16"], format!("{}: {:?} means {} definitions", bat, ty, hits.len()));
                        continue;
                    }
                    let x = hits[0];
                    let k = self.simple_kind(s, None).unwrap_or(self.c.defs[x].kind.clone());
                    if self.claim(x, k, &bat, &["G10"]).is_some() {
                        let own = self.c.defs[x].name.clone();
                        self.simple(x, &own, s, &bat, &["G10"]);
                    }
                }
            }
        }
    }

    fn list_item(&mut self, d: usize, ty: &str, inner: &'m Simple, at: &str) {
        let scope = self.c.defs[d].scope;
        let hits = self.c.resolve(scope, ty);
        if hits.len() != 1 || self.c.defs[hits[0]].scope != scope {
            return self.bad(&["G10", "G16"], format!("{}: item {} means {} definitions", at, ty, hits.len()));
        }
        if self.claim(hits[0], Kind::Enum, at, &["G10"]).is_some() {
            let own = self.c.defs[hits[0]].name.clone();
            self.simple(hits[0], &own, inner, &format!("{} item", at), &["G10"]);
        }
    }
}

/// A choice is named after its type; that of an inline type after the type or
/// the element.
pub fn choice_names(cn: &str) -> [String; 2] {
    let at = cn.rfind("Choice").unwrap();
    [squash(cn), squash(&format!("{}Type{}", &cn[..at], &cn[at..]))]
}

pub fn builtin_like(n: &str) -> bool {
    BUILTINS.iter().any(|b| b.0 == n)
}

/// Enumeration, wrapper, or (doubtful) either.
pub fn enum_form(vals: &[&str]) -> Result<Kind, ()> {
    if vals.is_empty() {
        return Ok(Kind::Tuple);
    }
    // no letter or digit at all, or a character beyond letters, digits and dashes
    let cannot = |v: &&str| !v.chars().any(|c| c.is_ascii_alphanumeric());
    let odd = |v: &&str| !v.chars().all(|c| c.is_ascii_alphanumeric() || c == '-');
    if vals.iter().any(|v| cannot(v)) {
        return Ok(Kind::Tuple);
    }
    let distinct: BTreeSet<String> = vals.iter().map(|v| squash(v)).collect();
    if distinct.len() < vals.len() || vals.iter().any(odd) {
        return Err(());
    }
    Ok(Kind::Enum)
}

/// Whether the first letter or digit of a name is one of ASCII.
pub fn at_ascii(n: &str) -> bool {
    n.chars().find(|c| c.is_alphanumeric()).map_or(true, |c| c.is_ascii())
}

/// The words of the documentation lines of two or more bytes.
pub fn doc_words(doc: &Doc) -> Vec<&str> {
    doc.iter()
        .flat_map(|d| d.lines())
        .filter(|l| l.trim().len() >= 2)
        .flat_map(|l| l.split_whitespace())
        .collect()
}
