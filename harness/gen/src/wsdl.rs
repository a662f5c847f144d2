//! W01 to W03: operations, embedded schemas and reproducibility of WSDL.
use crate::ast::{self, toks};
use crate::expect::{at_ascii, doc_words};
use crate::meta::first_difference;
use crate::model::*;
use crate::structural::generate;
use crate::corpus::{excerpt, real, Real};
use crate::xml::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use vp_common::*;
use wsdl_parser::parser::definitions::Definitions;
use xsd_parser::{generator::builder::GeneratorBuilder, parser::schema::parse_schema};

pub const WSDL: &str = "http://schemas.xmlsoap.org/wsdl/";

#[derive(Clone, Debug)]
pub struct Part {
    /// Prefix of another namespace, or none for the target namespace.
    pub foreign: Option<String>,
    pub name: String,
    /// The parts of a message of several, by name.
    pub parts: Vec<(String, Part)>,
    /// A message without parts.
    pub void: bool,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub docs: Vec<String>,
    pub input: Part,
    pub output: Option<Part>,
    pub clean: Option<String>,
    pub port: usize,
}

pub struct Doc {
    pub tree: X,
    pub ops: Vec<Op>,
    pub schemas: Vec<Schema>,
    pub ports: usize,
    pub hoisted: usize,
    pub faults: usize,
}

pub struct Shape {
    pub schemas: usize,
    pub ops: usize,
    pub profile: Profile,
}

pub fn functions(xml: &str) -> Result<String, String> {
    let d = roxmltree::Document::parse(xml).map_err(|e| format!("harness: not XML: {}", e))?;
    Ok(wsdl_parser::generator::generate(&Definitions::new(&d.root_element())))
}

/// The code of the embedded schemas, one by one, from one generator.
pub fn embedded(xml: &str) -> Result<Vec<String>, String> {
    let d = roxmltree::Document::parse(xml).map_err(|e| format!("harness: not XML: {}", e))?;
    let defs = Definitions::new(&d.root_element());
    let gen = GeneratorBuilder::default().build();
    let mut out = vec![];
    for t in defs.types() {
        for s in t.schemas() {
            out.push(gen.generate_rs_file(&parse_schema(&s)));
        }
    }
    Ok(out)
}

fn doc_elems(s: &mut Src, w: &str, texts: &[String]) -> Vec<K> {
    texts
        .iter()
        .map(|t| {
            let mut x = X::new(format!("{}documentation", w));
            x.kids = crate::meta::doc_kids(s, t);
            K::E(x)
        })
        .collect()
}

fn noise(s: &mut Src, kids: &mut Vec<K>) {
    if s.chance(1, 5) {
        let i = s.below(kids.len() + 1);
        kids.insert(i, K::Raw(s.pick(&["<!-- a note -->", "<?pi here?>", "<!--<wsdl:operation name=\"Not\"/>-->"]).to_string()));
    }
}

pub fn document(s: &mut Src, sh: &Shape) -> Doc {
    // ---- embedded schemas
    let n = s.count(sh.schemas);
    let mut twins = None;
    let mut schemas: Vec<Schema> = (0..n).map(|_| schema(s, &sh.profile)).collect();
    if !schemas.is_empty() && s.chance(1, 10) {
        // the same schema again, right after itself or later
        let i = s.below(schemas.len());
        let x = schemas[i].clone();
        let at = i + 1 + s.below(schemas.len() - i);
        schemas.insert(at, x);
        twins = Some((i, at));
    }
    let one_xsd = s.flip();
    let xp = *s.pick(&["xs", "xsd", "XS", "w3"]);
    for (i, x) in schemas.iter_mut().enumerate() {
        if x.target != Target::None {
            let i = twins.filter(|t| t.1 == i).map_or(i, |t| t.0);
            x.uri = format!("{}{}", x.uri, i);
        }
        if one_xsd {
            x.xsd = match &x.xsd {
                XsdNs::Both(_) => XsdNs::Both(xp.into()),
                _ => XsdNs::Prefix(xp.into()),
            };
        }
        if x.prefix().is_some() && x.prefix() == x.xsd_prefix() {
            let i = twins.filter(|t| t.1 == i).map_or(i, |t| t.0);
            x.target = Target::Prefix(format!("tns{}", i));
        }
    }

    // ---- namespaces of the document
    let mut root = X::new("definitions");
    let needs_no_default = schemas.iter().any(|x| x.target == Target::None);
    let tns_default = !needs_no_default && s.chance(1, 4);
    let w = if needs_no_default || tns_default || s.flip() { s.pick(&["wsdl", "w", "soap-env", "WSDL"]).to_string() } else { String::new() };
    let wp = if w.is_empty() { String::new() } else { format!("{}:", w) };
    root.tag = format!("{}definitions", wp);
    root.ns(if w.is_empty() { None } else { Some(&w) }, WSDL);
    let mut bound: Vec<(String, String)> = vec![];
    if !w.is_empty() {
        bound.push((w.clone(), WSDL.into()));
    }
    // the target namespace, perhaps that of a schema
    let owner = schemas.iter().position(|x| matches!(x.target, Target::Prefix(_))).filter(|_| s.chance(2, 3));
    let (tp, turi) = match owner {
        Some(i) if schemas[i].prefix() != Some(w.as_str()) => (schemas[i].prefix().unwrap().to_string(), schemas[i].uri.clone()),
        _ => (s.pick(&["tns", "tds", "item", "T-2", "type"]).to_string(), "urn:wsdl:target".to_string()),
    };
    let tns_named = !tns_default || s.flip();
    root.attr("targetNamespace", &turi);
    if s.flip() {
        root.attr("name", "Service");
    }
    if tns_default {
        root.ns(None, &turi);
    }
    if tns_named {
        root.ns(Some(&tp), &turi);
        bound.push((tp.clone(), turi.clone()));
    }
    let mut foreign: Vec<String> = vec![];
    for (p, u) in [("oth", "urn:other"), ("f-2", "urn:foreign:2"), ("tt", "urn:tt"), ("soap", "http://schemas.xmlsoap.org/wsdl/soap12/")] {
        if s.chance(1, 2) && !bound.iter().any(|b| b.0 == p) {
            root.ns(Some(p), u);
            bound.push((p.into(), u.into()));
            foreign.push(p.into());
        }
    }
    // ---- declarations moved from the schemas
    let mut hoisted = 0;
    let mut trees: Vec<X> = vec![];
    let xsd_default = schemas.iter().any(|x| x.xsd == XsdNs::Default);
    for sch in &schemas {
        let mut t = sch.tree();
        let decls: Vec<(String, String)> = t.attrs.iter().filter(|a| a.0.starts_with("xmlns:")).cloned().collect();
        for (k, u) in decls {
            let p = k["xmlns:".len()..].to_string();
            if u == XSD && (!one_xsd || xsd_default) {
                continue;
            }
            match bound.iter().find(|b| b.0 == p) {
                Some(b) if b.1 != u => continue,
                Some(_) => (),
                // a second name for the target namespace of the document
                None if u == turi && u != XSD => continue,
                None if s.flip() => {
                    root.ns(Some(&p), &u);
                    bound.push((p, u));
                }
                None => continue,
            }
            if s.chance(2, 3) {
                t.attrs.retain(|a| a.0 != k);
                hoisted += 1;
            }
        }
        trees.push(t);
    }
    if s.flip() {
        s.shuffle(&mut root.attrs);
    }

    // ---- operations
    let mut kids: Vec<K> = vec![];
    if s.chance(1, 3) {
        let t = doc_text(s);
        kids.append(&mut doc_elems(s, &wp, &[t]));
    }
    if s.chance(1, 4) {
        let mut i = X::new(format!("{}import", wp));
        i.attr("namespace", "urn:imported");
        i.attr("location", "other.wsdl");
        kids.push(K::E(i));
    }
    let mut types = X::new(format!("{}types", wp));
    if s.chance(1, 5) {
        let t = doc_text(s);
        types.kids.append(&mut doc_elems(s, &wp, &[t]));
    }
    types.kids.extend(trees.into_iter().map(K::E));
    if s.chance(1, 8) {
        let mut e = X::new("sch:schema");
        e.ns(Some("sch"), "http://purl.oclc.org/dsdl/schematron");
        let i = s.below(types.kids.len() + 1);
        types.kids.insert(i, K::E(e));
    }
    noise(s, &mut types.kids);
    let mut names = Gen {
        s,
        p: Profile { odd_names: 3, docs: 4, ..BASE },
        sch: Schema {
            xsd: XsdNs::Default,
            target: Target::None,
            uri: String::new(),
            foreign: vec![],
            unused_ns: vec![],
            decls: vec![],
            clean: Default::default(),
            odd_heads: false,
        noise: 0,
        },
        root: BTreeSet::new(),
        types: BTreeSet::new(),
        mem: Default::default(),
        gmem: Default::default(),
        serial: 0,
        chain: false,
        depth: 0,
    };
    let ports = 1 + names.s.count(3);
    let mut ops: Vec<Op> = vec![];
    let mut faults = 0;
    let mut messages: Vec<K> = vec![];
    let mut porttypes: Vec<K> = vec![];
    let mut bindings: Vec<K> = vec![];
    let (mut used_ops, mut used_msgs) = (BTreeSet::new(), BTreeSet::new());
    let mut parts: Vec<(String, Part)> = vec![];
    let global: Vec<String> = schemas
        .iter()
        .filter(|x| x.uri == turi)
        .flat_map(|x| x.decls.iter())
        .filter_map(|d| if let Decl::E(n, ..) = d { Some(n.clone()) } else { None })
        .collect();
    let qn = |s: &mut Src, n: &str| if tns_named && (!tns_default || s.flip()) { format!("{}:{}", tp, n) } else { n.to_string() };
    let mut port_names = BTreeSet::new();
    for port in 0..ports {
        let pname = names.fresh(&mut port_names);
        let mut pt = X::new(format!("{}portType", wp));
        pt.attr("name", &pname);
        if names.s.chance(1, 4) {
            let d = names.doc();
            pt.kids = doc_elems(names.s, &wp, &d);
        }
        let mut bd = X::new(format!("{}binding", wp));
        bd.attr("name", &format!("{}Binding", pname));
        let q = qn(names.s, &pname);
        bd.attr("type", &q);
        for _ in 0..names.s.count(sh.ops) {
            let name = names.fresh(&mut used_ops);
            let clean = names.sch.clean.get(&name).map(|c| c.1.clone());
            let docs = names.doc();
            let mut msg = |g: &mut Gen| -> (String, Part) {
                if !parts.is_empty() && g.s.chance(1, 5) {
                    let i = g.s.below(parts.len());
                    return parts[i].clone();
                }
                let m = g.fresh(&mut used_msgs);
                let one = |g: &mut Gen| {
                    if !foreign.is_empty() && g.s.chance(1, 5) {
                        let f = g.s.pick(&foreign).clone();
                        Part { foreign: Some(f), name: g.raw_name().0, parts: vec![], void: false }
                    } else if !global.is_empty() && g.s.flip() {
                        Part { foreign: None, name: g.s.pick(&global).clone(), parts: vec![], void: false }
                    } else {
                        Part { foreign: None, name: g.raw_name().0, parts: vec![], void: false }
                    }
                };
                let mut part = one(g);
                let mut x = X::new(format!("{}message", wp));
                x.attr("name", &m);
                if g.s.chance(1, 6) {
                    let d = g.doc();
                    x.kids = doc_elems(g.s, &wp, &d);
                }
                let mut pns = vec!["parameters", "body", "request", "T", "x", "header_1", "Item", "header-2", "type", "theBody", "self", "Do", "é"];
                g.s.shuffle(&mut pns);
                let void = g.s.chance(1, 30);
                if void {
                    part.void = true;
                } else if g.s.chance(1, 10) {

                    let n = 2 + g.s.below(3);
                    part.parts.push((pns[0].into(), part.clone()));
                    for n in &pns[1..n] {
                        let p = one(g);
                        part.parts.push((n.to_string(), p));
                    }
                }
                let several = part.parts.len() > 1;
                let all = if void {
                    vec![]
                } else if several {
                    part.parts.clone()
                } else { vec![(pns[0].to_string(), part.clone())] };
                for (pn, part) in &all {
                    let mut p = X::new(format!("{}part", wp));
                    let q = match &part.foreign {
                        Some(f) => format!("{}:{}", f, part.name),
                        None => qn(g.s, &part.name),
                    };
                    let by = if g.s.chance(1, 4) { "type" } else { "element" };
                    if g.s.flip() {
                        p.attr("name", pn);
                        p.attr(by, &q);
                    } else {
                        p.attr(by, &q);
                        p.attr("name", pn);
                    }
                    x.kids.push(K::E(p));
                }
                noise(g.s, &mut x.kids);
                messages.push(K::E(x));
                parts.push((m.clone(), part.clone()));
                (m, part)
            };
            let (im, input) = msg(&mut names);
            let out = if names.s.chance(1, 3) { None } else { Some(msg(&mut names)) };
            let mut o = X::new(format!("{}operation", wp));
            o.attr("name", &name);
            if names.s.chance(1, 8) {
                o.attr("parameterOrder", "b a");
            }
            o.kids = doc_elems(names.s, &wp, &docs);
            if names.s.chance(1, 8) {
                // an extension element
                let mut e = X::new(*names.s.pick(&["ext:policy", "ext:input", "ext:output", "ext:fault", "ext:documentation"]));
                e.ns(Some("ext"), "urn:ext");
                e.attr("name", "p");
                e.attr("message", "p");
                o.kids.push(K::E(e));
            }
            let mut side = |g: &mut Gen, tag: &str, m: &str, named: bool| {
                let mut x = X::new(format!("{}{}", wp, tag));
                if named || g.s.chance(1, 4) {
                    x.attr("name", &format!("{}X", m));
                }
                let q = qn(g.s, m);
                x.attr("message", &q);
                if g.s.chance(1, 8) {
                    let d = g.doc();
                    x.kids = doc_elems(g.s, &wp, &d);
                }
                K::E(x)
            };
            o.kids.push(side(&mut names, "input", &im, false));
            if let Some((om, _)) = &out {
                o.kids.push(side(&mut names, "output", om, false));
                for _ in 0..names.s.count(2) {
                    o.kids.push(side(&mut names, "fault", &im, true));
                    faults += 1;
                }
            }
            noise(names.s, &mut o.kids);
            pt.kids.push(K::E(o));
            let mut b = X::new(format!("{}operation", wp));
            b.attr("name", &name);
            b.kids.push(K::E(X::new(format!("{}input", wp))));
            bd.kids.push(K::E(b));
            ops.push(Op { name, docs, input, output: out.map(|o| o.1), clean, port });
        }
        noise(names.s, &mut pt.kids);
        porttypes.push(K::E(pt));
        if names.s.flip() {
            bindings.push(K::E(bd));
        }
    }
    let s = names.s;
    s.shuffle(&mut messages);
    // the schemas may be in several blocks
    let mut blocks = if n > 0 || s.flip() { vec![types] } else { vec![] };
    if n > 0 && s.chance(1, 3) {
        for _ in 0..1 + s.below(3) {
            let last = blocks.last_mut().expect("one block");
            let at = s.below(last.kids.len() + 1);
            let mut next = X::new(last.tag.clone());
            next.kids = last.kids.split_off(at);
            blocks.push(next);
        }
    }
    let types: Vec<K> = blocks.into_iter().map(K::E).collect();
    let mut groups = vec![types, messages, porttypes, bindings];
    if s.chance(1, 3) {
        s.shuffle(&mut groups);
    }
    for g in groups {
        kids.extend(g);
    }
    if s.chance(1, 4) {
        // declarations in any mixture, each kind in its own order
        let (ports, mut rest): (Vec<K>, Vec<K>) = kids.into_iter().partition(|k| matches!(k, K::E(x) if x.local() == "portType"));
        for p in ports.into_iter().rev() {
            let end = rest.iter().position(|k| matches!(k, K::E(x) if x.local() == "portType")).unwrap_or(rest.len());
            let i = s.below(end + 1);
            rest.insert(i, p);
        }
        kids = rest;
    }
    if s.flip() {
        let mut x = X::new(format!("{}service", wp));
        x.attr("name", "S");
        let mut p = X::new(format!("{}port", wp));
        p.attr("name", "P");
        p.attr("binding", "B");
        x.kids.push(K::E(p));
        kids.push(K::E(x));
    }
    if s.chance(1, 6) {
        // of another namespace, perhaps with a name of this one
        let mut e = X::new(*s.pick(&["plnk:partnerLinkType", "plnk:message", "plnk:portType", "plnk:types", "plnk:import", "plnk:binding"]));
        e.ns(Some("plnk"), "urn:plnk");
        e.attr("name", "Link");
        let i = s.below(kids.len() + 1);
        kids.insert(i, K::E(e));
    }
    noise(s, &mut kids);
    root.kids = kids;
    Doc { tree: root, ops, schemas, ports, hoisted, faults }
}

// ------------------------------------------------------------------------ W01

/// The name the schema generator gives to the structure of an element.
fn struct_name(elem: &str) -> Result<String, String> {
    thread_local!(static SEEN: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new()));
    if let Some(n) = SEEN.with(|m| m.borrow().get(elem).cloned()) {
        return Ok(n);
    }
    let n = struct_name_anew(elem)?;
    SEEN.with(|m| m.borrow_mut().insert(elem.to_string(), n.clone()));
    Ok(n)
}

fn struct_name_anew(elem: &str) -> Result<String, String> {
    let t = generate(&format!(
        "<xs:schema xmlns:xs=\"{}\" targetNamespace=\"urn:t\" xmlns:t=\"urn:t\"><xs:element name=\"{}\"><xs:complexType><xs:sequence>\
         <xs:element name=\"x\" type=\"xs:string\"/></xs:sequence></xs:complexType></xs:element></xs:schema>",
        XSD, elem
    ))?;
    let c = ast::read(&t)?;
    c.defs.first().map(|d| d.name.clone()).ok_or_else(|| format!("no structure for element {:?}", elem))
}

fn part_type(ty: &str, p: &Part) -> Result<(), String> {
    let name = struct_name(&p.name)?;
    let (head, last) = match ty.rsplit_once("::") {
        Some((h, l)) => (Some(h), l),
        None => (None, ty),
    };
    let ok = match (&p.foreign, head) {
        (None, None) => true,
        (Some(f), Some(h)) => squash(h) == squash(f) && syn::parse_str::<syn::Ident>(h).is_ok(),
        _ => false,
    };
    if !ok || last != name {
        return Err(format!("type {:?} for element {:?} of {}, whose structure is {:?}", ty, p.name, p.foreign.as_deref().unwrap_or("the target namespace"), name));
    }
    Ok(())
}

fn compact(t: &impl quote::ToTokens) -> String {
    toks(t).chars().filter(|c| !c.is_whitespace()).collect()
}

/// Parameter for a part of the names that `document` gives.
fn param_name(part: &str) -> &str {
    match part {
        "T" => "t",
        "Item" => "item",
        "header-2" => "header_2",
        "type" => "_type",
        "self" => "_self",
        "theBody" => "the_body",
        "Do" => "_do",
        other => other,
    }
}

pub fn judge_ops(ops: &[Op], text: &str) -> Result<(usize, usize), String> {
    let file = syn::parse_file(text).map_err(|e| format!("not a Rust file: {}: {:?}", e, text.lines().nth(e.span().start().line.saturating_sub(1))))?;
    let code = ast::Code { lines: text.split('\n').map(String::from).collect(), ..Default::default() };
    let mut fns = vec![];
    for i in &file.items {
        match i {
            syn::Item::Fn(f) => fns.push(f),
            other => return Err(format!("an item that is no function: {}", toks(other))),
        }
    }
    if fns.len() != ops.len() {
        return Err(format!("{} functions for {} operations", fns.len(), ops.len()));
    }
    let mut words = 0;
    let mut foreign = 0;
    for op in ops {
        let hits: Vec<&&syn::ItemFn> = fns.iter().filter(|f| squash(&f.sig.ident.to_string()) == squash(&op.name)).collect();
        let hits = match &op.clean {
            // operations of the same letters
            Some(c) if hits.len() > 1 => hits.into_iter().filter(|f| f.sig.ident.to_string().trim_start_matches('_') == c).collect(),
            _ => hits,
        };
        if hits.len() != 1 {
            return Err(format!("{} functions for operation {:?}", hits.len(), op.name));
        }
        let f = hits[0];
        let id = f.sig.ident.to_string();
        let body = id.strip_prefix('_').unwrap_or(&id);
        if id.chars().any(|c| c.is_ascii_uppercase()) || op.clean.as_ref().map_or(false, |c| c != body) {
            return Err(format!("function {:?} for operation {:?}", id, op.name));
        }
        if at_ascii(&op.name) && !body.starts_with(|c: char| c.is_ascii_alphanumeric()) && !id.starts_with("__") && !op.name.starts_with(['_', '-', '.']) {
            return Err(format!("function {:?} for operation {:?}", id, op.name));
        }
        if !matches!(f.vis, syn::Visibility::Public(_)) || f.sig.asyncness.is_none() || !f.attrs.is_empty() {
            return Err(format!("{:?} is not a plain public async function", id));
        }
        if f.sig.unsafety.is_some() || f.sig.constness.is_some() || f.sig.abi.is_some() {
            return Err(format!("{:?} is not a plain public async function", id));
        }
        let gens: Vec<String> = f.sig.generics.params.iter().map(compact).collect();
        let [g] = gens.as_slice() else { return Err(format!("{:?} has generics {:?}", id, gens)) };
        let Some(("T", "transport::Transport")) = g.split_once(':') else { return Err(format!("{:?} has generics {:?}", id, gens)) };
        let mut args = vec![];
        for a in &f.sig.inputs {
            match a {
                syn::FnArg::Typed(t) => {
                    let ty = compact(&t.ty);
                    let Some(ty) = ty.strip_prefix('&') else { return Err(format!("argument {} of {:?} is not a reference", ty, id)) };
                    args.push((compact(&t.pat), ty.to_string()));
                }
                _ => return Err("self".into()),
            }
        }
        let Some(((a0, t0), rest)) = args.split_first() else { return Err(format!("{:?} has no arguments", id)) };
        if t0 != "T" {
            return Err(format!("{:?} takes {:?} as transport", id, t0));
        }
        let mut a1 = None;
        if op.input.void {
            if !rest.is_empty() {
                return Err(format!("{:?} has arguments {:?} for a message without parts", id, args));
            }
        } else if op.input.parts.is_empty() {
            let [(name, t1)] = rest else { return Err(format!("{:?} has arguments {:?}", id, args)) };
            a1 = Some(name);
            part_type(t1, &op.input).map_err(|m| format!("operation {:?} takes: {}", op.name, m))?;
        } else {
            // a parameter for each part
            if rest.len() != op.input.parts.len() {
                return Err(format!("{:?} has arguments {:?} for {} parts", id, args, op.input.parts.len()));
            }
            for ((name, t), (want, p)) in rest.iter().zip(&op.input.parts) {
                if name != param_name(want) {
                    return Err(format!("{:?} has the argument {:?} for part {:?}", id, name, want));
                }
                part_type(t, p).map_err(|m| format!("operation {:?} takes as {}: {}", op.name, name, m))?;
            }
        }
        let ret = match &f.sig.output {
            syn::ReturnType::Type(_, t) => compact(t),
            _ => String::new(),
        };
        let Some(r) = ret.strip_prefix("Result<").and_then(|r| r.strip_suffix(",transport::Error>")) else {
            return Err(format!("{:?} returns {:?}", id, ret));
        };
        match &op.output {
            None if r == "()" => (),
            Some(p) if p.void && r == "()" => (),
            Some(p) if p.void => return Err(format!("the output of operation {:?} has no parts, but it returns {:?}", op.name, r)),
            None => return Err(format!("operation {:?} has no output, but returns {:?}", op.name, r)),
            Some(p) => part_type(r, p).map_err(|m| format!("operation {:?} returns: {}", op.name, m))?,
        }
        let b = compact(&f.block);
        // how several parts make one request is not said (see the finding of W01)
        if !b.contains(&a1.map_or(format!("transport::request({},", a0), |a1| format!("transport::request({},{}).await", a0, a1))) {
            return Err(format!("{:?} does not request: {}", id, b));
        }
        let line = span_line(f);
        let cw = code.comment_words(line);
        let dw = doc_words(&op.docs);
        if dw != cw {
            return Err(format!("the documentation of operation {:?} is {:?}, the comment before its function {:?}", op.name, dw, cw));
        }
        words += dw.len();
        foreign += op.input.foreign.is_some() as usize;
    }
    Ok((words, foreign))
}

fn span_line(f: &syn::ItemFn) -> usize {
    use syn::spanned::Spanned;
    f.vis.span().start().line
}

fn text_of(d: &Doc, s: &mut Src) -> String {
    if s.chance(1, 3) {
        d.tree.styled(s)
    } else {
        d.tree.plain()
    }
}

fn ops_case(sh: &Shape, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let d = document(s, sh);
    let xml = text_of(&d, s);
    c.desc(xml.clone());
    c.key(&xml);
    let text = functions(&xml)?;
    let (words, _) = judge_ops(&d.ops, &text)?;
    c.nontrivial(d.ops.len() >= 2);
    if words > 0 {
        c.label("documented");
    }
    if d.faults > 0 {
        c.label("faults");
    }
    if d.ops.iter().any(|o| o.output.is_none()) {
        c.label("one-way");
    }
    if d.ops.iter().any(|o| o.input.foreign.is_some()) {
        c.label("foreign");
    }
    c.evals(d.ops.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------------ W02

fn embed_case(sh: &Shape, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let d = document(s, sh);
    let xml = text_of(&d, s);
    c.desc(xml.clone());
    c.key(&xml);
    let got = embedded(&xml)?;
    if got.len() != d.schemas.len() {
        return Err(format!("{} schemas found of {}", got.len(), d.schemas.len()));
    }
    let mut items = 0;
    for (i, (g, sch)) in got.iter().zip(&d.schemas).enumerate() {
        let alone = sch.tree().plain();
        let want = generate(&alone)?;
        if g.trim() != want.trim() {
            c.desc(format!("{}\n--- schema {} alone ---\n{}", xml, i, alone));
            return Err(format!("embedded schema {} gives other code: {}", i, first_difference(&want, g)));
        }
        items += want.matches("pub struct").count() + want.matches("pub enum").count();
    }
    c.nontrivial(items >= 2 && (d.hoisted > 0 || d.schemas.len() > 1));
    if d.hoisted > 0 {
        c.label("declarations on the document");
    }
    c.evals(d.schemas.len() as u64);
    Ok(())
}

/// The same for components of real schemas.
fn embed_real(all: &[Real], s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut root = X::new("w:definitions");
    root.ns(Some("w"), WSDL);
    root.attr("targetNamespace", "urn:w");
    let mut types = X::new("w:types");
    let n = 1 + s.below(3);
    let mut alone = vec![];
    for _ in 0..n {
        let (mut x, _) = excerpt(all, s);
        alone.push(x.plain());
        if n == 1 && s.flip() {
            let (up, rest): (Vec<_>, Vec<_>) = x.attrs.into_iter().partition(|a| a.0.starts_with("xmlns:") && a.0 != "xmlns:w");
            x.attrs = rest;
            root.attrs.extend(up);
        }
        types.kids.push(K::E(x));
    }
    root.kids.push(K::E(types));
    let xml = if s.flip() { root.styled(s) } else { root.plain() };
    c.desc(xml.clone());
    c.key(&xml);
    let got = embedded(&xml)?;
    if got.len() != n {
        return Err(format!("{} schemas found of {}", got.len(), n));
    }
    for (g, a) in got.iter().zip(&alone) {
        let want = generate(a)?;
        if g.trim() != want.trim() {
            c.desc(format!("{}\n--- alone ---\n{}", xml, a));
            return Err(format!("an embedded schema gives other code: {}", first_difference(&want, g)));
        }
    }
    c.nontrivial(n > 1 || root.attrs.len() > 2);
    c.evals(n as u64);
    Ok(())
}

// ------------------------------------------------------------------------ W03

pub fn whole(xml: &str) -> Result<String, String> {
    let mut v = embedded(xml)?;
    v.push(functions(xml)?);
    Ok(v.join(""))
}

fn order(ops: &[Op], text: &str) -> Result<(), String> {
    let file = syn::parse_file(text).map_err(|e| format!("not a Rust file: {}", e))?;
    let got: Vec<String> =
        file.items.iter().filter_map(|i| if let syn::Item::Fn(f) = i { Some(squash(&f.sig.ident.to_string())) } else { None }).collect();
    let want: Vec<String> = ops.iter().map(|o| squash(&o.name)).collect();
    if got != want {
        return Err(format!("functions in the order {:?}, not {:?}", got, want));
    }
    Ok(())
}

fn repeat_case(sh: &Shape, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let d = document(s, sh);
    let xml = text_of(&d, s);
    c.desc(xml.clone());
    c.key(&xml);
    let want = whole(&xml)?;
    order(&d.ops, &functions(&xml)?)?;
    let doc = roxmltree::Document::parse(&xml).unwrap();
    let defs = Definitions::new(&doc.root_element());
    let f = functions(&xml)?;
    for _ in 0..3 {
        let g = wsdl_parser::generator::generate(&defs);
        if g != f {
            return Err(format!("the same definitions give other code: {}", first_difference(&f, &g)));
        }
    }
    for _ in 0..2 {
        let g = whole(&xml)?;
        if g != want {
            return Err(format!("a second run gives other code: {}", first_difference(&want, &g)));
        }
    }
    c.nontrivial(d.ports >= 2 && d.ops.len() >= 3);
    c.evals(5);
    Ok(())
}

/// Reads documents from a file, separated by a form feed, and prints their code.
pub fn child(path: &str) {
    let t = std::fs::read_to_string(path).expect("documents");
    let mut out = std::io::stdout().lock();
    for x in t.split('\u{c}') {
        let r = guard(|| whole(x)).and_then(|r| r).unwrap_or_else(|e| format!("error: {}", e));
        let _ = write!(out, "{}\u{c}", r);
    }
}

fn process_case(sh: &Shape, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = 20;
    let mut xmls = vec![];
    let mut strong = false;
    for _ in 0..n {
        let d = document(s, sh);
        strong |= d.ports >= 2 && d.ops.len() >= 3;
        xmls.push(text_of(&d, s));
    }
    c.desc(xmls[0].clone());
    c.key(&xmls);
    let dir = verif_root().join(".build");
    let f = dir.join(format!("w03-{}-{:?}.txt", std::process::id(), std::thread::current().id()));
    std::fs::write(&f, xmls.join("\u{c}")).map_err(|e| format!("harness: {}", e))?;
    let exe = std::env::current_exe().unwrap();
    let mut res = Ok(());
    let want: Vec<String> = xmls.iter().map(|x| whole(x)).collect::<Result<_, _>>()?;
    for _ in 0..2 {
        let o = std::process::Command::new(&exe).arg("w03-child").arg(&f).output().map_err(|e| format!("harness: {}", e))?;
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let got: Vec<&str> = text.split('\u{c}').collect();
        if got.len() != n + 1 {
            res = Err("another process gave no answer".to_string());
            break;
        }
        if let Some(i) = (0..n).find(|i| got[*i] != want[*i]) {
            c.desc(xmls[i].clone());
            res = Err(format!("another process gives other code: {}", first_difference(&want[i], got[i])));
            break;
        }
    }
    let _ = std::fs::remove_file(&f);
    c.nontrivial(strong);
    c.evals(2 * n as u64);
    res
}

pub fn run(c: &mut Check, id: &'static str) {
    let types = Profile { odd_ns: 4, foreign: 2, decls: 5, ..BASE };
    match id {
        "W01" => {
            c.rule = "at least two operations".into();
            let two = format!(
                "<d:definitions xmlns:d=\"http://schemas.xmlsoap.org/wsdl/\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"><d:message name=\"M\">\
                 <d:part name=\"a\" element=\"t:A\"/><d:part name=\"b\" element=\"t:B\"/></d:message><d:portType name=\"P\">\
                 <d:operation name=\"Do\"><d:input message=\"t:M\"/></d:operation></d:portType></d:definitions>"
            );
            let fails = functions(&two).is_ok_and(|t| t.contains("request(transport, request)") && !t.contains("request: &"));
            c.finding("multi-part-body", "the function of an operation whose input message has two parts, a and b, sends request, which is no parameter: it does not compile", fails);
            let small = Shape { schemas: 0, ops: 2, profile: BASE };
            c.prop("small", c.scale(100000, 1500000), 120, &|s, x| ops_case(&small, s, x));
            let sh = Shape { schemas: 1, ops: 5, profile: Profile { decls: 3, ..BASE } };
            c.prop("document", c.scale(100000, 2000000), 900, &|s, x| ops_case(&sh, s, x));
        }
        "W02" => {
            c.rule = "at least two definitions, and several schemas or namespace declarations on the document".into();
            let small = Shape { schemas: 2, ops: 0, profile: Profile { decls: 2, depth: 1, ..types.clone() } };
            c.prop("small", c.scale(250000, 3000000), 150, &|s, x| embed_case(&small, s, x));
            let sh = Shape { schemas: 3, ops: 1, profile: types };
            c.prop("document", c.scale(150000, 2500000), 900, &|s, x| embed_case(&sh, s, x));
            let all = real();
            c.prop("real", c.scale(3000, 100000), 200, &|s, x| embed_real(&all, s, x));
        }
        "W03" => {
            c.rule = "at least two port types and three operations".into();
            let sh = Shape { schemas: 1, ops: 3, profile: Profile { decls: 2, ..types } };
            c.prop("repeat", c.scale(150000, 2500000), 500, &|s, x| repeat_case(&sh, s, x));
            c.prop("process", c.scale(1000, 15000), 3000, &|s, x| process_case(&sh, s, x));
        }
        _ => unreachable!(),
    }
}
