//! W04: the WSDL model (`wsdl_parser::parser`) against the document written.
use vp_gen::meta::doc_kids;
use vp_gen::model::doc_text;
use vp_gen::wsdl::WSDL;
use vp_gen::xml::*;
use std::collections::BTreeSet;
use vp_common::*;
use vp_gen::check;
use wsdl_parser::parser::binding::Binding;
use wsdl_parser::parser::definitions::Definitions;
use wsdl_parser::parser::port_type::{OperationType, Param};

const HEADS: &str = "abcdefgmopxyzABMOPTXYZ_éΩж";
const TAILS: &str = "abcxyzABXYZ0129.-_éΩж";

#[derive(Clone, Debug, PartialEq)]
struct MPart {
    name: String,
    element: Option<String>,
    type_: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
struct MParam {
    name: Option<String>,
    message: String,
}

#[derive(Clone, Debug, PartialEq)]
struct MOp {
    name: String,
    order: Option<String>,
    docs: Option<String>,
    kind: &'static str,
    params: Vec<MParam>,
    faults: Vec<(String, String)>,
}

#[derive(Default)]
struct Model {
    name: Option<String>,
    target: Option<String>,
    bound: bool,
    imports: Vec<(String, String)>,
    types: Vec<Vec<String>>,
    messages: Vec<(String, Vec<MPart>)>,
    ports: Vec<(String, Vec<MOp>)>,
    bindings: Vec<(String, String)>,
    tns: Option<String>,
}

fn ncname(s: &mut Src) -> String {
    if s.chance(1, 6) {
        return s
            .pick(&["message", "part", "operation", "input", "output", "name", "T", "type", "portType", "Fault", "Get", "GetResponse", "get", "xs", "tns"])
            .to_string();
    }
    let h: Vec<char> = HEADS.chars().collect();
    let t: Vec<char> = TAILS.chars().collect();
    let mut o = s.pick(&h).to_string();
    for _ in 0..s.count(8) {
        o.push(*s.pick(&t));
    }
    o
}

fn unique(s: &mut Src, used: &mut BTreeSet<String>) -> String {
    let mut n = ncname(s);
    while !used.insert(n.clone()) {
        n.push('x');
    }
    n
}

fn uri(s: &mut Src) -> String {
    s.pick(&["urn:a", "http://www.example.org/b?x=1&y=2", "urn:ünï", "http://example.org/c#d", "tag:e", "urn:with'quote"]).to_string()
}

/// Attributes in any order, perhaps beside ones of another namespace with the same names.
fn finish(s: &mut Src, x: &mut X) {
    if s.chance(1, 6) {
        for k in ["name", "message", "element", "type", "location", "namespace", "targetNamespace", "parameterOrder"] {
            if s.chance(1, 3) {
                x.attr(&format!("ext:{}", k), "decoy");
            }
        }
        x.ns(Some("ext"), "urn:ext");
    }
    if x.attrs.len() > 1 && s.flip() {
        s.shuffle(&mut x.attrs);
    }
}

/// An element of another namespace with the name of one of WSDL.
fn decoy(s: &mut Src, kids: &mut Vec<K>, tags: &[&str], from: usize, to: usize) {
    if !s.chance(1, 6) {
        return;
    }
    let mut x = X::new(format!("ext:{}", s.pick(tags)));
    x.ns(Some("ext"), "urn:ext");
    x.attr("name", "Decoy");
    x.attr("message", "Decoy");
    x.attr("type", "Decoy");
    x.attr("namespace", "urn:decoy");
    x.attr("location", "decoy");
    if x.local() == "portType" || s.chance(1, 4) {
        let mut o = X::new("ext:operation");
        o.attr("name", "Decoy");
        let mut i = X::new("ext:input");
        i.attr("message", "Decoy");
        o.kids.push(K::E(i));
        x.kids.push(K::E(o));
    } else if s.flip() {
        x.kids.push(K::T("decoy".into()));
    }
    let i = from + s.below(to + 1 - from);
    kids.insert(i, K::E(x));
}

fn aside(s: &mut Src, kids: &mut Vec<K>) {
    if s.chance(1, 6) {
        let i = s.below(kids.len() + 1);
        kids.insert(i, K::Raw(s.pick(&["<!-- a note -->", "<?pi here?>", "<!--<wsdl:message name=\"Not\"/>-->", "<!--<part/>-->"]).to_string()));
    }
}

fn docs(s: &mut Src, w: &str, kids: &mut Vec<K>) -> Option<String> {
    if !s.chance(1, 3) {
        return None;
    }
    let mut x = X::new(format!("{}documentation", w));
    let t = doc_text(s);
    x.kids = doc_kids(s, &t);
    kids.push(K::E(x));
    Some(t)
}

fn build(s: &mut Src) -> (X, Model) {
    let mut m = Model::default();
    let prefixed = s.chance(2, 3);
    let wpre = *s.pick(&["wsdl", "w", "WSDL", "soap-env"]);
    let w = if prefixed { format!("{}:", wpre) } else { String::new() };
    let mut root = X::new(format!("{}definitions", w));
    root.ns(if prefixed { Some(wpre) } else { None }, WSDL);
    let tp = *s.pick(&["tns", "t-2", "xx", "Тт"]);
    if s.chance(5, 6) {
        let u = uri(s);
        root.attr("targetNamespace", &u);
        if prefixed && s.chance(1, 4) {
            root.ns(None, &u);
            m.bound = true;
        }
        if s.chance(4, 5) {
            root.ns(Some(tp), &u);
            m.bound = true;
            m.tns = Some(tp.into());
        }
        m.target = Some(u);
    }
    root.ns(Some("far"), "urn:far");
    if s.chance(1, 2) {
        let n = ncname(s);
        root.attr("name", &n);
        m.name = Some(n);
    }
    let q = |s: &mut Src, tns: &Option<String>, n: &str| match tns {
        Some(p) if s.chance(4, 5) => format!("{}:{}", p, n),
        _ => n.to_string(),
    };
    let mut kids: Vec<K> = vec![];

    let mut used = BTreeSet::new();
    for _ in 0..s.count(3) {
        let mut ns = uri(s);
        while !used.insert(ns.clone()) {
            ns.push('x');
        }
        let loc = s.pick(&["a.wsdl", "../b/c.wsdl", "http://example.org/d?x=1&y=2", "", "ü.wsdl"]).to_string();
        let mut x = X::new(format!("{}import", w));
        x.attr("namespace", &ns);
        x.attr("location", &loc);
        finish(s, &mut x);
        docs(s, &w, &mut x.kids);
        m.imports.push((ns, loc));
        kids.push(K::E(x));
    }

    let mut serial = 0;
    for _ in 0..s.count(2) {
        let mut x = X::new(format!("{}types", w));
        docs(s, &w, &mut x.kids);
        let mut ids = vec![];
        for _ in 0..s.count(3) {
            serial += 1;
            let default = s.flip();
            let mut y = X::new(if default { "schema" } else { "xs:schema" });
            y.ns(if default { None } else { Some("xs") }, XSD);
            y.attr("id", &format!("s{}", serial));
            if s.flip() {
                y.attr("targetNamespace", "urn:s");
            }
            if s.chance(1, 4) {
                // a schema element that is not a child of types
                let mut a = X::new(if default { "annotation" } else { "xs:annotation" });
                let mut i = X::new(if default { "appinfo" } else { "xs:appinfo" });
                i.kids.push(K::E(X::new(if default { "schema" } else { "xs:schema" })));
                a.kids.push(K::E(i));
                y.kids.push(K::E(a));
            }
            ids.push(format!("s{}", serial));
            x.kids.push(K::E(y));
        }
        let n = x.kids.len();
        decoy(s, &mut x.kids, &["schema", "import", "message"], 0, n);
        aside(s, &mut x.kids);
        finish(s, &mut x);
        m.types.push(ids);
        kids.push(K::E(x));
    }

    let mut used = BTreeSet::new();
    for _ in 0..s.count(5) {
        let name = unique(s, &mut used);
        let mut x = X::new(format!("{}message", w));
        x.attr("name", &name);
        finish(s, &mut x);
        docs(s, &w, &mut x.kids);
        let from = x.kids.len();
        let mut parts = vec![];
        let mut pu = BTreeSet::new();
        for _ in 0..s.count(4) {
            let mut y = X::new(format!("{}part", w));
            let mut p = MPart { name: unique(s, &mut pu), element: None, type_: None };
            y.attr("name", &p.name);
            let n = ncname(s);
            let n = q(s, &m.tns, &n);
            match s.below(6) {
                0 | 1 => {
                    y.attr("type", &n);
                    p.type_ = Some(n);
                }
                5 => (),
                _ => {
                    y.attr("element", &n);
                    p.element = Some(n);
                }
            }
            finish(s, &mut y);
            docs(s, &w, &mut y.kids);
            parts.push(p);
            x.kids.push(K::E(y));
        }
        let n = x.kids.len();
        decoy(s, &mut x.kids, &["part", "message", "types"], from, n);
        aside(s, &mut x.kids);
        m.messages.push((name, parts));
        kids.push(K::E(x));
    }

    let mut used = BTreeSet::new();
    for _ in 0..s.count(4) {
        let name = unique(s, &mut used);
        let mut x = X::new(format!("{}portType", w));
        x.attr("name", &name);
        finish(s, &mut x);
        docs(s, &w, &mut x.kids);
        let mut ops = vec![];
        for _ in 0..s.count(4) {
            let mut y = X::new(format!("{}operation", w));
            let mut o = MOp { name: ncname(s), order: None, docs: None, kind: "", params: vec![], faults: vec![] };
            y.attr("name", &o.name);
            if s.chance(1, 4) {
                let t = s.pick(&["a", "b a", "x.y é", ""]).to_string();
                y.attr("parameterOrder", &t);
                o.order = Some(t);
            }
            finish(s, &mut y);
            o.docs = docs(s, &w, &mut y.kids);
            let n = y.kids.len();
            decoy(s, &mut y.kids, &["input", "output", "fault", "documentation", "operation"], 0, n);
            let (kind, sides): (_, &[&str]) = match s.below(6) {
                0 => ("OneWay", &["input"]),
                1 => ("Notification", &["output"]),
                2 => ("SolicitResponse", &["output", "input"]),
                _ => ("RequestResponse", &["input", "output"]),
            };
            o.kind = kind;
            for t in sides {
                let mut p = MParam { name: None, message: ref_name(s, &m, &q) };
                let mut z = X::new(format!("{}{}", w, t));
                if s.chance(1, 3) {
                    let n = ncname(s);
                    z.attr("name", &n);
                    p.name = Some(n);
                }
                z.attr("message", &p.message);
                finish(s, &mut z);
                docs(s, &w, &mut z.kids);
                o.params.push(p);
                y.kids.push(K::E(z));
            }
            if sides.len() == 2 {
                for _ in 0..s.count(3) {
                    let f = (ncname(s), ref_name(s, &m, &q));
                    let mut z = X::new(format!("{}fault", w));
                    z.attr("name", &f.0);
                    z.attr("message", &f.1);
                    finish(s, &mut z);
                    o.faults.push(f);
                    y.kids.push(K::E(z));
                }
            }
            aside(s, &mut y.kids);
            ops.push(o);
            x.kids.push(K::E(y));
        }
        aside(s, &mut x.kids);
        m.ports.push((name, ops));
        kids.push(K::E(x));
    }

    let mut used = BTreeSet::new();
    for _ in 0..s.count(3) {
        let name = unique(s, &mut used);
        let t = match m.ports.is_empty() {
            true => "far:Port".to_string(),
            false => {
                let n = s.pick(&m.ports).0.clone();
                q(s, &m.tns, &n)
            }
        };
        let mut x = X::new(format!("{}binding", w));
        x.attr("name", &name);
        x.attr("type", &t);
        finish(s, &mut x);
        let mut y = X::new("soap:binding");
        y.ns(Some("soap"), "http://schemas.xmlsoap.org/wsdl/soap12/");
        y.attr("style", "document");
        x.kids.push(K::E(y));
        for _ in 0..s.count(2) {
            let mut y = X::new(format!("{}operation", w));
            y.attr("name", &ncname(s));
            for t in ["input", "output"] {
                if s.flip() {
                    y.kids.push(K::E(X::new(format!("{}{}", w, t))));
                }
            }
            x.kids.push(K::E(y));
        }
        m.bindings.push((name, t));
        kids.push(K::E(x));
    }
    if s.chance(1, 3) {
        let mut x = X::new(format!("{}service", w));
        x.attr("name", "S");
        let mut p = X::new(format!("{}port", w));
        p.attr("name", "P");
        p.attr("binding", "B");
        x.kids.push(K::E(p));
        kids.push(K::E(x));
    }
    if s.flip() {
        // any mixture of the kinds, each in its own order
        let mut groups: Vec<Vec<K>> = vec![];
        for k in kids {
            let K::E(x) = &k else { continue };
            match groups.iter_mut().find(|g| matches!(&g[0], K::E(y) if y.tag == x.tag)) {
                Some(g) => g.push(k),
                None => groups.push(vec![k]),
            }
        }
        groups.iter_mut().for_each(|g| g.reverse());
        kids = vec![];
        while !groups.is_empty() {
            let i = s.below(groups.len());
            kids.push(groups[i].pop().unwrap());
            if groups[i].is_empty() {
                groups.remove(i);
            }
        }
    }
    let n = kids.len();
    decoy(s, &mut kids, &["message", "portType", "binding", "import", "types", "definitions"], 0, n);
    aside(s, &mut kids);
    let mut all = vec![];
    docs(s, &w, &mut all);
    all.extend(kids);
    root.kids = all;
    finish(s, &mut root);
    (root, m)
}

fn ref_name(s: &mut Src, m: &Model, q: &dyn Fn(&mut Src, &Option<String>, &str) -> String) -> String {
    if m.messages.is_empty() || s.chance(1, 6) {
        // a message of another document
        format!("far:Absent{}", s.below(3))
    } else {
        let n = s.pick(&m.messages).0.clone();
        q(s, &m.tns, &n)
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", what, got, want))
    }
}

fn letters(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

fn judge(xml: &str, m: &Model) -> Result<(), String> {
    let d = roxmltree::Document::parse(xml).map_err(|e| format!("harness: not XML: {}", e))?;
    let root = d.root_element();
    let defs = Definitions::new(&root);
    same("name of the definitions", defs.name(), m.name.as_deref())?;
    if m.target.is_none() || m.bound {
        same("target namespace", defs.target_namespace().map(|n| n.uri().to_string()), m.target.clone())?;
    }
    // imports
    let sorted = |mut v: Vec<(String, String)>| {
        v.sort();
        v
    };
    let got = defs.imports().iter().map(|(k, i)| (k.to_string(), i.namespace().to_string(), i.location().to_string())).collect::<Vec<_>>();
    if let Some(i) = got.iter().find(|i| i.0 != i.1) {
        return Err(format!("the import of {:?} is listed as {:?}", i.1, i.0));
    }
    same("imports", sorted(got.into_iter().map(|i| (i.1, i.2)).collect()), sorted(m.imports.clone()))?;
    // schemas
    let got: Vec<Vec<String>> = defs
        .types()
        .iter()
        .map(|t| t.schemas().iter().map(|n| n.attribute("id").unwrap_or("?").to_string()).collect())
        .collect();
    same("schemas", &got, &m.types)?;
    // messages
    same("number of messages", defs.messages().len(), m.messages.len())?;
    let part = |p: &wsdl_parser::parser::message::Part| MPart {
        name: p.name().to_string(),
        element: p.element().map(str::to_string),
        type_: p.type_().map(str::to_string),
    };
    for (n, parts) in &m.messages {
        let g = defs.messages().get(n.as_str()).ok_or_else(|| format!("message {:?} is not listed", n))?;
        same("name of a message", g.name(), n.as_str())?;
        same(&format!("parts of message {:?}", n), &g.parts().iter().map(part).collect::<Vec<_>>(), parts)?;
    }
    // port types
    let param = |p: &Param| MParam { name: p.name().map(str::to_string), message: p.message().to_string() };
    let ordered: Vec<&str> = defs.ordered_port_types().map(|p| p.name()).collect();
    same("port types in order", ordered, m.ports.iter().map(|p| p.0.as_str()).collect())?;
    same("number of port types", defs.port_types().len(), m.ports.len())?;
    for (n, ops) in &m.ports {
        let g = defs.port_types().get(n.as_str()).ok_or_else(|| format!("port type {:?} is not listed", n))?;
        same("name of a port type", g.name(), n.as_str())?;
        same(&format!("number of operations of {:?}", n), g.operations().len(), ops.len())?;
        for (o, want) in g.operations().iter().zip(ops) {
            let (kind, params, faults) = match o.operation_type() {
                OperationType::RequestResponse { input, output, faults } => ("RequestResponse", vec![input, output], faults.as_slice()),
                OperationType::OneWay { input } => ("OneWay", vec![input], &[][..]),
                OperationType::SolicitResponse { output, input, faults } => ("SolicitResponse", vec![output, input], faults.as_slice()),
                OperationType::Notification { output } => ("Notification", vec![output], &[][..]),
            };
            let got = MOp {
                name: o.name().to_string(),
                order: o.parameter_order().map(str::to_string),
                docs: o.documentation().map(|t| letters(&t)),
                kind,
                params: params.iter().map(|p| param(p)).collect(),
                faults: faults.iter().map(|f| (f.name().to_string(), f.message().to_string())).collect(),
            };
            same(&format!("an operation of {:?}", n), &got, &MOp { docs: want.docs.as_deref().map(letters), ..want.clone() })?;
            for p in params {
                let found = defs.get_message_by_param(p).map(|m| (m.name().to_string(), m.parts().iter().map(part).collect::<Vec<_>>()));
                let local = p.message().rsplit(':').next().unwrap();
                let want = m.messages.iter().find(|x| x.0 == local).cloned();
                same(&format!("message of the parameter {:?}", p.message()), found, want)?;
            }
        }
    }
    // bindings, read one by one
    let got: Vec<(String, String)> = root
        .children()
        .filter(|n| n.is_element() && n.tag_name().namespace() == Some(WSDL) && n.tag_name().name() == "binding")
        .map(|n| {
            let b = Binding::new(&n);
            (b.name().to_string(), b.type_().to_string())
        })
        .collect();
    same("bindings", &got, &m.bindings)
}

fn one(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (x, m) = build(s);
    let xml = if s.chance(1, 2) { x.styled(s) } else { x.plain() };
    c.desc(xml.clone());
    c.key(&xml);
    judge(&xml, &m)?;
    let ops: Vec<&MOp> = m.ports.iter().flat_map(|p| p.1.iter()).collect();
    let parts: usize = m.messages.iter().map(|x| x.1.len()).sum();
    c.nontrivial(ops.len() + parts >= 3 && !ops.is_empty());
    for o in &ops {
        c.label(o.kind);
    }
    if ops.iter().any(|o| !o.faults.is_empty()) {
        c.label("faults");
    }
    if xml.contains("urn:ext") {
        c.label("foreign elements or attributes");
    }
    if m.messages.iter().any(|x| x.1.len() != 1) {
        c.label("no or several parts");
    }
    c.evals((ops.len() + parts + m.imports.len() + 1) as u64);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule = "at least one operation, and three operations and parts together".into();
    c.prop("small", c.scale(150000, 2000000), 60, &|s, x| one(s, x));
    c.prop("document", c.scale(250000, 4000000), 500, &|s, x| one(s, x));
}

fn main() {
    let (_, mut c) = check();
    run(&mut c);
    c.finish()
}
