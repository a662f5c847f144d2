//! Components of the real schemas that lie in the repository (input/), as seeds for rewriting.
use crate::xml::*;
use std::collections::BTreeSet;
use std::path::Path;
use vp_common::*;

pub struct Real {
    /// The schema element without its children
    root: X,
    parts: Vec<X>,
    xs: String,
}

fn tree(n: roxmltree::Node) -> X {
    let mut x = X::new("");
    let inherited: Vec<(Option<&str>, &str)> = match n.parent_element() {
        Some(p) => p.namespaces().map(|d| (d.name(), d.uri())).collect(),
        None => vec![],
    };
    for d in n.namespaces() {
        if d.name() != Some("xml") && !inherited.contains(&(d.name(), d.uri())) {
            x.ns(d.name(), d.uri());
        }
    }
    let of = |uri: Option<&str>, attr: bool| -> String {
        match uri {
            None => String::new(),
            Some(u) if u == "http://www.w3.org/XML/1998/namespace" => "xml:".into(),
            Some(u) => n
                .namespaces()
                .filter(|d| d.uri() == u && !(attr && d.name().is_none()))
                .filter(|d| n.lookup_namespace_uri(d.name()) == Some(u))
                .map(|d| d.name().map(|p| format!("{}:", p)).unwrap_or_default())
                .next()
                .unwrap_or_default(),
        }
    };
    x.tag = format!("{}{}", of(n.tag_name().namespace(), false), n.tag_name().name());
    for a in n.attributes() {
        x.attr(&format!("{}{}", of(a.namespace(), true), a.name()), a.value());
    }
    let text = n.children().any(|k| k.is_text() && !k.text().unwrap_or("").trim().is_empty());
    for k in n.children() {
        if k.is_element() {
            x.kids.push(K::E(tree(k)));
        } else if k.is_text() && text {
            x.kids.push(K::T(k.text().unwrap_or("").into()));
        }
    }
    x
}

fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = match std::fs::read_dir(d) {
        Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "xsd") {
            out.push(p);
        }
    }
}

pub fn real() -> Vec<Real> {
    let mut v = vec![];
    for d in ["input", "xsd-parser/tests"] {
        files(&Path::new(&repo()).join(d), &mut v);
    }
    let mut out = vec![];
    for p in v {
        let Ok(t) = std::fs::read_to_string(&p) else { continue };
        let Ok(d) = roxmltree::Document::parse(&t) else { continue };
        if !d.root_element().has_tag_name((XSD, "schema")) {
            continue;
        }
        let mut root = tree(d.root_element());
        let mut parts: Vec<X> = std::mem::take(&mut root.kids).into_iter().filter_map(|k| if let K::E(x) = k { Some(x) } else { None }).collect();
        // kinds the generators do not take, and names used twice
        let mut names = BTreeSet::new();
        parts.retain(|x| {
            let name = x.attrs.iter().find(|a| a.0 == "name").map(|a| a.1.to_lowercase());
            let known = matches!(x.local(), "complexType" | "simpleType" | "element" | "attribute" | "attributeGroup" | "import" | "include");
            known && supported(x) && name.map_or(true, |n| names.insert(n))
        });
        let xs = root.tag.strip_suffix("schema").unwrap_or("").to_string();
        if !parts.is_empty() {
            out.push(Real { root, parts, xs });
        }
    }
    out
}

fn supported(x: &X) -> bool {
    let bad = |e: &X| {
        let inside = |tags: &[&str]| e.elems().any(|k| tags.contains(&k.local()));
        match e.local() {
            "group" | "redefine" | "notation" => true,
            "sequence" | "all" => inside(&["sequence", "group"]),
            "simpleContent" => inside(&["restriction"]),
            _ => false,
        }
    };
    if matches!(x.local(), "documentation" | "appinfo") {
        return true;
    }
    !bad(x) && x.elems().all(supported)
}

/// A schema of some components of a real one, and its prefix of XSD.
pub fn excerpt(all: &[Real], s: &mut Src) -> (X, String) {
    let r = &all[s.below(all.len())];
    let mut x = r.root.clone();
    let most = r.parts.len().min(12);
    let mut picked: Vec<usize> = (0..1 + s.below(most)).map(|_| s.below(r.parts.len())).collect();
    picked.sort();
    picked.dedup();
    for i in picked {
        x.kids.push(K::E(r.parts[i].clone()));
    }
    (x, r.xs.clone())
}
