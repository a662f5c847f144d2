//! G11 to G13: documentation, repetition and equivalent rewriting.
use crate::ast;
use crate::expect::Judge;
use crate::corpus::{excerpt, real, Real};
use crate::model::*;
use crate::structural::generate;
use crate::xml::*;
use std::str::FromStr;
use vp_common::*;
use xsd_parser::{generator::builder::GeneratorBuilder, generator::Generator, parser::parse, parser::types::RsFile};

fn tokens(text: &str) -> Result<String, String> {
    let ts = proc_macro2::TokenStream::from_str(text).map_err(|e| format!("not Rust tokens: {}", e))?;
    Ok(ast::toks(&ts))
}

/// Items of a file as text, sorted.
pub fn item_set(text: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(text).map_err(|e| format!("not a Rust file: {}", e))?;
    let mut v: Vec<String> = f.items.iter().map(ast::toks).collect();
    v.sort();
    Ok(v)
}

pub fn first_difference(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| -> String {
        let from = (0..=n.saturating_sub(30)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
        s[from..].chars().take(110).collect()
    };
    format!("{:?} against {:?}", cut(a), cut(b))
}

// ------------------------------------------------------------------------ G11

const DOCUMENTED: &[&str] = &[
    "complexType", "simpleType", "element", "attribute", "enumeration", "restriction", "extension", "sequence",
    "choice", "all", "union", "list", "any", "anyAttribute", "attributeGroup", "import", "complexContent",
    "simpleContent", "pattern", "length", "minLength", "maxLength", "minInclusive", "maxInclusive",
    "minExclusive", "maxExclusive", "totalDigits", "whiteSpace",
];

/// Text of a documentation element, as text, CDATA, with markup or comments.
pub fn doc_kids(s: &mut Src, t: &str) -> Vec<K> {
    let cut = |s: &mut Src, t: &str| -> (String, String) {
        let cs: Vec<char> = t.chars().collect();
        let i = s.below(cs.len() + 1);
        (cs[..i].iter().collect(), cs[i..].iter().collect())
    };
    match s.below(6) {
        0 if !t.contains("]]>") && !t.contains('\r') => vec![K::Raw(format!("<![CDATA[{}]]>", t))],
        1 => {
            let (a, b) = cut(s, t);
            vec![K::T(a), K::Raw("<!-- aside -->".into()), K::T(b)]
        }
        2 => {
            let (a, b) = cut(s, t);
            let mut x = X::new(*s.pick(&["b", "xs:element", "complexType", "p"]));
            if x.tag.starts_with("xs:") {
                x.ns(Some("xs"), XSD);
            }
            x.attr("name", "Example");
            x.kids.push(K::T(a));
            vec![K::E(x), K::T(b)]
        }
        _ => vec![K::T(t.into())],
    }
}

fn is_doc(x: &X) -> bool {
    x.local() == "documentation"
}

/// Removes, replaces or adds documentation everywhere.
fn redoc(x: &mut X, s: &mut Src, xs: &str, remove: bool) {
    if x.local() == "documentation" || x.local() == "appinfo" {
        return;
    }
    if x.local() != "schema" || remove {
        x.kids.retain(|k| !matches!(k, K::E(a) if a.local() == "annotation") || !remove && s.flip());
    }
    if !remove && DOCUMENTED.contains(&x.local()) && s.chance(1, 3) && !x.elems().any(|a| a.local() == "annotation") {
        let mut a = X::new(format!("{}annotation", xs));
        for _ in 0..s.count(3) {
            let mut d = X::new(format!("{}{}", xs, if s.chance(1, 4) { "appinfo" } else { "documentation" }));
            if s.chance(1, 4) {
                d.attr("xml:lang", "en");
            }
            let t = doc_text(s);
            d.kids = doc_kids(s, &t);
            a.kids.push(K::E(d));
        }
        x.kids.insert(0, K::E(a));
    }
    for k in &mut x.kids {
        match k {
            K::E(e) if is_doc(e) && !remove => {
                let t = doc_text(s);
                e.kids = doc_kids(s, &t);
            }
            K::E(e) => redoc(e, s, xs, remove),
            _ => (),
        }
    }
}

fn markup(x: &mut X, s: &mut Src) {
    for k in &mut x.kids {
        if let K::E(e) = k {
            if is_doc(e) {
                let t: String = e.kids.iter().filter_map(|k| if let K::T(t) = k { Some(t.as_str()) } else { None }).collect();
                e.kids = doc_kids(s, &t);
            } else {
                markup(e, s);
            }
        }
    }
}

fn docs(p: &Profile, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sch = schema(s, p);
    let mut tree = sch.tree();
    markup(&mut tree, s);
    let xml = tree.plain();
    c.desc(xml.clone());
    c.key(&xml);
    let text = generate(&xml)?;
    let code = ast::read(&text)?;
    let (diffs, counts) = Judge::run(&sch, &code);
    if let Some(d) = diffs.iter().find(|d| d.0.contains(&"G11")) {
        return Err(d.1.clone());
    }
    let xs = sch.xsd_prefix().map(|p| format!("{}:", p)).unwrap_or_default();
    undocumented(s, c, &xml, &text, &tree, &xs)?;
    c.nontrivial(counts.documented >= 1 && counts.words >= 3);
    c.evals(2 + counts.documented as u64);
    Ok(())
}

/// The code is the same without documentation and with other documentation.
fn undocumented(s: &mut Src, c: &mut Ctx, xml: &str, text: &str, tree: &X, xs: &str) -> Result<(), String> {
    let base = tokens(text)?;
    let mut bare = tree.clone();
    redoc(&mut bare, s, xs, true);
    let mut other = tree.clone();
    redoc(&mut other, s, xs, false);
    for (what, t) in [("without documentation", bare), ("with other documentation", other)] {
        let x = t.plain();
        let g = tokens(&generate(&x)?)?;
        if g != base {
            c.desc(format!("{}\n--- {} ---\n{}", xml, what, x));
            return Err(format!("{} the code differs: {}", what, first_difference(&base, &g)));
        }
    }
    Ok(())
}

/// The same for components of real schemas.
fn real_docs(all: &[Real], s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (tree, xs) = excerpt(all, s);
    let xml = tree.plain();
    c.desc(xml.clone());
    c.key(&xml);
    let text = generate(&xml)?;
    undocumented(s, c, &xml, &text, &tree, &xs)?;
    c.nontrivial(xml.contains("documentation>"));
    c.evals(2);
    Ok(())
}

// ------------------------------------------------------------------------ G12

enum Slot<'x> {
    Fresh,
    Kept(RsFile<'x>, usize),
}

fn again(make: &dyn Fn(&mut Src) -> X, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = 1 + s.below(3);
    let mut xmls = vec![];
    for _ in 0..n {
        let tree = make(s);
        xmls.push(if s.chance(1, 4) { tree.styled(s) } else { tree.plain() });
    }
    let want: Vec<String> = xmls.iter().map(|x| generate(x)).collect::<Result<_, _>>()?;
    let mut log: Vec<String> = vec![];
    let mut gens: Vec<Generator> = vec![GeneratorBuilder::default().build()];
    let mut slots: Vec<Slot> = vec![];
    let steps = 2 + s.below(14);
    let mut repeats = 0;
    let res = (|| -> Result<(), String> {
        let mut used: Vec<(usize, usize)> = vec![];
        for _ in 0..steps {
            match s.below(8) {
                0 => {
                    gens.push(GeneratorBuilder::default().build());
                    log.push(format!("g{} = new generator", gens.len() - 1));
                }
                1 | 2 => {
                    let i = s.below(n);
                    slots.push(Slot::Kept(parse(&xmls[i]).map_err(|_| "refused".to_string())?, i));
                    log.push(format!("f{} = parse(schema {})", slots.len() - 1, i));
                }
                3 => {
                    // a copy of a parse result
                    let k = s.below(slots.len().max(1));
                    if let Some(Slot::Kept(f, i)) = slots.get(k) {
                        let (f, i) = (f.clone(), *i);
                        slots.push(Slot::Kept(f, i));
                        log.push(format!("f{} = f{}.clone()", slots.len() - 1, k));
                    }
                }
                4 => {
                    // threads of their own
                    let i = s.below(n);
                    log.push(format!("schema {} in 3 threads", i));
                    let x = &xmls[i];
                    let outs: Vec<Result<String, String>> = std::thread::scope(|sc| {
                        let hs: Vec<_> = (0..3).map(|_| sc.spawn(move || generate(x))).collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
                    });
                    for o in outs {
                        let o = o?;
                        if o != want[i] {
                            return Err(format!("a thread gave other code for schema {}: {}", i, first_difference(&want[i], &o)));
                        }
                    }
                    slots.push(Slot::Fresh);
                }
                _ => {
                    if slots.is_empty() {
                        continue;
                    }
                    let k = s.below(slots.len());
                    let g = s.below(gens.len());
                    if let Slot::Kept(f, i) = &slots[k] {
                        log.push(format!("g{}.generate(f{})", g, k));
                        repeats += used.iter().any(|u| u.0 == g || u.1 == k) as u32;
                        used.push((g, k));
                        let t = gens[g].generate_rs_file(f);
                        if t != want[*i] {
                            return Err(format!("other code for schema {}: {}", i, first_difference(&want[*i], &t)));
                        }
                    }
                }
            }
        }
        Ok(())
    })();
    c.desc(format!("{}\n--- steps ---\n{}", xmls.join("\n--- schema ---\n"), log.join("\n")));
    c.key(&(xmls.join("|"), log.join("|")));
    c.nontrivial(repeats >= 1 && want.iter().any(|w| w.len() > 200));
    c.evals(repeats as u64);
    res
}

// ------------------------------------------------------------------------ G13

const QNAMES: &[&str] = &["type", "ref", "base", "itemType", "memberTypes"];

fn uses(x: &X, prefix: &str) -> bool {
    let p = format!("{}:", prefix);
    x.attrs.iter().any(|(k, v)| QNAMES.contains(&k.as_str()) && v.split_whitespace().any(|w| w.starts_with(&p)))
}

fn each(x: &mut X, f: &mut dyn FnMut(&mut X)) {
    f(x);
    for k in &mut x.kids {
        if let K::E(e) = k {
            if !matches!(e.local(), "documentation" | "appinfo") {
                each(e, f);
            }
        }
    }
}

fn rewrite(sch: &Schema, s: &mut Src, log: &mut Vec<&'static str>) -> String {
    let mut sch = sch.clone();
    if s.chance(1, 2) {
        s.shuffle(&mut sch.decls);
        log.push("reordered");
    }
    if s.chance(1, 2) {
        let taken = |p: &str| sch.prefix() == Some(p) || sch.foreign.iter().chain(&sch.unused_ns).any(|f| f.0 == p);
        let p = *s.pick(&["xs", "xsd", "q", "x-1", "W3C", "schema", "a.b"]);
        if !taken(p) {
            log.push("xsd prefix");
            let simple = matches!(sch.target, Target::Prefix(_));
            sch.xsd = match s.below(4) {
                0 if simple => XsdNs::Default,
                1 if simple => XsdNs::Both(p.into()),
                _ => XsdNs::Prefix(p.into()),
            };
        }
    }
    let mut t = sch.tree();
    if s.chance(1, 2) {
        // declarations of other namespaces go where they are used
        for (p, u) in &sch.foreign {
            let how = s.below(3);
            if how == 0 || u == XML_NS {
                continue;
            }
            log.push("namespace declarations");
            let at_top = s.flip();
            for k in &mut t.kids {
                if let K::E(e) = k {
                    if at_top {
                        e.ns(Some(p), u);
                    } else {
                        each(e, &mut |x| {
                            if uses(x, p) {
                                x.ns(Some(p), u)
                            }
                        });
                    }
                }
            }
            if how == 1 {
                let a = format!("xmlns:{}", p);
                t.attrs.retain(|x| x.0 != a);
            }
        }
    }
    let xs = sch.xsd_prefix().map(|p| format!("{}:", p)).unwrap_or_default();
    restyle(&mut t, &xs, s, log)
}

/// Rewritings that need no more than the document.
fn restyle(t: &mut X, xs: &str, s: &mut Src, log: &mut Vec<&'static str>) -> String {
    if s.chance(1, 3) {
        log.push("repeated declarations");
        let ns: Vec<(String, String)> = t.attrs.iter().filter(|a| a.0.starts_with("xmlns")).cloned().collect();
        each(t, &mut |x| {
            for n in &ns {
                if s.chance(1, 6) && !x.attrs.iter().any(|a| a.0 == n.0) {
                    x.attrs.push(n.clone());
                }
            }
        });
    }
    if s.chance(1, 2) {
        log.push("ignorable attributes");
        let mut n = 0;
        each(t, &mut |x| {
            if s.chance(1, 4) && !x.attrs.iter().any(|a| a.0 == "id") {
                n += 1;
                x.attr("id", &format!("id{}", n));
            }
            if s.chance(1, 6) {
                x.attr("hint:note", "name");
                x.ns(Some("hint"), "urn:hint");
            }
            let has = |x: &X, a: &str| x.attrs.iter().any(|y| y.0 == a);
            match x.local() {
                "element" if s.chance(1, 4) && (has(x, "minOccurs") || has(x, "maxOccurs")) => {
                    // the default said out loud
                    if !has(x, "minOccurs") {
                        x.attr("minOccurs", "1");
                    } else if !has(x, "maxOccurs") && x.attrs.iter().any(|a| a.0 == "minOccurs" && Bounds { min: Some(a.1.clone()), max: None }.lo() <= 1) {
                        x.attr("maxOccurs", "1");
                    }
                }
                "attribute" if s.chance(1, 4) && !has(x, "use") => (),
                "complexType" if !has(x, "mixed") && s.chance(1, 5) => x.attr("mixed", "false"),
                _ => (),
            }
        });
    }
    if s.chance(1, 2) {
        log.push("annotations");
        redoc(t, s, xs, false);
    }
    if s.chance(1, 2) {
        log.push("comments");
        each(t, &mut |x| {
            if x.has_text() {
                return;
            }
            for _ in 0..s.count(3) {
                if s.chance(1, 2) {
                    let i = s.below(x.kids.len() + 1);
                    let r = s.pick(&["<!-- note -->", "<!--<xs:element name=\"n\"/>-->", "<?app do?>", "<?xml-stylesheet href=\"a\"?>"]);
                    x.kids.insert(i, K::Raw(r.to_string()));
                }
            }
        });
    }
    if s.chance(1, 2) {
        log.push("attribute order");
        each(t, &mut |x| s.shuffle(&mut x.attrs));
    }
    if s.chance(2, 3) {
        log.push("style");
        let x = t.styled(s);
        if s.chance(1, 6) && x.starts_with("<?xml") {
            return format!("\u{feff}{}", x);
        }
        x
    } else {
        t.plain()
    }
}

fn same(p: &Profile, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sch = schema(s, p);
    equivalent(sch.tree().plain(), &|s, log| rewrite(&sch, s, log), s, c)
}

/// The same for components of real schemas.
fn real_same(all: &[Real], s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (tree, xs) = excerpt(all, s);
    let other = |s: &mut Src, log: &mut Vec<&'static str>| {
        let mut t = tree.clone();
        if s.flip() {
            log.push("reordered");
            s.shuffle(&mut t.kids);
        }
        restyle(&mut t, &xs, s, log)
    };
    equivalent(tree.plain(), &other, s, c)
}

fn equivalent(xml: String, rewritten: &dyn Fn(&mut Src, &mut Vec<&'static str>) -> String, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c.desc(xml.clone());
    let base = item_set(&generate(&xml)?)?;
    let mut strong = false;
    for _ in 0..2 {
        let mut log = vec![];
        let other = rewritten(s, &mut log);
        let g = generate(&other).and_then(|t| item_set(&t));
        let fail = |c: &mut Ctx, m: String| {
            c.desc(format!("{}\n--- rewritten: {} ---\n{}", xml, log.join(", "), other));
            Err(m)
        };
        let g = match g {
            Ok(g) => g,
            Err(m) => return fail(c, m),
        };
        if g != base {
            let lost = base.iter().find(|x| !g.contains(x));
            let new = g.iter().find(|x| !base.contains(x));
            return match (lost, new) {
                (Some(l), Some(n)) => fail(c, format!("the rewritten schema differs: {}", first_difference(l, n))),
                _ => fail(c, format!("the rewritten schema loses {:?} and gains {:?}", lost, new)),
            };
        }
        strong |= log.len() >= 2;
    }
    c.key(&xml);
    c.nontrivial(strong && base.len() >= 4);
    c.evals(2);
    Ok(())
}

pub fn run(c: &mut Check, id: &'static str) {
    let small = |p: &Profile| Profile { decls: 2, depth: 1, ..p.clone() };
    match id {
        "G11" => {
            c.rule = "at least one documented definition or member and three documentation words to be found".into();
            let p = Profile { docs: 5, ..BASE };
            c.prop("small", c.scale(60000, 900000), 120, &|s, x| docs(&small(&p), s, x));
            c.prop("schema", c.scale(50000, 900000), 700, &|s, x| docs(&p, s, x));
            let all = real();
            c.prop("real", c.scale(3000, 100000), 300, &|s, x| real_docs(&all, s, x));
        }
        "G12" => {
            c.rule = "at least one step reuses a generator or parse result, for a schema with definitions".into();
            let p = Profile { decls: 5, odd_ns: 5, ..BASE };
            c.prop("small", c.scale(60000, 900000), 150, &|s, x| again(&|s| schema(s, &small(&p)).tree(), s, x));
            c.prop("history", c.scale(50000, 900000), 900, &|s, x| again(&|s| schema(s, &p).tree(), s, x));
            let all = real();
            c.prop("real", c.scale(1500, 60000), 120, &|s, x| again(&|s| excerpt(&all, s).0, s, x));
        }
        "G13" => {
            c.rule = "at least two kinds of rewriting at once, for code of at least four items".into();
            let p = Profile { odd_ns: 3, foreign: 2, derive: 4, ..BASE };
            c.prop("small", c.scale(40000, 600000), 200, &|s, x| same(&small(&p), s, x));
            c.prop("schema", c.scale(30000, 700000), 1200, &|s, x| same(&p, s, x));
            let all = real();
            c.prop("real", c.scale(3000, 100000), 500, &|s, x| real_same(&all, s, x));
        }
        _ => unreachable!(),
    }
}
