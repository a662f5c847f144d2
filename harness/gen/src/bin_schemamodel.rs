//! G18: the schema model (`xsd_parser::parser::types`) against the schema written.
use std::collections::BTreeSet;
use vp_common::*;
use vp_gen::check;
use vp_gen::meta::doc_kids;
use vp_gen::model::doc_text;
use vp_gen::xml::*;
use xsd_parser::parser::parse;
use xsd_parser::parser::types::*;
use xsd_parser::parser::xsd_elements::{FacetType, WhiteSpace};

const HEADS: &str = "abcdefgmopxyzABMOPTXYZ_éΩж";
const TAILS: &str = "abcxyzABXYZ0129.-_éΩж";
const FACETS: &[&str] = &[
    "fractionDigits", "length", "maxExclusive", "maxInclusive", "maxLength", "minExclusive", "minInclusive",
    "minLength", "pattern", "totalDigits", "whiteSpace", "enumeration",
];

/// A document text without the blanks, which comments are free to lay out.
type Doc = String;

#[derive(Clone, Debug, PartialEq)]
struct MFacet {
    kind: String,
    value: String,
    doc: Doc,
}

#[derive(Clone, Debug, PartialEq)]
struct MField {
    name: String,
    ty: String,
    source: &'static str,
    modifiers: Vec<&'static str>,
    doc: Doc,
    inline: Vec<M>,
}

#[derive(Clone, Debug, PartialEq)]
struct MCase {
    name: String,
    value: String,
    ty: Option<String>,
    modifiers: Vec<&'static str>,
    doc: Doc,
}

#[derive(Clone, Debug, PartialEq)]
enum M {
    Import { namespace: String, location: String },
    Alias { name: String, original: String, doc: Doc },
    Tuple { name: String, ty: String, doc: Doc, modifiers: Vec<&'static str>, facets: Vec<MFacet> },
    Enum { name: String, source: &'static str, doc: Doc, cases: Vec<MCase>, owner: Vec<M> },
    Struct { name: String, doc: Doc, fields: Vec<MField> },
    Other(String),
}

struct Model {
    target: Option<(String, Option<String>)>,
    types: Vec<M>,
    groups: Vec<M>,
}

fn ncname(s: &mut Src) -> String {
    if s.chance(1, 6) {
        return s.pick(&["schema", "element", "type", "name", "String", "annotation", "T", "any", "import", "value", "base", "xs", "Choice"]).to_string();
    }
    let h: Vec<char> = HEADS.chars().collect();
    let t: Vec<char> = TAILS.chars().collect();
    let mut o = s.pick(&h).to_string();
    for _ in 0..s.count(8) {
        o.push(*s.pick(&t));
    }
    o
}

fn unique(s: &mut Src, used: &mut BTreeSet<String>) -> String {
    let mut n = ncname(s);
    while !used.insert(n.clone()) {
        n.push('x');
    }
    n
}

fn letters(t: &str) -> Doc {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

struct B {
    xs: String,
    tns: Option<String>,
}

impl B {
    fn x(&self, tag: &str) -> X {
        X::new(format!("{}{}", self.xs, tag))
    }

    /// Attributes in any order, perhaps beside ones of another namespace with the same names.
    fn finish(&self, s: &mut Src, x: &mut X) {
        if s.chance(1, 8) {
            for k in ["name", "type", "ref", "value", "itemType", "base", "use", "minOccurs", "maxOccurs", "memberTypes", "namespace", "schemaLocation", "targetNamespace"] {
                if s.chance(1, 3) {
                    x.attr(&format!("ext:{}", k), s.pick(&["decoy", "0", "unbounded", "prohibited", "required"]));
                }
            }
            x.ns(Some("ext"), "urn:ext");
        }
        if s.chance(1, 8) {
            x.attr("id", "i");
        }
        if x.attrs.len() > 1 && s.flip() {
            s.shuffle(&mut x.attrs);
        }
    }

    /// An annotation, perhaps with documentation, before anything else.
    fn doc(&self, s: &mut Src, x: &mut X) -> Doc {
        if !s.chance(1, 4) {
            return Doc::new();
        }
        let mut a = self.x("annotation");
        let mut all = String::new();
        if s.chance(1, 5) {
            let mut i = self.x("appinfo");
            let mut e = X::new("ext:element");
            e.ns(Some("ext"), "urn:ext");
            e.attr("name", "decoy");
            i.kids.push(K::E(e));
            i.kids.push(K::T("not documentation".into()));
            a.kids.push(K::E(i));
        }
        for _ in 0..(if s.chance(1, 6) { s.below(3) } else { 1 }) {
            let mut d = self.x("documentation");
            if s.chance(1, 5) {
                d.attr("source", "urn:source");
            }
            if s.chance(1, 5) {
                d.attr("xml:lang", "en");
            }
            let t = doc_text(s);
            all.push_str(&t);
            d.kids = doc_kids(s, &t);
            a.kids.push(K::E(d));
        }
        aside(s, &mut a.kids);
        x.kids.insert(0, K::E(a));
        letters(&all)
    }

    fn type_name(&self, s: &mut Src) -> String {
        match s.below(3) {
            0 => format!("{}{}", self.xs, s.pick(&["string", "int", "date", "decimal", "boolean", "token", "anyURI", "NMTOKENS", "ID"])),
            1 => {
                let n = ncname(s);
                format!("far:{}", n)
            }
            _ => {
                // a type of this schema, but never one that is declared: no type contains itself
                let n = format!("{}-absent", ncname(s));
                match &self.tns {
                    Some(p) => format!("{}:{}", p, n),
                    None => n,
                }
            }
        }
    }

    fn facet(&self, s: &mut Src, kind: &str) -> (X, MFacet) {
        let value = match kind {
            "whiteSpace" => s.pick(&["preserve", "replace", "collapse"]).to_string(),
            "pattern" => s.pick(&["[A-Z]{2}\\d+", ".*", "", "\"q\"|'r'", "a&b<c>", "\\p{L}\\s", "é|Ω", "//.*", "(a|b)*?c{2,3}", "{}", " padded ", "a\nb\tc", " ", "[0-9a-fA-F]{1,64}(:[0-9]{1,5})?(/[^/?#]+)*"]).to_string(),
            "length" | "minLength" | "maxLength" | "totalDigits" | "fractionDigits" => {
                s.pick(&["0", "1", "5", "255", "007", "+3", "18446744073709551615", "99999999999999999999999"]).to_string()
            }
            "enumeration" => s.pick(&["a b", "x:y", "", "é", "1.5", "*", "a,b", "\"", "tt:One", " x", "x ", "a  b"]).to_string(),
            _ => s
                .pick(&["0", "-1", "+10", "1.50", "-0.0", "INF", "1e5", "2020-01-01", "2020-01-01T00:00:00Z", "P1Y", "340282366920938463463374607431768211456", "010"])
                .to_string(),
        };
        let mut x = self.x(kind);
        x.attr("value", &value);
        if s.chance(1, 5) {
            x.attr("fixed", s.pick(&["true", "false"]));
        }
        let doc = self.doc(s, &mut x);
        self.finish(s, &mut x);
        (x, MFacet { kind: kind.into(), value, doc })
    }

    /// A restriction with facets that make a wrapper.
    fn wrapper(&self, s: &mut Src, name: &str, doc: Doc) -> (X, M) {
        let mut r = self.x("restriction");
        let ty = self.type_name(s);
        r.attr("base", &ty);
        let mut facets = vec![];
        for _ in 0..s.count(6) {
            let kind = *s.pick(&FACETS[..11]);
            let (x, f) = self.facet(s, kind);
            r.kids.push(K::E(x));
            facets.push(f);
        }
        if s.chance(1, 5) {
            // values that are no names keep the restriction a wrapper
            for _ in 0..1 + s.count(3) {
                let (x, f) = self.facet(s, "enumeration");
                let i = s.below(facets.len() + 1);
                r.kids.insert(i, K::E(x));
                facets.insert(i, f);
            }
        }
        if s.chance(1, 6) {
            self.unheard(s, &mut r);
        }
        aside(s, &mut r.kids);
        self.finish(s, &mut r);
        (r, M::Tuple { name: name.into(), ty, doc, modifiers: vec![], facets })
    }

    /// An annotation whose text the model does not hold.
    fn unheard(&self, s: &mut Src, x: &mut X) {
        let mut a = self.x("annotation");
        let mut i = self.x("appinfo");
        i.kids.push(K::T(doc_text(s)));
        a.kids.push(K::E(i));
        x.kids.insert(0, K::E(a));
    }

    fn simple(&self, s: &mut Src, name: Option<&str>, shown: &str) -> (X, M) {
        let mut t = self.x("simpleType");
        if let Some(n) = name {
            t.attr("name", n);
        }
        if s.chance(1, 8) {
            t.attr("final", "#all");
        }
        let doc = self.doc(s, &mut t);
        let (x, m) = match s.below(if name.is_some() { 6 } else { 3 }) {
            0..=2 => self.wrapper(s, shown, doc),
            3 => {
                let mut l = self.x("list");
                let ty = self.type_name(s);
                l.attr("itemType", &ty);
                self.finish(s, &mut l);
                (l, M::Tuple { name: shown.into(), ty, doc, modifiers: vec!["Array"], facets: vec![] })
            }
            4 => {
                let mut u = self.x("union");
                let mut list = vec![];
                for _ in 0..1 + s.count(4) {
                    list.push(self.type_name(s));
                }
                u.attr("memberTypes", &list.join(s.pick(&[" ", "  ", " "])));
                self.finish(s, &mut u);
                let cases = list.iter().map(|n| MCase { name: n.clone(), value: String::new(), ty: Some(n.clone()), modifiers: vec![], doc: Doc::new() });
                (u, M::Enum { name: shown.into(), source: "Union", doc, cases: cases.collect(), owner: vec![] })
            }
            _ => {
                let mut r = self.x("restriction");
                r.attr("base", &format!("{}string", self.xs));
                let mut used = BTreeSet::new();
                let mut cases = vec![];
                for _ in 0..1 + s.count(5) {
                    let mut v = s.pick(&["One", "Two", "a", "B7", "high-speed", "12", "self", "x1y2", "Default"]).to_string();
                    while !used.insert(letters(&v).to_lowercase().replace('-', "")) {
                        v.push('q');
                    }
                    let mut x = self.x("enumeration");
                    x.attr("value", &v);
                    let doc = self.doc(s, &mut x);
                    self.finish(s, &mut x);
                    r.kids.push(K::E(x));
                    cases.push(MCase { name: v.clone(), value: v, ty: None, modifiers: vec![], doc });
                }
                aside(s, &mut r.kids);
                self.finish(s, &mut r);
                (r, M::Enum { name: shown.into(), source: "Restriction", doc, cases, owner: vec![] })
            }
        };
        t.kids.push(K::E(x));
        aside(s, &mut t.kids);
        self.finish(s, &mut t);
        (t, m)
    }

    /// Occurrence bounds and the modifier that they mean.
    fn bounds(&self, s: &mut Src, x: &mut X) -> &'static str {
        let min = *s.pick(&[None, Some("0"), Some("1"), Some("2"), Some("00"), Some("1000000000000000000000")]);
        let max = *s.pick(&[None, Some("1"), Some("unbounded"), Some("7"), Some("2"), Some("1000000000000000000000"), Some("01")]);
        let (min, max) = match (min, max) {
            // the maximum is not below the minimum
            (Some(m), Some("1" | "01" | "2" | "7")) if m.len() > 2 => (Some(m), Some("unbounded")),
            (Some("2"), Some("1" | "01")) => (Some("2"), Some("2")),
            // without a maximum the minimum is at most one
            (Some(m), None) if m.len() > 2 || m == "2" => (None, None),
            p => p,
        };
        if let Some(v) = min {
            x.attr("minOccurs", v);
        }
        if let Some(v) = max {
            x.attr("maxOccurs", v);
        }
        let none = matches!(min, Some("0" | "00"));
        let one = matches!(max, None | Some("1" | "01"));
        match (none, one) {
            (_, false) => "Array",
            (true, _) => "Option",
            _ => "None",
        }
    }

    fn attribute(&self, s: &mut Src, used: &mut BTreeSet<String>) -> (X, MField) {
        let mut x = self.x("attribute");
        let mut f = MField { name: String::new(), ty: String::new(), source: "Attribute", modifiers: vec![], doc: Doc::new(), inline: vec![] };
        if s.chance(1, 5) {
            let n = format!("far:{}", unique(s, used));
            x.attr("ref", &n);
            f.ty = n.clone();
            f.name = n;
        } else {
            f.name = unique(s, used);
            x.attr("name", &f.name);
            f.ty = match s.chance(1, 6) {
                true => "String".into(),
                false => {
                    let n = self.type_name(s);
                    x.attr("type", &n);
                    n
                }
            };
        }
        f.modifiers = vec![match s.below(5) {
            0 => {
                x.attr("use", "optional");
                "Option"
            }
            1 | 2 => {
                x.attr("use", "required");
                "None"
            }
            3 if s.chance(1, 2) => {
                x.attr("use", "prohibited");
                "Empty"
            }
            _ => "Option",
        }];
        if s.chance(1, 8) {
            x.attr("default", "d");
        }
        f.doc = self.doc(s, &mut x);
        self.finish(s, &mut x);
        (x, f)
    }

    fn element(&self, s: &mut Src, used: &mut BTreeSet<String>, inline: bool) -> (X, MField) {
        let mut x = self.x("element");
        let mut f = MField { name: String::new(), ty: String::new(), source: "Element", modifiers: vec![], doc: Doc::new(), inline: vec![] };
        if s.chance(1, 6) {
            let n = format!("far:{}", unique(s, used));
            x.attr("ref", &n);
            f.ty = n.clone();
            f.name = n;
        } else {
            f.name = unique(s, used);
            x.attr("name", &f.name);
            if inline && s.chance(1, 5) {
                f.ty = format!("{}Type", f.name);
                let (k, m) = self.simple(s, None, &f.ty.clone());
                x.kids.push(K::E(k));
                f.inline.push(m);
            } else {
                f.ty = self.type_name(s);
                x.attr("type", &f.ty);
            }
        }
        f.modifiers = vec![self.bounds(s, &mut x)];
        if s.chance(1, 8) {
            x.attr("nillable", "true");
        }
        f.doc = self.doc(s, &mut x);
        self.finish(s, &mut x);
        (x, f)
    }

    fn attributes(&self, s: &mut Src, used: &mut BTreeSet<String>, t: &mut X, fields: &mut Vec<MField>) {
        for _ in 0..s.count(3) {
            let (x, f) = self.attribute(s, used);
            t.kids.push(K::E(x));
            fields.push(f);
        }
    }

    fn complex(&self, s: &mut Src, name: &str) -> (X, M) {
        let mut t = self.x("complexType");
        t.attr("name", name);
        let doc = self.doc(s, &mut t);
        let mut used = BTreeSet::new();
        let mut fields = vec![];
        let kind = *s.pick(&["sequence", "sequence", "sequence", "all", "choice", "", ""]);
        let mut cases = vec![];
        if !kind.is_empty() {
            let mut q = self.x(kind);
            for _ in 0..1 + s.count(5) {
                let (x, f) = self.element(s, &mut used, kind != "choice");
                q.kids.push(K::E(x));
                if kind == "choice" {
                    cases.push(MCase { name: f.name, value: String::new(), ty: Some(f.ty), modifiers: f.modifiers, doc: f.doc });
                } else {
                    fields.push(f);
                }
            }
            if s.chance(1, 6) {
                self.unheard(s, &mut q);
            }
            aside(s, &mut q.kids);
            t.kids.push(K::E(q));
        }
        self.attributes(s, &mut used, &mut t, &mut fields);
        aside(s, &mut t.kids);
        self.finish(s, &mut t);
        if kind == "choice" {
            let n = format!("{}Choice", name);
            fields.push(MField { name: n.clone(), ty: n.clone(), source: "Choice", modifiers: vec![], doc: Doc::new(), inline: vec![] });
            return (t, M::Enum { name: n, source: "Choice", doc: Doc::new(), cases, owner: vec![M::Struct { name: name.into(), doc, fields }] });
        }
        (t, M::Struct { name: name.into(), doc, fields })
    }
}

fn aside(s: &mut Src, kids: &mut Vec<K>) {
    if s.chance(1, 8) {
        let i = s.below(kids.len() + 1);
        kids.insert(i, K::Raw(s.pick(&["<!-- a note -->", "<?pi here?>", "<!--<xs:element name=\"Not\"/>-->", "<!--<attribute/>-->"]).to_string()));
    }
}

fn build(s: &mut Src) -> (X, Model) {
    let pre = *s.pick(&[Some("xs"), Some("xsd"), Some("S"), Some("схема"), None]);
    let mut b = B { xs: pre.map(|p| format!("{}:", p)).unwrap_or_default(), tns: None };
    let mut root = b.x("schema");
    root.ns(pre, XSD);
    let mut target = None;
    if s.chance(4, 5) {
        let u = s.pick(&["urn:a", "http://www.example.org/b?x=1&y=2", "urn:ünï", "http://example.org/c#d", "urn:with'quote"]).to_string();
        root.attr("targetNamespace", &u);
        let named = s.chance(3, 4);
        let plain = pre.is_some() && s.chance(1, 3);
        let p = *s.pick(&["tns", "t-2", "a.b", "Тт"]);
        if plain {
            root.ns(None, &u);
        }
        if named {
            root.ns(Some(p), &u);
            b.tns = Some(p.into());
        }
        if plain || named {
            target = Some((u, b.tns.clone()));
        }
    }
    root.ns(Some("far"), "urn:far");
    if s.chance(1, 4) {
        root.attr("elementFormDefault", "qualified");
    }
    if s.chance(1, 4) {
        root.attr("version", "1.0");
    }
    let (mut kids, mut types, mut groups) = (vec![], vec![], vec![]);
    // `names`: no name is declared twice, whatever the symbol space
    let mut names = BTreeSet::new();
    for _ in 0..s.count(3) {
        let include = s.chance(1, 3);
        let mut x = b.x(if include { "include" } else { "import" });
        let (mut namespace, mut location) = (String::new(), String::new());
        if !include && s.chance(4, 5) {
            namespace = s.pick(&["urn:far", "http://www.w3.org/XML/1998/namespace", "http://example.org/q?a=1&b=2", "urn:ü"]).to_string();
            x.attr("namespace", &namespace);
        }
        if include || s.chance(3, 4) {
            location = s.pick(&["far.xsd", "../a/b.xsd", "http://example.org/far.xsd?x=1&y=2", "ü v.xsd", "../../../onvif.xsd"]).to_string();
            x.attr("schemaLocation", &location);
        }
        b.doc(s, &mut x);
        b.finish(s, &mut x);
        types.push(M::Import { namespace, location });
        kids.push(x);
    }
    for _ in 0..s.count(7) {
        let name = unique(s, &mut names);
        match s.below(8) {
            0..=2 => {
                let (x, m) = b.simple(s, Some(&name), &name);
                kids.push(x);
                types.push(m);
            }
            3 | 4 => {
                let (x, m) = b.complex(s, &name);
                kids.push(x);
                types.push(m);
            }
            5 => {
                let tag = if s.chance(2, 3) { "element" } else { "attribute" };
                let mut x = b.x(tag);
                x.attr("name", &name);
                let original = b.type_name(s);
                x.attr("type", &original);
                let doc = b.doc(s, &mut x);
                b.finish(s, &mut x);
                types.push(M::Alias { name, original, doc });
                kids.push(x);
            }
            6 => {
                let mut x = b.x("element");
                x.attr("name", &name);
                let doc = b.doc(s, &mut x);
                b.finish(s, &mut x);
                types.push(M::Struct { name, doc, fields: vec![] });
                kids.push(x);
            }
            _ => {
                let mut x = b.x("attributeGroup");
                x.attr("name", &name);
                let mut fields = vec![];
                b.doc(s, &mut x);
                b.attributes(s, &mut BTreeSet::new(), &mut x, &mut fields);
                b.finish(s, &mut x);
                groups.push(M::Struct { name, doc: Doc::new(), fields });
                kids.push(x);
            }
        }
    }
    root.kids = kids.into_iter().map(K::E).collect();
    if s.chance(1, 4) {
        let i = s.below(root.kids.len() + 1);
        let mut h = b.x("placeholder");
        b.doc(s, &mut h);
        if let Some(k) = h.kids.pop() {
            root.kids.insert(i, k);
        }
    }
    aside(s, &mut root.kids);
    if root.attrs.len() > 1 && s.flip() {
        s.shuffle(&mut root.attrs);
    }
    (root, Model { target, types, groups })
}

fn modifiers(v: &[TypeModifier]) -> Vec<&'static str> {
    v.iter()
        .map(|m| match m {
            TypeModifier::None => "None",
            TypeModifier::Array => "Array",
            TypeModifier::Option => "Option",
            TypeModifier::Recursive => "Recursive",
            TypeModifier::Empty => "Empty",
        })
        .collect()
}

fn doc(c: &Option<String>) -> Doc {
    letters(c.as_deref().unwrap_or(""))
}

fn facet(f: &Facet) -> MFacet {
    use FacetType::*;
    let (kind, value) = match &f.facet_type {
        Enumeration(v) => ("enumeration", v.as_str()),
        FractionDigits(v) => ("fractionDigits", v.as_str()),
        Length(v) => ("length", v.as_str()),
        MaxExclusive(v) => ("maxExclusive", v.as_str()),
        MaxInclusive(v) => ("maxInclusive", v.as_str()),
        MaxLength(v) => ("maxLength", v.as_str()),
        MinExclusive(v) => ("minExclusive", v.as_str()),
        MinInclusive(v) => ("minInclusive", v.as_str()),
        MinLength(v) => ("minLength", v.as_str()),
        Pattern(v) => ("pattern", v.as_str()),
        TotalDigits(v) => ("totalDigits", v.as_str()),
        WhiteSpace(w) => (
            "whiteSpace",
            match w {
                self::WhiteSpace::Preserve => "preserve",
                self::WhiteSpace::Replace => "replace",
                self::WhiteSpace::Collapse => "collapse",
            },
        ),
    };
    MFacet { kind: kind.into(), value: value.into(), doc: doc(&f.comment) }
}

fn field(f: &StructField) -> MField {
    MField {
        name: f.name.clone(),
        ty: f.type_name.clone(),
        source: match f.source {
            StructFieldSource::Attribute => "Attribute",
            StructFieldSource::Element => "Element",
            StructFieldSource::Base => "Base",
            StructFieldSource::Choice => "Choice",
            StructFieldSource::NA => "NA",
        },
        modifiers: modifiers(&f.type_modifiers),
        doc: doc(&f.comment),
        inline: f.subtypes.iter().map(entity).collect(),
    }
}

fn entity(e: &RsEntity) -> M {
    match e {
        RsEntity::Import(i) => M::Import { namespace: i.name.clone(), location: i.location.clone() },
        RsEntity::Alias(a) => M::Alias { name: a.name.clone(), original: a.original.clone(), doc: doc(&a.comment) },
        RsEntity::TupleStruct(t) => M::Tuple {
            name: t.name.clone(),
            ty: t.type_name.clone(),
            doc: doc(&t.comment),
            modifiers: modifiers(&t.type_modifiers),
            facets: t.facets.iter().map(facet).collect(),
        },
        RsEntity::Enum(n) => M::Enum {
            name: n.name.clone(),
            source: match n.source {
                EnumSource::Restriction => "Restriction",
                EnumSource::Choice => "Choice",
                EnumSource::Union => "Union",
                EnumSource::NA => "NA",
            },
            doc: doc(&n.comment),
            cases: n
                .cases
                .iter()
                .map(|c| MCase { name: c.name.clone(), value: c.value.clone(), ty: c.type_name.clone(), modifiers: modifiers(&c.type_modifiers), doc: doc(&c.comment) })
                .collect(),
            owner: n.subtypes.iter().map(entity).collect(),
        },
        RsEntity::Struct(t) => M::Struct { name: t.name.clone(), doc: doc(&t.comment), fields: t.fields.borrow().iter().map(field).collect() },
        RsEntity::StructField(f) => M::Other(format!("field {}", f.name)),
        RsEntity::EnumCase(c) => M::Other(format!("case {}", c.name)),
    }
}

fn judge(xml: &str, m: &Model) -> Result<(), String> {
    let f = parse(xml).map_err(|_| "the parser refused the schema".to_string())?;
    match f.xsd_ns.as_ref() {
        Some(n) if n.uri() == XSD => (),
        n => return Err(format!("namespace of XSD: {:?}", n)),
    }
    let got = f.target_ns.as_ref().map(|n| (n.uri().to_string(), n.name().map(str::to_string)));
    if got != m.target {
        return Err(format!("target namespace: {:?} instead of {:?}", got, m.target));
    }
    for (what, got, want) in [("component", &f.types, &m.types), ("attribute group", &f.attribute_groups, &m.groups)] {
        let got: Vec<M> = got.iter().map(entity).collect();
        for (g, w) in got.iter().zip(want) {
            if g != w {
                return Err(format!("{}: {:?}\ninstead of {:?}", what, g, w));
            }
        }
        if got.len() != want.len() {
            return Err(format!("{} entries of kind {} instead of {}", got.len(), what, want.len()));
        }
    }
    Ok(())
}

fn one(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (x, m) = build(s);
    let xml = if s.chance(1, 2) { x.styled(s) } else { x.plain() };
    c.desc(xml.clone());
    c.key(&xml);
    judge(&xml, &m)?;
    let mut parts = 0;
    for t in m.types.iter().chain(&m.groups) {
        parts += match t {
            M::Tuple { facets, .. } => facets.len(),
            M::Enum { cases, .. } => cases.len(),
            M::Struct { fields, .. } => fields.len(),
            _ => 1,
        };
        c.label(match t {
            M::Import { .. } => "import or include",
            M::Alias { .. } => "alias",
            M::Tuple { facets, .. } if facets.len() > 1 => "wrapper with several facets",
            M::Tuple { .. } => "wrapper",
            M::Enum { .. } => "enumeration, union or choice",
            M::Struct { .. } => "structure",
            M::Other(_) => "other",
        });
    }
    c.nontrivial(m.types.len() + m.groups.len() >= 2 && parts >= 3);
    c.evals((parts + m.types.len() + m.groups.len()) as u64);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule = "at least two components, and three facets, fields and cases together".into();
    c.prop("small", c.scale(150000, 2000000), 60, &|s, x| one(s, x));
    c.prop("schema", c.scale(200000, 4000000), 400, &|s, x| one(s, x));
}

fn main() {
    let (_, mut c) = check();
    run(&mut c);
    c.finish()
}
