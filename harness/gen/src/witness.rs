//! Schemas of findings that are listed in known_findings.txt, as written there.
use crate::ast::{self, Code};
use crate::e2e::Unit;
use crate::structural::generate;
use vp_common::*;

const XS: &str = "http://www.w3.org/2001/XMLSchema";

fn doc(head: &str, body: &str) -> String {
    format!("<xs:schema xmlns:xs=\"{}\" {}>{}</xs:schema>", XS, head, body)
}

fn tns(body: &str) -> String {
    doc("xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"", body)
}

fn field_type<'c>(c: &'c Code, def: &str, wire: &str) -> Option<&'c str> {
    let d = c.defs.iter().find(|d| d.name == def)?;
    d.fields.iter().find(|f| f.wire() == Some(wire)).map(|f| f.ty.as_str())
}

/// Reports the findings of `id` that are about the text of generated code.
pub fn text(c: &Check, id: &str) {
    let mut look = |of: &str, key: &str, xml: String, what: &str, holds: &dyn Fn(&Code) -> bool| {
        if of == id {
            let ok = generate(&xml).ok().and_then(|t| ast::read(&t).ok()).is_some_and(|k| holds(&k));
            c.finding(key, what, !ok);
        }
    };
    look(
        "G04",
        "two-xsd-prefixes",
        doc(
            &format!("xmlns=\"{}\" xmlns:t=\"urn:t\" targetNamespace=\"urn:t\"", XS),
            "<xs:complexType name=\"A\"><xs:sequence><xs:element name=\"x\" type=\"int\"/></xs:sequence></xs:complexType>",
        ),
        "with both xmlns and xmlns:xs bound to XSD, type=\"int\" becomes Int, not i32 (one prefix is kept for the XSD namespace)",
        &|k| field_type(k, "A", "x") == Some("i32"),
    );
    look(
        "G05",
        "unbound-target",
        doc("targetNamespace=\"urn:t\"", "<xs:complexType name=\"A\"><xs:sequence><xs:element name=\"x\" type=\"xs:int\"/></xs:sequence></xs:complexType>"),
        "a targetNamespace that no xmlns declares is lost: structure A of urn:t has no namespace (the namespace is kept as a declaration of the document)",
        &|k| k.defs.iter().any(|d| d.name == "A" && d.ya.get("namespace").is_some_and(|n| n.contains("urn:t"))),
    );
    look(
        "G05",
        "two-target-prefixes",
        doc(
            "xmlns:t=\"urn:t\" xmlns:u=\"urn:t\" targetNamespace=\"urn:t\"",
            "<xs:complexType name=\"B\"/><xs:complexType name=\"A\"><xs:sequence><xs:element name=\"x\" type=\"t:B\"/><xs:element name=\"y\" type=\"u:B\"/></xs:sequence></xs:complexType>",
        ),
        "with two prefixes bound to the target namespace, type=\"u:B\" becomes u::B, not B (one prefix is kept for the target namespace)",
        &|k| field_type(k, "A", "x") == Some("B") && field_type(k, "A", "y") == Some("B"),
    );
    look(
        "G09",
        "inline-branch",
        tns("<xs:complexType name=\"A\"><xs:choice><xs:element name=\"x\"><xs:complexType><xs:sequence><xs:element name=\"y\" type=\"xs:int\"/></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType>"),
        "a choice branch with an inline type becomes a variant without a value (branches hold no definitions of their own)",
        &|k| k.defs.iter().any(|d| d.variants.iter().any(|v| v.ident == "X" && v.ty.is_some())),
    );
    look(
        "G09",
        "group-in-choice",
        tns("<xs:complexType name=\"A\"><xs:choice><xs:element name=\"x\" type=\"xs:int\"/><xs:sequence><xs:element name=\"y\" type=\"xs:int\"/></xs:sequence></xs:choice></xs:complexType>"),
        "a sequence inside a choice is dropped: nothing is generated for its element y",
        &|k| k.defs.iter().any(|d| d.variants.iter().any(|v| v.wire() == "y") || d.fields.iter().any(|f| f.wire() == Some("y"))),
    );
    look(
        "G15",
        "simple-content-text",
        tns("<xs:complexType name=\"A\"><xs:simpleContent><xs:extension base=\"xs:int\"><xs:attribute name=\"u\" type=\"xs:string\"/></xs:extension></xs:simpleContent></xs:complexType>"),
        "the text of an element of simpleContent is lost: structure A has a field for its attribute only",
        &|k| k.defs.iter().any(|d| d.name == "A" && d.fields.iter().any(|f| !f.is_attr())),
    );
}

/// The findings of G15 about code that does not compile.
pub fn compiled() -> Vec<(&'static str, &'static str, Option<Unit>)> {
    let en = "<xs:simpleType name=\"E\"><xs:restriction base=\"xs:string\"><xs:enumeration value=\"a\"/></xs:restriction></xs:simpleType>";
    let p = "<xs:simpleType name=\"P\"><xs:restriction base=\"xs:int\"/></xs:simpleType>";
    [
        ("list-of-enumeration", format!("{}<xs:simpleType name=\"L\"><xs:list itemType=\"t:E\"/></xs:simpleType>", en), "a list of an enumeration type does not compile (enumerations cannot be read from or printed to text)"),
        ("restriction-of-enumeration", format!("{}<xs:simpleType name=\"R\"><xs:restriction base=\"t:E\"/></xs:simpleType>", en), "a restriction of an enumeration type does not compile (enumerations cannot be read from or printed to text)"),
        ("union-with-enumeration", format!("{}<xs:simpleType name=\"U\"><xs:union memberTypes=\"t:E\"/></xs:simpleType>", en), "a union with an enumeration type does not compile (enumerations cannot be read from or printed to text)"),
        ("bounds-of-wrapper", format!("{}<xs:simpleType name=\"Q\"><xs:restriction base=\"t:P\"><xs:maxInclusive value=\"5\"/></xs:restriction></xs:simpleType>", p), "a bound on a restriction of a wrapper type does not compile (wrappers have no order)"),
        ("bounds-of-date", "<xs:simpleType name=\"D\"><xs:restriction base=\"xs:date\"><xs:maxInclusive value=\"2020-01-01\"/></xs:restriction></xs:simpleType>".into(), "a bound on a restriction of xs:date does not compile (dates have no order)"),
    ]
    .into_iter()
    .map(|(key, body, what)| {
        let unit = generate(&tns(&body)).ok().map(|code| Unit { code, glue: String::new(), roots: vec![] });
        (key, what, unit)
    })
    .collect()
}
