//! G17: generators put together from the caller's own parts.
use vp_gen::ast::{self, Kind};
use vp_gen::meta::first_difference;
use vp_gen::model::*;
use vp_gen::structural::generate;
use std::borrow::Cow;
use vp_common::*;
use vp_gen::check;
use xsd_parser::generator::alias::{AliasGenerator, DefaultAliasGen};
use xsd_parser::generator::base::{BaseGenerator, DefaultBaseGenerator};
use xsd_parser::generator::builder::GeneratorBuilder;
use xsd_parser::generator::enum_case::{DefaultEnumCaseGen, EnumCaseGenerator};
use xsd_parser::generator::import::{DefaultImportGen, ImportGenerator};
use xsd_parser::generator::r#enum::{DefaultEnumGen, EnumGenerator};
use xsd_parser::generator::r#struct::{DefaultStructGen, StructGenerator};
use xsd_parser::generator::struct_field::{DefaultStructFieldGen, StructFieldGenerator};
use xsd_parser::generator::tuple_struct::{DefaultTupleStructGen, TupleStructGenerator};
use xsd_parser::generator::Generator;
use xsd_parser::parser::parse;
use xsd_parser::parser::types::*;

/// Which hooks put a mark before what the default part gives.
type On = u32;
const MACROS: On = 1;
const COMMENT: On = 2;
const VALID: On = 4;
const NAME: On = 8;
const TYPE: On = 16;
const WHOLE: On = 32;

fn mark(on: On, hook: On, m: &str, t: String) -> String {
    if on & hook != 0 {
        format!("/*@{}*/{}", m, t)
    } else {
        t
    }
}

fn mark_some(on: On, hook: On, m: &str, t: String) -> String {
    if t.is_empty() {
        t
    } else {
        mark(on, hook, m, t)
    }
}

struct S(On);
struct SWhole(S);
impl StructGenerator for S {
    fn macros(&self, e: &Struct, g: &Generator) -> Cow<'static, str> {
        mark(self.0, MACROS, "Sm", DefaultStructGen.macros(e, g).into()).into()
    }
    fn format_comment(&self, e: &Struct, g: &Generator) -> String {
        mark_some(self.0, COMMENT, "Sc", DefaultStructGen.format_comment(e, g))
    }
    fn validation(&self, e: &Struct, g: &Generator) -> Cow<'static, str> {
        mark(self.0, VALID, "Sv", DefaultStructGen.validation(e, g).into()).into()
    }
    fn get_type_name(&self, e: &Struct, g: &Generator) -> String {
        mark(self.0, NAME, "Sn", DefaultStructGen.get_type_name(e, g))
    }
}
impl StructGenerator for SWhole {
    fn generate(&self, e: &Struct, g: &Generator) -> String {
        mark((self.0).0, WHOLE, "S", self.0.generate(e, g))
    }
}

struct T(On);
struct TWhole(T);
impl TupleStructGenerator for T {
    fn macros(&self, e: &TupleStruct, g: &Generator) -> Cow<'static, str> {
        mark(self.0, MACROS, "Tm", DefaultTupleStructGen.macros(e, g).into()).into()
    }
    fn format_comment(&self, e: &TupleStruct, g: &Generator) -> String {
        mark_some(self.0, COMMENT, "Tc", DefaultTupleStructGen.format_comment(e, g))
    }
    fn validation(&self, e: &TupleStruct, g: &Generator) -> Cow<'static, str> {
        mark(self.0, VALID, "Tv", DefaultTupleStructGen.validation(e, g).into()).into()
    }
    fn get_name(&self, e: &TupleStruct, g: &Generator) -> String {
        mark(self.0, NAME, "Tn", DefaultTupleStructGen.get_name(e, g))
    }
}
impl TupleStructGenerator for TWhole {
    fn generate(&self, e: &TupleStruct, g: &Generator) -> String {
        mark((self.0).0, WHOLE, "T", self.0.generate(e, g))
    }
}

struct E(On);
struct EWhole(E);
impl EnumGenerator for E {
    fn macros(&self, e: &Enum, g: &Generator) -> Cow<'static, str> {
        mark(self.0, MACROS, "Em", DefaultEnumGen.macros(e, g).into()).into()
    }
    fn format_comment(&self, e: &Enum, g: &Generator) -> String {
        mark_some(self.0, COMMENT, "Ec", DefaultEnumGen.format_comment(e, g))
    }
    fn validation(&self, e: &Enum, g: &Generator) -> Cow<'static, str> {
        mark(self.0, VALID, "Ev", DefaultEnumGen.validation(e, g).into()).into()
    }
    fn get_name(&self, e: &Enum, g: &Generator) -> String {
        mark(self.0, NAME, "En", DefaultEnumGen.get_name(e, g))
    }
    fn get_type_name(&self, e: &Enum, g: &Generator) -> String {
        mark(self.0, TYPE, "Et", DefaultEnumGen.get_type_name(e, g))
    }
}
impl EnumGenerator for EWhole {
    fn generate(&self, e: &Enum, g: &Generator) -> String {
        mark((self.0).0, WHOLE, "E", self.0.generate(e, g))
    }
}

struct F(On);
struct FWhole(F);
impl StructFieldGenerator for F {
    fn macros(&self, e: &StructField, g: &Generator) -> String {
        mark(self.0, MACROS, "Fm", DefaultStructFieldGen.macros(e, g))
    }
    fn format_comment(&self, e: &StructField, g: &Generator) -> String {
        mark_some(self.0, COMMENT, "Fc", DefaultStructFieldGen.format_comment(e, g))
    }
    fn get_name(&self, e: &StructField, g: &Generator) -> String {
        mark(self.0, NAME, "Fn", DefaultStructFieldGen.get_name(e, g))
    }
    fn get_type_name(&self, e: &StructField, g: &Generator) -> String {
        mark(self.0, TYPE, "Ft", DefaultStructFieldGen.get_type_name(e, g))
    }
}
impl StructFieldGenerator for FWhole {
    fn generate(&self, e: &StructField, g: &Generator) -> String {
        mark_some((self.0).0, WHOLE, "F", self.0.generate(e, g))
    }
}

struct V(On);
struct VWhole(V);
impl EnumCaseGenerator for V {
    fn macros(&self, e: &EnumCase, g: &Generator) -> String {
        mark(self.0, MACROS, "Vm", DefaultEnumCaseGen.macros(e, g))
    }
    fn format_comment(&self, e: &EnumCase, g: &Generator) -> String {
        mark_some(self.0, COMMENT, "Vc", DefaultEnumCaseGen.format_comment(e, g))
    }
    fn get_name(&self, e: &EnumCase, g: &Generator) -> String {
        mark(self.0, NAME, "Vn", DefaultEnumCaseGen.get_name(e, g))
    }
    fn get_type_name(&self, e: &EnumCase, g: &Generator) -> String {
        mark(self.0, TYPE, "Vt", DefaultEnumCaseGen.get_type_name(e, g))
    }
}
impl EnumCaseGenerator for VWhole {
    fn generate(&self, e: &EnumCase, g: &Generator) -> String {
        mark((self.0).0, WHOLE, "V", self.0.generate(e, g))
    }
}

struct A(On);
struct AWhole(A);
impl AliasGenerator for A {
    fn format_comment(&self, c: Option<&str>, g: &Generator) -> String {
        mark_some(self.0, COMMENT, "Ac", DefaultAliasGen.format_comment(c, g))
    }
    fn format_name(&self, n: &str, g: &Generator) -> String {
        mark(self.0, NAME, "An", DefaultAliasGen.format_name(n, g))
    }
    fn format_original_type(&self, n: &str, g: &Generator) -> String {
        mark(self.0, TYPE, "At", DefaultAliasGen.format_original_type(n, g))
    }
}
impl AliasGenerator for AWhole {
    fn generate(&self, e: &Alias, g: &Generator) -> String {
        mark((self.0).0, WHOLE, "A", self.0.generate(e, g))
    }
}

struct I(On);
impl ImportGenerator for I {
    fn generate(&self, e: &Import, g: &Generator) -> String {
        mark(self.0, WHOLE, "I", DefaultImportGen.generate(e, g))
    }
}

struct Base(On);
impl BaseGenerator for Base {
    fn format_comment(&self, c: Option<&str>, indent: usize) -> String {
        mark_some(self.0, COMMENT, "Bc", DefaultBaseGenerator.format_comment(c, indent))
    }
    fn format_name(&self, n: &str) -> Cow<'_, str> {
        mark(self.0, NAME, "Bn", DefaultBaseGenerator.format_name(n).into()).into()
    }
    fn format_definition_name(&self, n: &str, g: &Generator) -> Cow<'_, str> {
        mark(self.0, TYPE, "Bd", DefaultBaseGenerator.format_definition_name(n, g).into()).into()
    }
}

/// Another width of the indentation, and names with an ending of the caller's.
struct Style {
    width: usize,
    field: bool,
    module: bool,
    definition: bool,
}
impl BaseGenerator for Style {
    fn indent_size(&self) -> usize {
        self.width
    }
    fn format_name(&self, n: &str) -> Cow<'_, str> {
        let t: String = DefaultBaseGenerator.format_name(n).into();
        (if self.field { t + "_qf" } else { t }).into()
    }
    fn mod_name(&self, n: &str) -> String {
        let t = DefaultBaseGenerator.mod_name(n);
        if self.module {
            t + "_qm"
        } else {
            t
        }
    }
    fn format_definition_name(&self, n: &str, g: &Generator) -> Cow<'_, str> {
        let t: String = DefaultBaseGenerator.format_definition_name(n, g).into();
        (if self.definition { t + "Qd" } else { t }).into()
    }
}

fn on(s: &mut Src) -> On {
    match s.below(5) {
        0 => 0,
        1 => WHOLE,
        2 => 63,
        _ => s.below(64) as On,
    }
}

fn count(t: &str, m: &str) -> usize {
    t.matches(&format!("/*@{}*/", m)).count()
}

fn strip(t: &str) -> String {
    let mut o = String::with_capacity(t.len());
    let mut rest = t;
    while let Some(i) = rest.find("/*@") {
        o.push_str(&rest[..i]);
        match rest[i..].find("*/") {
            Some(j) => rest = &rest[i + j + 2..],
            None => break,
        }
    }
    o.push_str(rest);
    o
}

fn marks(p: &Profile, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sch = schema(s, p);
    let xml = sch.tree().plain();
    let want = generate(&xml)?;
    let code = ast::read(&want)?;
    // parts replaced, in any order; the last given for a kind counts
    let mut b = GeneratorBuilder::default();
    let mut set: [Option<On>; 8] = [None; 8];
    let n = 1 + s.below(10);
    for _ in 0..n {
        let (k, m) = (s.below(8), on(s));
        set[k] = Some(m);
        b = match k {
            0 => b.with_struct_gen(if m & WHOLE != 0 { Box::new(SWhole(S(m))) } else { Box::new(S(m)) }),
            1 => b.with_tuple_struct_gen(if m & WHOLE != 0 { Box::new(TWhole(T(m))) } else { Box::new(T(m)) }),
            2 => b.with_enum_gen(if m & WHOLE != 0 { Box::new(EWhole(E(m))) } else { Box::new(E(m)) }),
            3 => b.with_struct_field_gen(if m & WHOLE != 0 { Box::new(FWhole(F(m))) } else { Box::new(F(m)) }),
            4 => b.with_enum_case_gen(if m & WHOLE != 0 { Box::new(VWhole(V(m))) } else { Box::new(V(m)) }),
            5 => b.with_alias_gen(if m & WHOLE != 0 { Box::new(AWhole(A(m))) } else { Box::new(A(m)) }),
            6 => b.with_import_gen(Box::new(I(m))),
            _ => b.with_base_gen(Box::new(Base(m))),
        };
    }
    c.desc(format!("parts {:?} (struct, wrapper, enum, field, variant, alias, import, base)\n{}", set, xml));
    c.key((&set, &xml));
    let gen = b.build();
    let file = parse(&xml).map_err(|_| "the parser refused the schema".to_string())?;
    // a custom name of an enumeration value is a name to be bound to its text
    let got = gen.generate_rs_file(&file);
    let bare = strip(&got);
    let renamed = set[4].is_some_and(|m| m & NAME != 0);
    if bare != want && !renamed {
        return Err(format!("without the marks the code differs: {}", first_difference(&want, &bare)));
    }
    let defs = |k: Kind| code.defs.iter().filter(|d| d.kind == k).count();
    let fields: usize = code.defs.iter().filter(|d| d.kind == Kind::Struct).map(|d| d.fields.len()).sum();
    let variants: usize = code.defs.iter().filter(|d| d.kind == Kind::Enum).map(|d| d.variants.len() - 1).sum();
    let kinds = [("S", defs(Kind::Struct)), ("T", defs(Kind::Tuple)), ("E", defs(Kind::Enum)), ("F", fields), ("V", variants)];
    for (i, (k, n)) in kinds.iter().enumerate() {
        let m = set[i].unwrap_or(0);
        for (hook, ext) in [(WHOLE, ""), (MACROS, "m"), (VALID, "v"), (TYPE, "t")] {
            if hook == VALID && i > 2 || hook == TYPE && i < 3 {
                continue;
            }
            let tag = format!("{}{}", k, ext);
            let got = count(&got, &tag);
            let n = if m & hook == 0 {
                0
            } else if tag == "Vt" {
                // only variants with a value have a type
                code.defs.iter().flat_map(|d| &d.variants).filter(|v| v.ty.is_some() && v.ident != "__Unknown__").count()
            } else {
                *n
            };
            if got != n {
                return Err(format!("part {:?} was asked {} times, for {} items", tag, got, n));
            }
        }
    }
    let base = set[7].unwrap_or(0);
    if base & COMMENT != 0 {
        // each comment passes through the base, whoever asks for it
        for (i, k) in ["S", "T", "E", "F", "V", "A"].iter().enumerate() {
            let tag = format!("/*@{}c*/", k);
            if set[i].unwrap_or(0) & COMMENT != 0 && got.matches(&tag).count() != got.matches(&format!("{}/*@Bc*/", tag)).count() {
                return Err(format!("comments of part {:?} do not come from the base", k));
            }
        }
        let lines = want.lines().filter(|l| l.trim_start().starts_with("// ")).count();
        if count(&got, "Bc") == 0 && lines > count(&want, "none") && want.lines().any(|l| l.trim_start().starts_with("// ") && !l.contains(" pub type ")) {
            return Err("the base is not asked for comments".into());
        }
    }
    if base & NAME != 0 && count(&got, "Bn") != fields {
        return Err(format!("the base was asked for {} field names, of {}", count(&got, "Bn"), fields));
    }
    if base & TYPE != 0 && count(&got, "Bd") < kinds[..3].iter().map(|k| k.1).sum() {
        return Err(format!("the base was asked for {} definition names", count(&got, "Bd")));
    }
    let again = gen.generate_rs_file(&file);
    if again != got {
        return Err(format!("a second run gives other code: {}", first_difference(&got, &again)));
    }
    c.nontrivial(set.iter().flatten().any(|m| *m != 0) && code.defs.len() >= 2);
    c.evals(kinds.iter().map(|k| k.1 as u64).sum());
    Ok(())
}

fn tokens(t: &str) -> Result<Vec<String>, String> {
    fn flat(ts: proc_macro2::TokenStream, o: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    o.push(format!("{:?}(", g.delimiter()));
                    flat(g.stream(), o);
                    o.push(")".into());
                }
                t => o.push(t.to_string()),
            }
        }
    }
    let mut o = vec![];
    flat(t.parse().map_err(|e| format!("not Rust: {}", e))?, &mut o);
    Ok(o)
}

fn styles(p: &Profile, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sch = schema(s, p);
    let xml = sch.tree().plain();
    let want = generate(&xml)?;
    let code = ast::read(&want)?;
    let st = Style { width: *s.pick(&[0, 1, 2, 3, 4, 8, 24]), field: s.flip(), module: s.flip(), definition: s.chance(1, 3) };
    let what = format!("indentation {}, field names {}, module names {}, definition names {}", st.width, st.field, st.module, st.definition);
    c.desc(format!("{}\n{}", what, xml));
    c.key((&what, &xml));
    let (width, field, module, definition) = (st.width, st.field, st.module, st.definition);
    let file = parse(&xml).map_err(|_| "the parser refused the schema".to_string())?;
    let text = GeneratorBuilder::default().with_base_gen(Box::new(st)).build().generate_rs_file(&file);
    let (a, b) = (tokens(&want)?, tokens(&text)?);
    if a.len() != b.len() {
        return Err(format!("the code differs: {}", first_difference(&a.join(" "), &b.join(" "))));
    }
    let mods: Vec<&str> = code.mods.iter().skip(1).map(|m| m.name.as_str()).collect();
    let (mut nf, mut nm, mut nd) = (0, 0, 0);
    for i in 0..a.len() {
        let is_mod = mods.contains(&a[i].as_str()) && (i > 0 && a[i - 1] == "mod" || i + 1 < a.len() && a[i + 1] == ":" && a.get(i + 2).is_some_and(|t| t == ":"));
        if a[i] == b[i] {
            if module && is_mod && !(i > 0 && a[i - 1] == ":") {
                return Err(format!("module name {:?} has no ending", a[i]));
            }
            continue;
        }
        let tail = b[i].strip_prefix(a[i].as_str());
        match tail {
            Some("_qm") if module && is_mod => nm += 1,
            Some("_qf") if field && i > 0 && a[i - 1] == "pub" && a.get(i + 1).is_some_and(|t| t == ":") => nf += 1,
            Some("Qd") if definition && i > 0 && ["struct", "enum", "for", "->"].contains(&a[i - 1].as_str()) => nd += 1,
            Some("Qd") if definition && i > 0 && a[i - 1] == ">" => nd += 1,
            _ => return Err(format!("{:?} became {:?} ({:?} before it)", a[i], b[i], a.get(i.wrapping_sub(1)))),
        }
    }
    let fields: usize = code.defs.iter().filter(|d| d.kind == Kind::Struct).map(|d| d.fields.len()).sum();
    if field && nf != fields {
        return Err(format!("{} of {} field names have the ending", nf, fields));
    }
    if module && nm < mods.len() {
        return Err(format!("{} of {} module names have the ending", nm, mods.len()));
    }
    if definition && nd < 2 * code.defs.len() {
        return Err(format!("{} of {} definitions have the ending", nd, code.defs.len()));
    }
    // every field and variant stands behind the indentation
    for l in text.lines().filter(|l| l.trim_start().starts_with("pub ") && l.ends_with(',')) {
        let w = l.len() - l.trim_start().len();
        if width == 0 && w != 0 || width > 0 && (w == 0 || w % width != 0) {
            return Err(format!("indentation {} for a width of {}: {:?}", w, width, l));
        }
    }
    c.nontrivial(code.defs.len() >= 2 && fields >= 1);
    c.evals(a.len() as u64);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule = "at least two definitions, and a part with a hook of its own (marks) or a field (styles)".into();
    let p = Profile { docs: 4, ..BASE };
    c.prop("marks", c.scale(100000, 1500000), 400, &|s, x| marks(&p, s, x));
    c.prop("styles", c.scale(60000, 900000), 400, &|s, x| styles(&p, s, x));
}

fn main() {
    let (_, mut c) = check();
    run(&mut c);
    c.finish()
}
