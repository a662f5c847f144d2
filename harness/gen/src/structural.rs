//! G01 to G10 and G16: generated schemas against their expected definitions.
use crate::ast;
use crate::expect::*;
use crate::model::*;
use vp_common::*;
use xsd_parser::{generator::builder::GeneratorBuilder, parser::parse};

pub fn generate(xml: &str) -> Result<String, String> {
    let f = parse(xml).map_err(|_| "the parser refused the schema".to_string())?;
    Ok(GeneratorBuilder::default().build().generate_rs_file(&f))
}

pub fn profile(id: &str) -> Profile {
    let b = BASE;
    match id {
        "G01" => Profile { odd_names: 6, odd_ns: 3, ..b },
        "G02" => Profile { ..b },
        "G03" => Profile { bounds: 5, decls: 5, ..b },
        "G04" => Profile { odd_ns: 5, foreign: 2, odd_names: 3, ..b },
        "G05" => Profile { odd_ns: 5, foreign: 3, ..b },
        "G06" => Profile { derive: 6, decls: 8, simple: 1, ..b },
        "G07" => Profile { groups: 6, decls: 8, simple: 1, ..b },
        "G08" => Profile { simple: 7, enums: 6, ..b },
        "G09" => Profile { choice: 6, ..b },
        "G10" => Profile { simple: 7, enums: 1, ..b },
        "G16" => Profile { inline: 5, depth: 4, odd_names: 1, ..b },
        _ => unreachable!(),
    }
}

pub fn nontrivial(id: &str, c: &Counts) -> bool {
    match id {
        "G01" => c.defs >= 2 && c.fields + c.variants >= 2,
        "G02" => c.defs >= 2 && c.fields >= 2,
        "G03" => c.odd_bounds + c.indirect + c.prohibited >= 1 && c.many + c.opt >= 1,
        "G04" => c.builtin >= 2,
        "G05" => c.local + c.foreign >= 2,
        "G06" => c.inherited >= 1,
        "G07" => c.grouped >= 1,
        "G08" => c.variants >= 2 || c.fallback >= 1,
        "G09" => c.branches >= 2,
        "G10" => c.simple >= 2,
        "G16" => c.inline >= 2,
        _ => unreachable!(),
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "G01" => "at least two definitions and two named members",
        "G02" => "at least two definitions and two fields",
        "G03" => "an unusual spelling of a bound, a recursive or a prohibited member, beside an optional or repeated one",
        "G04" => "at least two references to built-in types",
        "G05" => "at least two references to definitions or to other namespaces",
        "G06" => "at least one inherited field",
        "G07" => "at least one field from an attribute group",
        "G08" => "at least two enumeration variants, or a fall-back to a wrapper",
        "G09" => "at least two choice branches",
        "G10" => "at least two simple type definitions",
        "G16" => "at least two inline types",
        _ => unreachable!(),
    }
}

pub fn judge(id: &str, sch: &Schema, xml: &str) -> Result<Counts, String> {
    let text = generate(xml)?;
    let code = ast::read(&text)?;
    let (diffs, counts) = Judge::run(sch, &code);
    let mine: Vec<String> = diffs.iter().filter(|d| d.0.contains(&id)).map(|d| d.1.clone()).take(4).collect();
    if mine.is_empty() {
        Ok(counts)
    } else {
        Err(mine.join("; "))
    }
}

pub fn one(id: &'static str, p: &Profile, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    let sch = schema(src, p);
    let xml = if src.chance(1, 3) { sch.tree().styled(src) } else { sch.tree().plain() };
    ctx.desc(xml.clone());
    let counts = judge(id, &sch, &xml)?;
    ctx.nontrivial(nontrivial(id, &counts));
    ctx.key(&xml);
    ctx.evals(counts.defs as u64 + counts.fields as u64);
    Ok(())
}

pub fn run(c: &mut Check, id: &'static str) {
    c.rule = rule(id).into();
    crate::witness::text(c, id);
    let p = profile(id);
    let small = Profile { decls: 2, depth: 1, ..p.clone() };
    c.prop("small", c.scale(120000, 800000), 60, &|s, x| one(id, &small, s, x));
    c.prop("schema", c.scale(200000, 1500000), 400, &|s, x| one(id, &p, s, x));
    let big = Profile { decls: 14, ..p.clone() };
    c.prop("large", c.scale(40000, 300000), 1500, &|s, x| one(id, &big, s, x));
}
