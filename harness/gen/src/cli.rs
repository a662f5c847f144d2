//! C01 and C02: the two commands against a model of the file system.
use crate::model::*;
use crate::structural::generate;
use crate::wsdl;
use crate::xml::{K, X};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Output};
use std::sync::atomic::{AtomicUsize, Ordering};
use vp_common::*;

#[derive(Clone, PartialEq)]
enum Node {
    Dir,
    File(Vec<u8>),
}
/// Path below the scratch directory, and what is there.
type Tree = BTreeMap<String, Node>;

fn snapshot(root: &Path) -> Result<Tree, String> {
    fn walk(root: &Path, at: &str, out: &mut Tree) -> std::io::Result<()> {
        for e in fs::read_dir(root.join(at))? {
            let e = e?;
            let n = e.file_name().to_string_lossy().into_owned();
            let p = if at.is_empty() { n } else { format!("{}/{}", at, n) };
            if e.file_type()?.is_dir() {
                out.insert(p.clone(), Node::Dir);
                walk(root, &p, out)?;
            } else {
                out.insert(p.clone(), Node::File(fs::read(e.path())?));
            }
        }
        Ok(())
    }
    let mut t = Tree::new();
    walk(root, "", &mut t).map_err(|e| format!("harness: {}", e))?;
    Ok(t)
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = verif_root().join(".build").join(format!("scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    fn put(&self, at: &str, data: &[u8]) {
        let p = self.0.join(at);
        fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        fs::write(p, data).expect("scratch");
    }
    fn dir(&self, at: &str) {
        fs::create_dir_all(self.0.join(at)).expect("scratch");
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Xsd,
    Wsdl,
}

impl Which {
    fn bin(self) -> PathBuf {
        verif_root().join(".build/cli/debug").join(if self == Which::Xsd { "xsd-parser" } else { "wsdl-parser" })
    }
    fn default_in(self) -> &'static str {
        if self == Which::Xsd {
            "input/xsd"
        } else {
            "input/wsdl"
        }
    }
    fn default_out(self) -> &'static str {
        if self == Which::Xsd {
            "output/rs"
        } else {
            "output/wsdl-rs"
        }
    }
    fn code(self, xml: &str) -> Result<String, String> {
        guard(|| if self == Which::Xsd { generate(xml) } else { wsdl::whole(xml) }).and_then(|r| r)
    }
}

/// Contents of an input file and the code for it, none if it is malformed.
#[derive(Clone)]
struct Input {
    data: Vec<u8>,
    code: Option<Vec<u8>>,
}

/// Many more definitions, for outputs beyond any buffer.
fn enlarge(x: &mut X, n: usize) -> bool {
    if x.local() == "schema" {
        let pre = x.tag.strip_suffix("schema").unwrap_or("").to_string();
        for i in 0..n {
            let mut t = X::new(format!("{}simpleType", pre));
            t.attr("name", &format!("Filler{}", i));
            let mut r = X::new(format!("{}restriction", pre));
            r.attr("base", &format!("{}{}", pre, ["string", "int", "dateTime"][i % 3]));
            t.kids.push(K::E(r));
            x.kids.push(K::E(t));
        }
        return true;
    }
    x.kids.iter_mut().any(|k| match k {
        K::E(e) => enlarge(e, n),
        _ => false,
    })
}

fn good(w: Which, s: &mut Src) -> Input {
    let large = if s.chance(1, 20) { 100 + s.below(1500) } else { 0 };
    let p = Profile { decls: 3, depth: 1, ..BASE };
    for _ in 0..3 {
        let xml = match w {
            Which::Xsd => {
                let mut t = schema(s, &p).tree();
                enlarge(&mut t, large);
                if s.chance(1, 3) {
                    t.styled(s)
                } else {
                    t.plain()
                }
            }
            Which::Wsdl => {
                let mut t = wsdl::document(s, &wsdl::Shape { schemas: 2, ops: 2, profile: Profile { decls: 2, ..p.clone() } }).tree;
                enlarge(&mut t, large);
                if s.chance(1, 3) {
                    t.styled(s)
                } else {
                    t.plain()
                }
            }
        };
        if let Ok(c) = w.code(&xml) {
            return Input { data: xml.into_bytes(), code: Some(c.into_bytes()) };
        }
    }
    panic!("harness: the library refuses every schema")
}

fn bad(s: &mut Src, from: &Input) -> Input {
    let mut d = from.data.clone();
    match s.below(6) {
        0 => d.clear(),
        1 => d = b"no markup at all".to_vec(),
        2 => {
            // the end is missing
            let last = d.iter().rposition(|b| *b == b'<').unwrap_or(0);
            d.truncate(1 + s.below(last.max(1)));
            // a whole document cannot end there
        }
        3 => d.extend_from_slice(b"<second/>"),
        4 => {
            let i = d.iter().rposition(|b| *b == b'/').unwrap_or(0);
            d.insert(i + 1, b'!');
        }
        _ => {
            let i = d.iter().position(|b| *b == b'>').unwrap_or(0);
            d.insert(i, 0xff);
        }
    }
    let text = std::str::from_utf8(&d).ok().map(|t| roxmltree::Document::parse(t).is_ok());
    if text == Some(true) {
        d = b"<open>".to_vec();
    }
    Input { data: d, code: None }
}

fn out_name(name: &str) -> String {
    // the file name with its extension, if any, replaced
    match name.rfind('.') {
        Some(i) if i > 0 => format!("{}.rs", &name[..i]),
        _ => format!("{}.rs", name),
    }
}

const FILES: &[&str] = &[
    "a.xsd", "schema.xsd", "b.wsdl", "device.wsdl.xml", "noext", "two words.xsd", "Größe.xsd", ".hidden", "x.y.z.xsd", "UPPER.XSD",
    "-dash.xsd", "v1.0", "semi;colon.xsd", "日本.xml", "data.txt", "trailing.", "q'uote.xsd", "old.rs",
];
const DIRS: &[&str] = &["sub", "deep", "two words", "v1.0", "ünder", "a", ".dot", "x.xsd", "out"];

fn files(w: Which, s: &mut Src, at: &str, depth: usize, pool: &[Input], some_bad: bool, out: &mut BTreeMap<String, Input>, dirs: &mut Vec<String>) {
    let mut names = BTreeSet::new();
    for _ in 0..s.count(4) {
        let n = *s.pick(FILES);
        if !names.insert(out_name(n)) {
            continue;
        }
        let i = s.below(pool.len());
        let f = if some_bad && s.chance(1, 3) { bad(s, &pool[i]) } else { pool[i].clone() };
        out.insert(format!("{}/{}", at, n), f);
    }
    if depth > 0 {
        for _ in 0..s.count(2) {
            let n = *s.pick(DIRS);
            let p = format!("{}/{}", at, n);
            if !names.insert(n.to_string()) || out.contains_key(&p) {
                continue;
            }
            dirs.push(p.clone());
            files(w, s, &p, depth - 1, pool, some_bad, out, dirs);
        }
    }
}

fn show(t: &Tree) -> String {
    t.iter().map(|(p, n)| match n { Node::Dir => format!("  {}/", p), Node::File(d) => format!("  {} ({} bytes)", p, d.len()) }).collect::<Vec<_>>().join("\n")
}

fn run_cmd(w: Which, cwd: &Path, args: &[String]) -> Result<Output, String> {
    Command::new(w.bin()).args(args).env("RUST_BACKTRACE", "0").env_remove("RUST_LIB_BACKTRACE").current_dir(cwd).output().map_err(|e| format!("harness: {:?}: {}", w.bin(), e))
}

/// Compares the tree with the expected one. `maybe`: new contents a file may
/// have instead of its old ones. `dirs`: directories that may exist.
fn compare(before: &Tree, after: &Tree, must: &BTreeMap<String, Vec<u8>>, maybe: &BTreeMap<String, Vec<u8>>, dirs: &BTreeSet<String>) -> Result<(), String> {
    for (p, want) in must {
        match after.get(p) {
            Some(Node::File(d)) if d == want => (),
            Some(Node::File(d)) => {
                let n = d.iter().zip(want).take_while(|(a, b)| a == b).count();
                return Err(format!("{} is not the generated code: {} bytes instead of {}, different from byte {}", p, d.len(), want.len(), n));
            }
            Some(Node::Dir) => return Err(format!("{} is a directory", p)),
            None => return Err(format!("{} was not written", p)),
        }
    }
    for (p, n) in after {
        if must.contains_key(p) || before.get(p) == Some(n) {
            continue;
        }
        match n {
            Node::Dir if dirs.contains(p) => (),
            Node::File(d) if maybe.get(p) == Some(d) => (),
            Node::Dir => return Err(format!("the directory {} appeared", p)),
            Node::File(d) => {
                return Err(format!("{} {} ({} bytes: {:?})", p, if before.contains_key(p) { "was changed" } else { "appeared" }, d.len(), clip(&String::from_utf8_lossy(d), 60)))
            }
        }
    }
    match before.keys().find(|p| !after.contains_key(*p)) {
        Some(p) => Err(format!("{} disappeared", p)),
        None => Ok(()),
    }
}

fn one(w: Which, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let sc = Scratch::new();
    let n = 1 + s.below(3);
    let pool: Vec<Input> = (0..n).map(|_| good(w, s)).collect();
    let cwd = sc.0.join("work");
    sc.dir("work");
    let mut log: Vec<String> = vec![];
    let mut strong = 0;
    let steps = 1 + s.below(4);
    let mut inputs: BTreeMap<String, Input> = BTreeMap::new();
    let mut in_dirs: Vec<String> = vec![];
    let mut prepared = false;
    let res = (|| -> Result<(), String> {
        for step in 0..steps {
            let in_root = "work/".to_string() + w.default_in();
            if !prepared || s.chance(1, 3) {
                // new contents of the input directory, perhaps beside the old
                let some_bad = s.chance(1, 4);
                let (mut fs_, mut ds) = (BTreeMap::new(), vec![]);
                let room: Vec<Input> = pool.clone();
                files(w, s, &in_root, 2, &room, some_bad, &mut fs_, &mut ds);
                let _ = fs::remove_dir_all(sc.0.join(&in_root));
                sc.dir(&in_root);
                for d in &ds {
                    sc.dir(d);
                }
                for (p, i) in &fs_ {
                    sc.put(p, &i.data);
                }
                log.push(format!("input {:?} and directories {:?}", fs_.iter().map(|(p, i)| (p.as_str(), i.code.is_some())).collect::<Vec<_>>(), ds));
                inputs = fs_;
                in_dirs = ds;
                prepared = true;
            }
            let mut must = BTreeMap::new();
            let mut maybe = BTreeMap::new();
            let mut dirs = BTreeSet::new();
            let mut args: Vec<String> = vec![];
            let absolute = s.chance(1, 3);
            let path = |p: &str| -> String {
                if absolute {
                    sc.0.join(p).to_string_lossy().into_owned()
                } else {
                    let rel = p.strip_prefix("work/").map(String::from).unwrap_or_else(|| format!("../{}", p));
                    if rel.starts_with('-') {
                        format!("./{}", rel)
                    } else {
                        rel
                    }
                }
            };
            let opt = |s: &mut Src, short: &str, long: &str, v: String| -> Vec<String> {
                match s.below(3) {
                    0 => vec![short.into(), v],
                    1 => vec![long.into(), v],
                    _ => vec![format!("{}={}", long, v)],
                }
            };
            let mut fails = false;
            let mut stdout: Option<Vec<u8>> = None;
            let kind = s.below(8);
            match kind {
                0..=2 => {
                    // a directory
                    let root = match s.below(4) {
                        0 | 1 => in_root.clone(),
                        _ if !in_dirs.is_empty() => s.pick(&in_dirs).clone(),
                        _ => in_root.clone(),
                    };
                    let out_root = match s.below(4) {
                        0 => format!("work/{}", w.default_out()),
                        1 => "elsewhere/new/deep er".to_string(),
                        _ => "work/gen".to_string(),
                    };
                    let mut ins = vec![];
                    let mut outs = vec![];
                    if root != in_root || !s.chance(1, 3) {
                        let slash = if s.chance(1, 4) { "/" } else { "" };
                        ins = opt(s, "-i", "--input", path(&root) + slash);
                    }
                    if !out_root.ends_with(w.default_out()) || s.flip() {
                        outs = opt(s, "-o", "--output", path(&out_root));
                    }
                    if s.flip() {
                        args.extend(ins);
                        args.extend(outs);
                    } else {
                        args.extend(outs);
                        args.extend(ins);
                    }
                    let below = format!("{}/", root);
                    let mut targets = vec![];
                    for (p, i) in inputs.iter().filter(|x| x.0.starts_with(&below)) {
                        let rel = &p[below.len()..];
                        let (d, f) = rel.rsplit_once('/').map(|(d, f)| (format!("{}/", d), f)).unwrap_or((String::new(), rel));
                        let t = format!("{}/{}{}", out_root, d, out_name(f));
                        targets.push((t, i));
                    }
                    for d in in_dirs.iter().filter(|d| d.starts_with(&below)) {
                        dirs.insert(format!("{}/{}", out_root, &d[below.len()..]));
                    }
                    let mut up = out_root.clone();
                    loop {
                        dirs.insert(up.clone());
                        match up.rsplit_once('/') {
                            Some((u, _)) => up = u.to_string(),
                            None => break,
                        }
                    }
                    // something is there already
                    if s.flip() {
                        for (t, i) in &targets {
                            if s.flip() && !sc.0.join(t).is_dir() {
                                let mut d = i.code.clone().unwrap_or_default();
                                if s.chance(2, 3) {
                                    d.extend_from_slice(b"\n// the rest of an older file, which has to go\n");
                                } else {
                                    d.truncate(d.len() / 2);
                                }
                                sc.put(t, &d);
                            }
                        }
                        if s.flip() {
                            sc.put(&format!("{}/keep me.rs", out_root), b"// not generated");
                            sc.put(&format!("{}/sub/notes.txt", out_root), b"kept");
                        }
                        log.push("older output files".into());
                        strong += 1;
                    }
                    fails = targets.iter().any(|t| t.1.code.is_none());
                    for (t, i) in targets {
                        if let Some(code) = &i.code {
                            if fails {
                                maybe.insert(t, code.clone());
                            } else {
                                must.insert(t, code.clone());
                            }
                        }
                    }
                    strong += (must.len() >= 2) as usize;
                    c.label(if fails { "directory with a malformed file" } else { "directory" });
                }
                3..=5 => {
                    // one file
                    if inputs.is_empty() {
                        continue;
                    }
                    let k: Vec<&String> = inputs.keys().collect();
                    let p = (*s.pick(&k)).clone();
                    let code = inputs[&p].code.clone();
                    args = opt(s, "-i", "--input", path(&p));
                    if s.chance(2, 3) {
                        let o = *s.pick(&["work/out.rs", "work/-o.rs", "work/out", "there/r e s.txt", "work/out/deeper.rs"]);
                        let o = if sc.0.join(o).is_dir() || sc.0.join("work/out").is_file() && o.contains("out/") { "work/o2.rs" } else { o };
                        sc.dir(o.rsplit_once('/').unwrap().0);
                        match s.below(3) {
                            0 => sc.put(o, "// older and much longer\n".repeat(4000).as_bytes()),
                            1 => sc.put(o, b"x"),
                            _ => (),
                        }
                        let out = opt(s, "-o", "--output", path(o));
                        if s.flip() {
                            args.extend(out);
                        } else {
                            args = [out, args].concat();
                        }
                        if let Some(code) = &code {
                            must.insert(o.to_string(), code.clone());
                        }
                        c.label("file to file");
                    } else {
                        stdout = code.clone();
                        c.label("file to standard output");
                    }
                    fails = code.is_none();
                    strong += 1;
                }
                6 => {
                    // not there
                    fails = true;
                    args = opt(s, "-i", "--input", path("work/input/missing.xsd"));
                    if s.flip() {
                        sc.put("work/old.rs", b"// older");
                        args.extend(opt(s, "-o", "--output", path("work/old.rs")));
                    }
                    c.label("missing input");
                }
                _ => {
                    // malformed
                    fails = true;
                    let i = s.below(pool.len());
                    let b = bad(s, &pool[i]);
                    sc.put("work/bad.xsd", &b.data);
                    args = opt(s, "-i", "--input", path("work/bad.xsd"));
                    if s.chance(2, 3) {
                        sc.put("work/old.rs", b"// older");
                        args.extend(opt(s, "-o", "--output", path("work/old.rs")));
                    }
                    c.label("malformed input");
                    strong += 1;
                }
            }
            let before = snapshot(&sc.0)?;
            log.push(format!("step {}: {} {:?}", step, if w == Which::Xsd { "xsd-parser" } else { "wsdl-parser" }, args));
            let o = run_cmd(w, &cwd, &args)?;
            let after = snapshot(&sc.0)?;
            c.evals(1);
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            let fail = |m: String| Err(format!("step {}: {} (exit {:?}, stderr {:?})\nbefore:\n{}\nafter:\n{}", step, m, o.status.code(), clip(&err, 200), show(&before), show(&after)));
            if fails == o.status.success() {
                return fail(format!("exit status {:?}, but the input is {}", o.status.code(), if fails { "missing or malformed" } else { "good" }));
            }
            if o.status.code().is_none() {
                return fail("ended by a signal".into());
            }
            if let Err(m) = compare(&before, &after, &must, &maybe, &dirs) {
                return fail(m);
            }
            if let Some(code) = stdout {
                if o.stdout != code && o.stdout.strip_suffix(b"\n") != Some(&code) {
                    return fail(format!("standard output is not the generated code: {:?}", clip(&String::from_utf8_lossy(&o.stdout), 300)));
                }
            } else if fails && String::from_utf8_lossy(&o.stdout).contains("pub struct") {
                return fail("code printed for a bad input".into());
            }
        }
        Ok(())
    })();
    let shown: Vec<String> = pool.iter().map(|i| String::from_utf8_lossy(&i.data).into_owned()).collect();
    c.desc(format!("{}\n--- contents ---\n{}", log.join("\n"), shown.join("\n--- next ---\n")));
    c.key(&(&log, &shown));
    c.nontrivial(strong >= 1);
    if pool.iter().any(|i| i.code.as_ref().is_some_and(|c| c.len() > 65536)) {
        c.label("code beyond 64 KiB");
    }
    res
}

/// The schemas that come with the repository, as one directory.
fn corpus(w: Which, c: &mut Ctx) -> Result<(), String> {
    let from = PathBuf::from(repo()).join(w.default_in());
    let sc = Scratch::new();
    let mut must = BTreeMap::new();
    let mut n = 0;
    let mut es: Vec<_> = match fs::read_dir(&from) {
        Ok(d) => d.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect(),
        Err(_) => return Ok(()),
    };
    es.sort();
    for p in es {
        let text = fs::read_to_string(&p).unwrap_or_default();
        let name = p.file_name().unwrap().to_string_lossy().into_owned();
        if let Ok(code) = w.code(&text) {
            sc.put(&format!("in/{}", name), text.as_bytes());
            must.insert(format!("out/{}", out_name(&name)), code.into_bytes());
            n += 1;
        }
    }
    sc.dir("in");
    c.desc(format!("{} files of {}", n, from.display()));
    let before = snapshot(&sc.0)?;
    let o = run_cmd(w, &sc.0, &["-i".into(), "in".into(), "-o".into(), "out".into()])?;
    let after = snapshot(&sc.0)?;
    if !o.status.success() {
        return Err(format!("exit {:?}: {}", o.status.code(), String::from_utf8_lossy(&o.stderr)));
    }
    c.nontrivial(n >= 2);
    c.evals(n);
    compare(&before, &after, &must, &BTreeMap::new(), &BTreeSet::from(["out".to_string()]))
}

pub fn run(c: &mut Check, id: &'static str) {
    let w = if id == "C01" { Which::Xsd } else { Which::Wsdl };
    c.rule = "a run that writes to an existing file or several files, prints code, or meets a malformed file".into();
    c.max_shrink = 250;
    c.case("corpus", |x| corpus(w, x));
    c.prop("runs", c.scale(20000, 600000), 2000, &|s, x| one(w, s, x));
}
