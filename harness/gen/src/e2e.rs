//! The engine behind G14 and G15: generated code is compiled into programs
//! that answer requests about its types.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vp_common::*;

/// One schema's code and the program text around it.
pub struct Unit {
    /// The generated code.
    pub code: String,
    /// `impl B for ...` of every definition, in the scope of the code.
    pub glue: String,
    /// Expressions `crate::doc::<path>`, one per root.
    pub roots: Vec<String>,
}

const PRELUDE: &str = "#![allow(warnings)]\nuse std::str::FromStr;\nuse vp_e2e::*;\nuse xsd_macro_utils::*;\nuse xsd_parser::generator::validator::Validate;\nuse xsd_types::types as xs;\nuse yaserde_derive::{YaDeserialize, YaSerialize};\n";
/// The prelude the generated code is documented to need.
const ONLY: &str = "    #![allow(warnings)]\n    use std::str::FromStr;\n    use xsd_macro_utils::*;\n    use xsd_parser::generator::validator::Validate;\n    use xsd_types::types as xs;\n    use yaserde_derive::{YaDeserialize, YaSerialize};\n";

pub struct Programs {
    dir: PathBuf,
    /// Shard and place within it of each unit that compiled.
    place: Vec<Option<usize>>,
    bins: Vec<PathBuf>,
}

impl Drop for Programs {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

fn target() -> PathBuf {
    verif_root().join(".build/e2e-target")
}

/// Compiles the units in eight programs. Units that do not compile are told
/// with the first error about them.
pub fn build(units: &[Option<&Unit>], log: bool) -> Result<(Programs, BTreeMap<usize, String>), String> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let id = N.fetch_add(1, SeqCst);
    let h = |e: std::io::Error| format!("harness: {}", e);
    let dir = verif_root().join(format!(".build/e2e-{}-{}", std::process::id(), id));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("src/bin")).map_err(h)?;
    let from = verif_root().join("harness/e2e");
    for f in ["Cargo.toml", "Cargo.lock", "src/lib.rs"] {
        fs::copy(from.join(f), dir.join(f)).map_err(h)?;
    }
    let shards = units.len().clamp(1, 8);
    let mut p = Programs { dir: dir.clone(), place: vec![None; units.len()], bins: vec![] };
    for (i, u) in units.iter().enumerate() {
        if let Some(u) = u {
            let text = format!("{}\npub mod code {{\n{}\n{}\n}}\nmod glue {{\n    use super::*;\n{}\n}}\npub fn run(r: usize, t: &mut T) -> Result<String, String> {{\n    match r {{\n{}        _ => Err(\"harness: no such root\".into()),\n    }}\n}}\n",
                PRELUDE, ONLY, u.code, u.glue,
                u.roots.iter().enumerate().map(|(k, r)| format!("        {} => {}(t),\n", k, r)).collect::<String>());
            fs::write(dir.join(format!("src/case_{}.rs", i)), text).map_err(h)?;
            p.place[i] = Some(i % shards);
        }
    }
    let mut failed: BTreeMap<usize, String> = BTreeMap::new();
    for round in 0..40 {
        for k in 0..shards {
            let mine: Vec<usize> = (0..units.len()).filter(|i| p.place[*i] == Some(k)).collect();
            let mut m = String::from("#![allow(warnings)]\n");
            for i in &mine {
                m.push_str(&format!("#[path = \"../case_{0}.rs\"]\nmod case_{0};\n", i));
            }
            m.push_str("fn run(c: usize, r: usize, t: &mut vp_e2e::T) -> Result<String, String> {\n    match c {\n");
            for i in &mine {
                m.push_str(&format!("        {0} => case_{0}::run(r, t),\n", i));
            }
            m.push_str("        _ => Err(\"harness: no such case\".into()),\n    }\n}\nfn main() {\n    vp_e2e::serve(run)\n}\n");
            let f = dir.join(format!("src/bin/s{}.rs", k));
            if fs::read_to_string(&f).ok().as_deref() != Some(&m) {
                fs::write(f, m).map_err(h)?;
            }
        }
        let start = Instant::now();
        let o = Command::new("cargo")
            .args(["build", "--offline", "--locked", "--keep-going", "--message-format=short"])
            .current_dir(&dir)
            .env("CARGO_TARGET_DIR", target())
            // a control character in a comment is a lint of the compiler, not an error of the code
            .env("RUSTFLAGS", "-Atext_direction_codepoint_in_comment")
            .output()
            .map_err(h)?;
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        if log {
            println!("compiled {} schemas in {} programs in {:.1}s", p.place.iter().filter(|p| p.is_some()).count(), shards, start.elapsed().as_secs_f64());
        }
        if o.status.success() {
            // programs of their own, since a later build writes to the same place
            for k in 0..shards {
                let to = dir.join(format!("run-s{}", k));
                fs::rename(target().join(format!("debug/s{}", k)), &to).map_err(h)?;
                p.bins.push(to);
            }
            return Ok((p, failed));
        }
        let mut new = BTreeSet::new();
        for l in err.lines() {
            if let Some(at) = l.find("case_") {
                let n: String = l[at + 5..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if !l.contains(": error") {
                    continue;
                }
                if let Ok(i) = n.parse::<usize>() {
                    if i < units.len() && new.insert(i) {
                        let line = l[at..].split(':').nth(1).and_then(|n| n.parse::<usize>().ok()).unwrap_or(0);
                        let text = fs::read_to_string(dir.join(format!("src/case_{}.rs", i))).unwrap_or_default();
                        let text = text.lines().nth(line.saturating_sub(1)).unwrap_or("").trim().to_string();
                        let what = l.split(": error").nth(1).unwrap_or(l);
                        failed.entry(i).or_insert(format!("error{}: {:?}", what, text));
                    }
                }
            }
        }
        if new.is_empty() || round == 39 {
            return Err(format!("harness: the programs do not build: {}", clip(&err, 3000)));
        }
        for i in new {
            p.place[i] = None;
        }
    }
    unreachable!()
}

struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

/// Running programs, a set for each thread that asks.
pub struct Pool<'p> {
    programs: &'p Programs,
    idle: Mutex<Vec<Vec<Option<Server>>>>,
    /// Requests under way, by process.
    busy: Arc<Mutex<BTreeMap<u32, Instant>>>,
    pub hangs: Arc<AtomicUsize>,
    stop: Arc<AtomicBool>,
}

extern "C" {
    fn kill(pid: i32, signal: i32) -> i32;
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

impl<'p> Pool<'p> {
    pub fn new(programs: &'p Programs) -> Self {
        let p = Pool {
            programs,
            idle: Mutex::new(vec![]),
            busy: Arc::new(Mutex::new(BTreeMap::new())),
            hangs: Arc::new(AtomicUsize::new(0)),
            stop: Arc::new(AtomicBool::new(false)),
        };
        let (busy, hangs, stop) = (p.busy.clone(), p.hangs.clone(), p.stop.clone());
        // ends programs that do not answer
        std::thread::spawn(move || {
            while !stop.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                let limit = if hangs.load(SeqCst) == 0 { 20 } else { 2 };
                busy.lock().unwrap().retain(|pid, since| {
                    let late = since.elapsed() > Duration::from_secs(limit);
                    if late {
                        hangs.fetch_add(1, SeqCst);
                        unsafe { kill(*pid as i32, 9) };
                    }
                    !late
                });
            }
        });
        p
    }

    /// Enough requests hung: every further one would cost seconds.
    pub fn tired(&self) -> bool {
        self.hangs.load(SeqCst) > 30
    }

    pub fn compiled(&self, unit: usize) -> bool {
        self.programs.place[unit].is_some()
    }

    /// What the program says about the request: Ok(text), or Err(reason).
    pub fn ask(&self, unit: usize, root: usize, toks: &[String]) -> Result<String, String> {
        let k = self.programs.place[unit].ok_or("harness: not compiled")?;
        let mut set = self.idle.lock().unwrap().pop().unwrap_or_else(|| (0..self.programs.bins.len()).map(|_| None).collect());
        if set[k].is_none() {
            let mut child = Command::new(&self.programs.bins[k])
                .env("RUST_BACKTRACE", "0")
                .env("RUST_MIN_STACK", "67108864")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| format!("harness: {}", e))?;
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            set[k] = Some(Server { child, to, from });
        }
        let s = set[k].as_mut().unwrap();
        let mut line = format!("{}\t{}", unit, root);
        for t in toks {
            line.push('\t');
            line.push_str(&esc(t));
        }
        line.push('\n');
        let mut answer = String::new();
        let pid = s.child.id();
        self.busy.lock().unwrap().insert(pid, Instant::now());
        let ok = s.to.write_all(line.as_bytes()).and_then(|_| s.to.flush()).and_then(|_| s.from.read_line(&mut answer)).map(|n| n > 0).unwrap_or(false);
        let late = self.busy.lock().unwrap().remove(&pid).is_none();
        if !ok {
            // it died of the request
            let mut s = set[k].take().unwrap();
            drop(s.to);
            let st = s.child.wait().map(|s| s.to_string()).unwrap_or_default();
            self.idle.lock().unwrap().push(set);
            return Err(if late { "no answer: the program does not end".into() } else { format!("the program ended: {}", st) });
        }
        self.idle.lock().unwrap().push(set);
        let a = unesc(answer.trim_end_matches('\n'));
        match a.strip_prefix('+') {
            Some(t) => Ok(t.to_string()),
            None => Err(a.strip_prefix('-').unwrap_or(&a).to_string()),
        }
    }
}

impl Drop for Pool<'_> {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        for set in self.idle.lock().unwrap().drain(..) {
            for mut s in set.into_iter().flatten() {
                drop(s.to);
                let _ = s.child.kill();
                let _ = s.child.wait();
            }
        }
    }
}

/// Deterministic tapes, from short to long.
pub fn tapes(id: &str, seed: u64, n: usize, max_len: usize) -> Vec<Vec<u32>> {
    (0..n)
        .map(|i| {
            let mut x = hash64(&(id, seed, i as u64));
            let mut next = || {
                // splitmix
                x = x.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                z ^ (z >> 31)
            };
            let len = 10 + (next() % (max_len as u64 - 10)) as usize;
            (0..len).map(|_| (next() >> 32) as u32).collect()
        })
        .collect()
}

/// Smaller tapes, simplest first.
pub fn smaller(t: &[u32]) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = vec![];
    let n = t.len();
    for k in [2usize, 4, 8, 16] {
        if n >= k {
            let w = n / k;
            for i in 0..k {
                let mut a = t[..i * w].to_vec();
                a.extend_from_slice(&t[((i + 1) * w).min(n)..]);
                out.push(a);
                let mut b = t.to_vec();
                b[i * w..((i + 1) * w).min(n)].iter_mut().for_each(|x| *x = 0);
                if b != t {
                    out.push(b);
                }
            }
        }
    }
    out.sort_by_key(|t| (t.len(), t.iter().map(|x| *x as u64).sum::<u64>()));
    out.dedup();
    out
}
