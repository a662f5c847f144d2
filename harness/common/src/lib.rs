//! Engine shared by the harness binaries: a proptest-driven choice tape, the
//! case recorder, evidence/violation/known-finding reporting and replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use proptest::collection::vec as pvec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};

pub mod watch;

// ------------------------------------------------------------------ choices

/// Structured choices decoded from a proptest-generated tape. Past the end of
/// the tape every choice is the simplest one (0), so a shrunk (shorter, smaller)
/// tape is a simpler case.
pub struct Src<'a> {
    tape: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(tape: &'a [u32]) -> Self {
        Src { tape, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.tape.len()
    }
    pub fn left(&self) -> usize {
        self.tape.len().saturating_sub(self.pos)
    }
    /// 0..n, order preserving in the tape value.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            let _ = self.raw();
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi - lo) as u64 + 1;
        if span <= u32::MAX as u64 {
            lo + ((self.raw() as u64 * span) >> 32) as i64
        } else {
            let v = ((self.raw() as u64) << 32) | self.raw() as u64;
            lo + ((v as u128 * span as u128) >> 64) as i64
        }
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// A permutation (identity is the simplest).
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn count(&mut self, max: usize) -> usize {
        self.below(max + 1)
    }
}

// ------------------------------------------------------------------ recorder

#[derive(Default)]
pub struct Ctx {
    nontrivial: bool,
    key: Option<u64>,
    desc: String,
    labels: Vec<String>,
    extra_evals: u64,
    excluded: u64,
}

impl Ctx {
    pub fn desc(&mut self, d: impl Into<String>) {
        self.desc = d.into();
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial = b;
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn evals(&mut self, n: u64) {
        self.extra_evals += n;
    }
    /// A case (or part of one) that falls on a listed known finding.
    pub fn exclude(&mut self) {
        self.excluded += 1;
    }
    pub fn key(&mut self, k: impl Hash) {
        self.key = Some(hash64(&k));
    }
}

pub fn hash64(k: &impl Hash) -> u64 {
    // FNV-like stable hasher: std's SipHash with fixed keys is stable too.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    k.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", clip(&msg, 400), loc));
    }));
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}…", t)
    }
}

/// Runs the code under test; a panic becomes Err("panic: ...").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

// ------------------------------------------------------------------ check

#[derive(Clone)]
pub struct Violation {
    pub sub: String,
    pub message: String,
    pub case: String,
    pub tape: Vec<u32>,
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    excluded: u64,
    subs: BTreeMap<String, (u64, u64)>,
}

pub struct Check {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub exhaustive: Option<bool>,
    /// Steps of shrinking; fewer where a case is costly.
    pub max_shrink: u32,
    totals: Mutex<Totals>,
    violations: Mutex<Vec<Violation>>,
    known: Mutex<Vec<(String, String)>>,
    start: Instant,
    only_sub: Option<(String, Vec<u32>)>,
    cases: AtomicUsize,
}

pub type CaseFn<'a> = dyn Fn(&mut Src, &mut Ctx) -> Result<(), String> + Sync + 'a;

pub fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

impl Check {
    pub fn new(id: &str) -> Self {
        watch::supervise(id);
        install_panic_hook();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough" } else { "quick" }.to_string();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        Check {
            id: id.into(),
            tier,
            seed,
            rule: String::new(),
            assumptions: vec![],
            exhaustive: None,
            max_shrink: 3000,
            totals: Default::default(),
            violations: Default::default(),
            known: Default::default(),
            start: Instant::now(),
            only_sub: None,
            cases: AtomicUsize::new(0),
        }
    }

    /// Restricts the run to one sub-check and one tape (replay).
    pub fn replay(mut self, sub: &str, tape: Vec<u32>) -> Self {
        self.only_sub = Some((sub.into(), tape));
        self
    }

    pub fn is_replay(&self) -> bool {
        self.only_sub.is_some()
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Number of cases of a tier; VERIF_DIV takes a fraction of it, for trying out changes.
    pub fn scale(&self, quick: u32, thorough: u32) -> u32 {
        let div = std::env::var("VERIF_DIV").ok().and_then(|v| v.parse().ok()).unwrap_or(1).max(1);
        let n = if self.thorough() { thorough } else { quick };
        (n / div).max(n.min(50))
    }

    fn record(&self, sub: &str, ctx: Ctx, idx: u64, local: &mut Totals) {
        local.evaluations += 1 + ctx.extra_evals;
        let e = local.subs.entry(sub.to_string()).or_default();
        e.0 += 1 + ctx.extra_evals;
        local.excluded += ctx.excluded;
        for l in &ctx.labels {
            *local.labels.entry(format!("{}:{}", sub, l)).or_default() += 1;
        }
        if ctx.nontrivial {
            let k = ctx.key.unwrap_or_else(|| hash64(&(sub, &ctx.desc)));
            if local.distinct.insert(k) {
                local.subs.get_mut(sub).unwrap().1 += 1;
                if (local.samples.len() < 3 || idx % 997 == 5) && local.samples.len() < 6 {
                    local.samples.push(format!("[{}] {}", sub, clip(&ctx.desc, 1500)));
                }
            }
        }
    }

    fn merge(&self, local: Totals) {
        let mut t = self.totals.lock().unwrap();
        t.evaluations += local.evaluations;
        t.excluded += local.excluded;
        for (k, v) in local.labels {
            *t.labels.entry(k).or_default() += v;
        }
        for (k, v) in local.subs {
            let e = t.subs.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        t.distinct.extend(local.distinct);
        t.samples.extend(local.samples);
    }

    /// Random search with shrinking: `cases` tapes of up to `max_len` choices,
    /// spread over eight deterministic shards.
    pub fn prop(&self, sub: &str, cases: u32, max_len: usize, f: &CaseFn) {
        if let Some((s, tape)) = &self.only_sub {
            if s == sub {
                let mut ctx = Ctx::default();
                let mut src = Src::new(tape);
                let r = guard(|| f(&mut src, &mut ctx)).and_then(|r| r);
                println!("case: {}", ctx.desc);
                match r {
                    Ok(()) => println!("replay: holds"),
                    Err(m) => self.violations.lock().unwrap().push(Violation {
                        sub: sub.into(),
                        message: m,
                        case: ctx.desc,
                        tape: tape.clone(),
                    }),
                }
            }
            return;
        }
        if !self.violations.lock().unwrap().is_empty() {
            return;
        }
        const SHARDS: u64 = 8;
        let per = cases.div_ceil(SHARDS as u32);
        let found: Mutex<BTreeMap<u64, Violation>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let found = &found;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut seed = [0u8; 32];
                        seed[..8].copy_from_slice(&self.seed.to_le_bytes());
                        seed[8..16].copy_from_slice(&hash64(&(self.id.as_str(), sub)).to_le_bytes());
                        seed[16..24].copy_from_slice(&shard.to_le_bytes());
                        let cfg = Config {
                            cases: per,
                            failure_persistence: None,
                            max_shrink_iters: self.max_shrink,
                            max_shrink_time: 0,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            cfg,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                        );
                        let local = RefCell::new(Totals::default());
                        let failing = RefCell::new(false);
                        let idx = RefCell::new(0u64);
                        let strat = pvec(any::<u32>(), 0..=max_len);
                        let res = runner.run(&strat, |tape| {
                            let mut ctx = Ctx::default();
                            let mut src = Src::new(&tape);
                            watch::note(shard as usize, *idx.borrow() * 2 + 1, true, sub, &tape);
                            let r = guard(|| f(&mut src, &mut ctx)).and_then(|r| r);
                            *idx.borrow_mut() += 1;
                            watch::note(shard as usize, *idx.borrow() * 2, false, sub, &[]);
                            match r {
                                Ok(()) => {
                                    if !*failing.borrow() {
                                        let i = *idx.borrow();
                                        self.record(sub, ctx, i, &mut local.borrow_mut());
                                    }
                                    Ok(())
                                }
                                Err(m) => {
                                    *failing.borrow_mut() = true;
                                    Err(TestCaseError::fail(format!("{}\u{1}{}", m, ctx.desc)))
                                }
                            }
                        });
                        if let Err(TestError::Fail(reason, tape)) = res {
                            let r = reason.message().to_string();
                            let (m, c) = r.split_once('\u{1}').unwrap_or((&r, ""));
                            found.lock().unwrap().insert(
                                shard,
                                Violation {
                                    sub: sub.into(),
                                    message: m.into(),
                                    case: c.into(),
                                    tape,
                                },
                            );
                        } else if let Err(TestError::Abort(r)) = res {
                            eprintln!("harness: proptest aborted: {}", r);
                            std::process::exit(3);
                        }
                        self.merge(local.into_inner());
                    })
                    .expect("spawn");
            }
        });
        let found = found.into_inner().unwrap();
        if let Some(v) = found.into_values().min_by_key(|v| (v.tape.len(), v.case.len())) {
            self.violations.lock().unwrap().push(v);
        }
    }

    /// A case of a finite enumeration (or of an externally driven batch).
    pub fn case(&self, sub: &str, f: impl FnOnce(&mut Ctx) -> Result<(), String>) {
        if let Some((s, _)) = &self.only_sub {
            if s != sub {
                return;
            }
        }
        let mut ctx = Ctx::default();
        let k = self.cases.fetch_add(1, Ordering::Relaxed) as u64;
        let slot = watch::SLOTS / 2 + k as usize % (watch::SLOTS / 2);
        watch::note(slot, k * 2 + 1, true, &format!("={}", sub), &[]);
        let r = guard(|| f(&mut ctx)).and_then(|r| r);
        watch::note(slot, k * 2 + 2, false, sub, &[]);
        match r {
            Ok(()) => {
                let mut local = Totals::default();
                let i = 5 + self.totals.lock().unwrap().evaluations;
                self.record(sub, ctx, i, &mut local);
                if self.totals.lock().unwrap().samples.len() > 10 {
                    local.samples.clear();
                }
                self.merge(local);
            }
            Err(m) => {
                let mut v = self.violations.lock().unwrap();
                if v.len() < 3 {
                    v.push(Violation { sub: sub.into(), message: m, case: ctx.desc, tape: vec![] })
                }
            }
        }
    }

    pub fn violate(&self, v: Violation) {
        self.violations.lock().unwrap().push(v);
    }

    /// The violations so far, to be put in another form.
    pub fn take_violations(&self) -> Vec<Violation> {
        std::mem::take(&mut self.violations.lock().unwrap())
    }

    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// The exact input of a finding was tried: where it still fails, it is
    /// reported as known if known_findings.txt lists it, and as new otherwise.
    pub fn finding(&self, key: &str, what: &str, fails: bool) {
        if !fails || self.is_replay() {
            return;
        }
        let text = std::fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
        let head = format!("known: property={} key={} ", self.id, key);
        if text.lines().any(|l| l.starts_with(&head)) {
            self.known_finding(key, what);
        } else {
            self.violate(Violation { sub: "finding".into(), message: what.into(), case: what.into(), tape: vec![] });
        }
    }

    /// Reports a listed finding that still fails on this tree.
    pub fn known_finding(&self, key: &str, what: &str) {
        self.known.lock().unwrap().push((key.into(), what.into()));
    }

    pub fn finish(self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let t = self.totals.into_inner().unwrap();
        let vs = self.violations.into_inner().unwrap();
        let known = self.known.into_inner().unwrap();
        if self.only_sub.is_some() {
            for v in &vs {
                println!("sub-check {}: {}\ncase: {}", v.sub, v.message, v.case);
                println!("VIOLATION property={} replay=-", self.id);
            }
            std::process::exit(if vs.is_empty() { 0 } else { 1 });
        }
        for (_k, w) in &known {
            println!("KNOWN-FINDING: property={} {}", self.id, w);
        }
        let mut j = String::from("{");
        let _ = write!(
            j,
            "\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":{:.3},\"violations\":{},",
            js(&self.id), js(&self.tier), self.seed, wall, vs.len()
        );
        let _ = write!(j, "\"assumptions\":[{}],", self.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(","));
        let mut samples = t.samples.clone();
        if samples.len() > 12 {
            let step = samples.len() / 12;
            samples = samples.into_iter().step_by(step.max(1)).take(12).collect();
        }
        let _ = write!(
            j,
            "\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"sub_checks\":{{{}}},\"labels\":{{{}}},\"excluded_known\":{}{},\"known_findings_seen\":[{}]}}",
            t.evaluations,
            t.distinct.len(),
            js(&self.rule),
            samples.iter().map(|a| js(a)).collect::<Vec<_>>().join(","),
            t.subs.iter().map(|(k, v)| format!("{}:{{\"evaluations\":{},\"distinct_nontrivial\":{}}}", js(k), v.0, v.1)).collect::<Vec<_>>().join(","),
            t.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            t.excluded,
            self.exhaustive.map(|b| format!(",\"exhaustive\":{}", b)).unwrap_or_default(),
            known.iter().map(|k| js(&k.0)).collect::<Vec<_>>().join(","),
        );
        j.push('}');
        let ev = verif_root().join("evidence");
        let _ = std::fs::create_dir_all(&ev);
        std::fs::write(ev.join(format!("{}.json", self.id)), j + "\n").expect("write evidence");
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.id, t.evaluations, t.distinct.len(), vs.len(), wall
        );
        if vs.is_empty() {
            if t.evaluations == 0 {
                eprintln!("harness: nothing was evaluated");
                std::process::exit(3);
            }
            std::process::exit(0);
        }
        let dir = verif_root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for v in &vs {
            let body = format!(
                "property={}\nsub={}\ntape={}\nmessage: {}\ncase:\n{}\n",
                self.id,
                v.sub,
                v.tape.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(","),
                v.message,
                v.case
            );
            let path = dir.join(format!("{}-{:016x}.txt", self.id, hash64(&body)));
            let _ = std::fs::write(&path, &body);
            println!("sub-check {}: {}\n--- shrunk case ---\n{}\n---", v.sub, clip(&v.message, 3000), clip(&v.case, 4000));
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        std::process::exit(1)
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Parses a replay file: (property, sub, tape).
pub fn read_replay(path: &str) -> (String, String, Vec<u32>) {
    let text = std::fs::read_to_string(path).expect("replay file");
    let mut p = (String::new(), String::new(), vec![]);
    for l in text.lines() {
        if let Some(v) = l.strip_prefix("property=") {
            p.0 = v.into()
        } else if let Some(v) = l.strip_prefix("sub=") {
            p.1 = v.into()
        } else if let Some(v) = l.strip_prefix("tape=") {
            p.2 = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            break;
        }
    }
    p
}

// ------------------------------------------------------- source dictionary

/// Numeric and string literals of the code under test, read from its current
/// sources, to bias generators towards the values the code singles out.
#[derive(Default, Clone)]
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<String>,
}

pub fn source_dict(dirs: &[&str]) -> Dict {
    let mut nums = std::collections::BTreeSet::new();
    let mut strs = std::collections::BTreeSet::new();
    let mut stack: Vec<PathBuf> = dirs.iter().map(PathBuf::from).collect();
    let mut files = vec![];
    while let Some(d) = stack.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    stack.push(p)
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    files.push(p)
                }
            }
        }
    }
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let text = text.split("#[cfg(test)]").next().unwrap_or("").to_string();
        for line in text.lines() {
            let line = line.trim();
            if line.starts_with("//") {
                continue;
            }
            let b: Vec<char> = line.chars().collect();
            let mut i = 0;
            while i < b.len() {
                if b[i] == '"' {
                    let mut s = String::new();
                    i += 1;
                    while i < b.len() && b[i] != '"' {
                        if b[i] == '\\' {
                            i += 1;
                        }
                        if i < b.len() {
                            s.push(b[i]);
                        }
                        i += 1;
                    }
                    if !s.is_empty() && s.len() <= 24 && !s.contains('{') {
                        strs.insert(s);
                    }
                } else if b[i].is_ascii_digit()
                    && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_'))
                {
                    let mut s = String::new();
                    while i < b.len() && (b[i].is_ascii_digit() || b[i] == '_') {
                        if b[i] != '_' {
                            s.push(b[i]);
                        }
                        i += 1;
                    }
                    if let Ok(n) = s.parse::<u64>() {
                        nums.insert(n);
                    }
                    continue;
                }
                i += 1;
            }
        }
    }
    Dict { nums: nums.into_iter().collect(), strs: strs.into_iter().collect() }
}

pub fn repo() -> String {
    std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into())
}
