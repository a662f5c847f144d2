//! A check runs in a child process. When a case ends the process (a stack
//! overflow, an abort, memory running out) or never ends, the parent finds the
//! case among those under way, confirms and shrinks it in processes of their
//! own, and reports it as a violation instead of leaving the check unanswered.
use crate::*;
use std::fs::{self, File, OpenOptions};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::OnceLock;
use std::time::Duration;

pub const SLOTS: usize = 16;
const SIZE: usize = 64 << 10;
const HEAD: usize = 80;
/// A case under way for so long is looked at, and one that takes `CONFIRM`
/// alone is reported. Cases take milliseconds.
const SUSPECT: Duration = Duration::from_secs(40);
const CONFIRM: Duration = Duration::from_secs(20);

static FILE: OnceLock<Option<File>> = OnceLock::new();

fn file() -> Option<&'static File> {
    FILE.get_or_init(|| {
        let p = std::env::var("VP_CHILD").ok().filter(|p| !p.is_empty())?;
        OpenOptions::new().write(true).open(p).ok()
    })
    .as_ref()
}

/// Notes what `slot` is about to run; `begin` 0 notes the end of it.
pub fn note(slot: usize, n: u64, running: bool, sub: &str, tape: &[u32]) {
    let Some(f) = file() else { return };
    let mut b = Vec::with_capacity(HEAD + tape.len() * 4);
    b.extend_from_slice(&n.to_le_bytes());
    b.extend_from_slice(&(running as u64).to_le_bytes());
    if running {
        let s = sub.as_bytes();
        let s = &s[..s.len().min(48)];
        b.extend_from_slice(&(s.len() as u64).to_le_bytes());
        b.extend_from_slice(s);
        b.resize(72, 0);
        let tape = &tape[..tape.len().min((SIZE - HEAD) / 4)];
        b.extend_from_slice(&(tape.len() as u64).to_le_bytes());
        for t in tape {
            b.extend_from_slice(&t.to_le_bytes());
        }
    }
    let _ = f.write_all_at(&b, (slot % SLOTS * SIZE) as u64);
}

struct Slot {
    n: u64,
    running: bool,
    sub: String,
    tape: Vec<u32>,
}

fn slots(f: &File) -> Vec<Slot> {
    let mut out = vec![];
    for i in 0..SLOTS {
        let mut b = vec![0u8; SIZE];
        if f.read_exact_at(&mut b, (i * SIZE) as u64).is_err() {
            continue;
        }
        let u = |at: usize| u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
        let k = (u(16) as usize).min(48);
        let len = (u(72) as usize).min((SIZE - HEAD) / 4);
        out.push(Slot {
            n: u(0),
            running: u(8) == 1,
            sub: String::from_utf8_lossy(&b[24..24 + k]).into_owned(),
            tape: (0..len).map(|j| u32::from_le_bytes(b[HEAD + 4 * j..HEAD + 4 * j + 4].try_into().unwrap())).collect(),
        });
    }
    out
}

fn wait(c: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if start.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(_) => return None,
        }
    }
}

/// What ends the process, run alone: Some(why) when it dies or does not end.
fn alone(id: &str, sub: &str, tape: &[u32], limit: Duration) -> Option<String> {
    let p = verif_root().join(format!(".build/alone-{}.txt", std::process::id()));
    let t = tape.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(",");
    fs::write(&p, format!("property={}\nsub={}\ntape={}\n", id, sub.trim_start_matches('='), t)).ok()?;
    let r = Command::new(std::env::current_exe().ok()?)
        .arg("replay")
        .arg(&p)
        .env("VP_CHILD", "")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()
        .map(|mut c| wait(&mut c, limit));
    let _ = fs::remove_file(&p);
    match r {
        Some(Some(s)) => s.signal().map(|n| format!("the process is ended by signal {} (stack overflow, abort or memory)", n)),
        Some(None) => Some(format!("it does not end within {} s", limit.as_secs())),
        None => None,
    }
}

fn shrink(id: &str, sub: &str, tape: Vec<u32>, hang: bool) -> Vec<u32> {
    let start = Instant::now();
    let limit = Duration::from_secs(if hang { 4 } else { 20 });
    let mut tape = tape;
    let over = || start.elapsed() > Duration::from_secs(90);
    let mut chunk = (tape.len() / 2).max(1);
    while !over() {
        let mut at = 0;
        let mut any = false;
        while at < tape.len() && !over() {
            let mut t = tape.clone();
            t.drain(at..(at + chunk).min(t.len()));
            if alone(id, sub, &t, limit).is_some() {
                tape = t;
                any = true;
            } else {
                at += chunk;
            }
        }
        if chunk > 1 {
            chunk /= 2;
        } else if !any {
            break;
        }
    }
    for i in 0..tape.len() {
        if over() {
            break;
        }
        if tape[i] != 0 {
            let mut t = tape.clone();
            t[i] = 0;
            if alone(id, sub, &t, limit).is_some() {
                tape = t;
            }
        }
    }
    tape
}

fn report(id: &str, found: Option<(String, Vec<u32>, String)>, wall: f64) -> ! {
    let (sub, tape, why) = found.unwrap_or(("-".into(), vec![], "the process of the check was ended by a signal".into()));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let body = format!(
        "property={}\nsub={}\ntape={}\nmessage: {}\n",
        id, sub.trim_start_matches('='), tape.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(","), why
    );
    let ev = verif_root().join("evidence");
    let _ = fs::create_dir_all(&ev);
    let _ = fs::write(
        ev.join(format!("{}.json", id)),
        format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"wall_s\":{:.3},\"violations\":1,\"assumptions\":[],\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"ended by a case that ends the process or does not end\",\"samples\":[{}],\"sub_checks\":{{}},\"labels\":{{}},\"excluded_known\":0,\"known_findings_seen\":[]}}}}\n",
            js(id), js(if tier == "thorough" { "thorough" } else { "quick" }), seed, wall, js(&why)
        ),
    );
    let dir = verif_root().join("replay");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.txt", id, hash64(&body)));
    let _ = fs::write(&path, &body);
    println!("sub-check {}: {}", sub, why);
    println!("VIOLATION property={} replay={}", id, path.display());
    std::process::exit(1)
}

/// Runs this process again as the child and answers for it; returns in the
/// child.
pub fn supervise(id: &str) {
    if std::env::var("VP_CHILD").is_ok() {
        return;
    }
    let start = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let args: Vec<String> = std::env::args().collect();
    let replay = args.get(1).map(|a| a == "replay").unwrap_or(false);
    let build = verif_root().join(".build");
    let _ = fs::create_dir_all(&build);
    let path = build.join(format!("slots-{}", std::process::id()));
    let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("slots file");
    f.set_len((SLOTS * SIZE) as u64).expect("slots file");
    let mut child = Command::new(std::env::current_exe().expect("self"))
        .args(&args[1..])
        .env("VP_CHILD", &path)
        .spawn()
        .expect("spawn self");
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, start); SLOTS];
    let mut looked: Vec<u64> = vec![u64::MAX; SLOTS];
    let mut tick = 0u64;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if let Ok(Some(s)) = child.try_wait() {
            if let Some(code) = s.code() {
                let _ = fs::remove_file(&path);
                std::process::exit(code)
            }
            let sl = slots(&f);
            let _ = fs::remove_file(&path);
            if replay {
                println!("replay: ended by signal {:?}", s.signal());
                println!("VIOLATION property={} replay=-", id);
                std::process::exit(1)
            }
            let mut hit: Option<(String, Vec<u32>, String)> = None;
            for k in sl.into_iter().filter(|k| k.running) {
                let limit = if k.sub.starts_with('=') { Duration::from_secs(300) } else { CONFIRM };
                if let Some(why) = alone(id, &k.sub, &k.tape, limit) {
                    if hit.as_ref().map(|h| h.1.len() > k.tape.len()).unwrap_or(true) {
                        hit = Some((k.sub, k.tape, why));
                    }
                }
            }
            if let Some(h) = &mut hit {
                h.1 = shrink(id, &h.0, std::mem::take(&mut h.1), h.2.contains("does not end"));
            } else {
                // no single case does it: not an answer about the code
                eprintln!("harness: the check ended by {:?}, but no case does so alone", s);
                std::process::exit(3)
            }
            report(id, hit, start.elapsed().as_secs_f64())
        }
        tick += 1;
        if tick % 100 != 0 || replay {
            continue;
        }
        let sl = slots(&f);
        for (i, k) in sl.into_iter().enumerate() {
            if last[i].0 != k.n {
                last[i] = (k.n, Instant::now());
            }
            if k.running && last[i].1.elapsed() > SUSPECT && looked[i] != k.n {
                let limit = if k.sub.starts_with('=') {
                    // a whole enumeration
                    if last[i].1.elapsed() < Duration::from_secs(300) || thorough {
                        continue;
                    }
                    Duration::from_secs(200)
                } else {
                    CONFIRM
                };
                looked[i] = k.n;
                if let Some(mut why) = alone(id, &k.sub, &k.tape, limit) {
                    let _ = child.kill();
                    let _ = child.wait();
                    let _ = fs::remove_file(&path);
                    let t = if k.tape.is_empty() { vec![] } else { shrink(id, &k.sub, k.tape.clone(), true) };
                    let t = match alone(id, &k.sub, &t, limit) {
                        Some(w) => {
                            why = w;
                            t
                        }
                        None => k.tape,
                    };
                    report(id, Some((k.sub, t, why)), start.elapsed().as_secs_f64())
                }
            }
        }
    }
}
