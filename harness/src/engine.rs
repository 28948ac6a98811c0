//! Runs a property over many generated cases in worker subprocesses, shrinks failures, writes
//! evidence and replay files.

use crate::src::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !$c { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

pub struct Ctx {
    pub s: Src,
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub hash: std::collections::hash_map::DefaultHasher,
    pub want_desc: bool,
    pub desc: String,
}
impl Ctx {
    pub fn new(s: Src, want_desc: bool) -> Ctx {
        Ctx { s, nontrivial: false, labels: BTreeMap::new(), hash: Default::default(), want_desc, desc: String::new() }
    }
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_default() += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn digest(&mut self, b: &[u8]) {
        b.hash(&mut self.hash)
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let t = f();
            self.desc.push_str(&t);
            self.desc.push('\n');
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()))
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
/// Runs `f`, turning a panic into a failure with signature `panic:<what>`.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail(&format!("panic:{what}"), format!("panic in {what}: {m}"))
        }
    }
}

fn run_once(p: &Prop, ctx: &mut Ctx) -> R {
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| (p.run)(ctx)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.starts_with("harness:") {
                eprintln!("harness panic: {m}");
            }
            fail("panic", format!("panic: {m}"))
        }
    }
}

pub fn run_choices(p: &Prop, choices: Vec<u64>, desc: bool) -> (Result<(), Fail>, Ctx) {
    let mut ctx = Ctx::new(Src::replay(choices), desc);
    let r = run_once(p, &mut ctx);
    (r, ctx)
}

/// Shrinks a failing choice list; `check` says whether a candidate still fails.
fn shrink_with(mut best: Vec<u64>, max_evals: usize, budget: Duration, check: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let t0 = Instant::now();
    let mut evals = 0;
    let mut try_it = |c: &[u64], evals: &mut usize| -> bool {
        *evals += 1;
        check(c)
    };
    loop {
        let start = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if evals > max_evals || t0.elapsed() > budget {
                    return best;
                }
                let j = (i + size).min(best.len());
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[j..]);
                if try_it(&c, &mut evals) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if evals > max_evals || t0.elapsed() > budget {
                    return best;
                }
                let j = (i + size).min(best.len());
                if best[i..j].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..j].iter_mut().for_each(|x| *x = 0);
                    if try_it(&c, &mut evals) {
                        best = c;
                    }
                }
                i += size;
            }
        }
        // lower single values
        for i in 0..best.len() {
            let mut lo = 0u64;
            while best[i] > lo {
                if evals > max_evals || t0.elapsed() > budget {
                    return best;
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if try_it(&c, &mut evals) {
                    best = c;
                } else {
                    lo = mid + 1;
                }
            }
        }
        if best == start {
            return best;
        }
    }
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}
pub fn known_findings() -> Vec<Known> {
    let p = verif_dir().join("known-findings.txt");
    let mut out = vec![];
    if let Ok(t) = std::fs::read_to_string(p) {
        for l in t.lines() {
            // known: property=<id> sig=<signature> <what>
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                out.push(Known {
                    property: a.trim_start_matches("property=").into(),
                    sig: b.trim_start_matches("sig=").into(),
                    what: c.into(),
                });
            }
        }
    }
    out
}
fn is_known(known: &[Known], id: &str, sig: &str) -> bool {
    known.iter().any(|k| k.property == id && k.sig == sig)
}

fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(mix(seed, h), i)
}

const STACK: usize = 8 << 20;

/// Worker: runs the cases i = shard (mod shards), writes a JSON report to `out`.
/// Runaway allocation ends the process instead of filling the machine.
fn limit_memory() {
    extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let l = [4u64 << 30; 2];
    unsafe { setrlimit(RLIMIT_AS, &l) };
}
/// A case takes milliseconds: one that makes no progress for this long does not end.
const STALL: Duration = Duration::from_secs(60);

pub fn worker(p: &'static Prop, seed: u64, shard: u64, shards: u64, cases: u64, dir: &Path) {
    install_hook();
    limit_memory();
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let known = known_findings();
            let mut journal = std::fs::File::create(dir.join(format!("j{shard}"))).unwrap();
            let mut evals = 0u64;
            let mut nontrivial = 0u64;
            let mut digests: HashSet<u64> = HashSet::new();
            let mut labels: BTreeMap<String, u64> = BTreeMap::new();
            let mut samples: Vec<String> = vec![];
            let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
            let mut failure: Option<J> = None;
            let mut i = shard;
            while i < cases {
                {
                    use std::os::unix::fs::FileExt;
                    journal.write_at(&i.to_le_bytes(), 0).unwrap();
                }
                let want = samples.len() < 2;
                let mut ctx = Ctx::new(Src::random(case_seed(seed, p.id, i)), want);
                let r = run_once(p, &mut ctx);
                evals += 1;
                for (k, v) in &ctx.labels {
                    *labels.entry(k.clone()).or_default() += v;
                }
                if ctx.nontrivial {
                    nontrivial += 1;
                    let d = ctx.hash.finish();
                    if digests.insert(d) && want && !ctx.desc.is_empty() {
                        let mut d = ctx.desc.clone();
                        truncate(&mut d, 1500);
                        samples.push(d);
                    }
                }
                if let Err(f) = r {
                    if is_known(&known, p.id, &f.sig) {
                        *known_hits.entry(f.sig.clone()).or_default() += 1;
                    } else {
                        let rec = ctx.s.rec.clone();
                        let sig = f.sig.clone();
                        // in case a shrunk candidate does not end
                        failure = Some(json!({"sig": f.sig, "message": f.msg, "choices": rec, "case": "", "index": i}));
                        let rep = json!({
                            "evals": evals, "nontrivial": nontrivial, "digests": [], "labels": labels, "samples": samples,
                            "known": known_hits, "failure": failure,
                        });
                        std::fs::write(dir.join(format!("r{shard}")), serde_json::to_vec(&rep).unwrap()).unwrap();
                        let best = shrink_with(rec, 6000, Duration::from_secs(25), &mut |c| {
                            matches!(run_choices(p, c.to_vec(), false).0, Err(g) if g.sig == sig)
                        });
                        let (r2, c2) = run_choices(p, best.clone(), true);
                        let msg = match r2 {
                            Err(f) => f.msg,
                            Ok(()) => f.msg,
                        };
                        failure = Some(json!({"sig": f.sig, "message": msg, "choices": best, "case": c2.desc, "index": i}));
                        break;
                    }
                }
                i += shards;
            }
            let _ = journal.flush();
            let rep = json!({
                "evals": evals, "nontrivial": nontrivial, "digests": digests.into_iter().collect::<Vec<_>>(),
                "labels": labels, "samples": samples, "known": known_hits, "failure": failure,
            });
            std::fs::write(dir.join(format!("r{shard}")), serde_json::to_vec(&rep).unwrap()).unwrap();
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
fn truncate(d: &mut String, n: usize) {
    if d.len() > n {
        let mut i = n;
        while !d.is_char_boundary(i) {
            i -= 1;
        }
        d.truncate(i);
        d.push_str("…");
    }
}

/// How a subprocess ended.
#[derive(PartialEq, Clone, Copy)]
enum End { Exit(i32), Signal(i32), Hang }
fn wait(mut c: std::process::Child, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return st.signal().map_or_else(|| End::Exit(st.code().unwrap_or(2)), End::Signal);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
/// Replays choices in a subprocess.
fn probe(id: &str, choices: &[u64], dir: &Path, limit: Duration) -> End {
    let f = dir.join("probe.json");
    std::fs::write(&f, serde_json::to_vec(&json!({"property": id, "choices": choices})).unwrap()).unwrap();
    let c = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["probe", f.to_str().unwrap()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    wait(c, limit)
}

pub fn run(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let cases = ((if tier == "thorough" { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let shards = std::env::var("VH_SHARDS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
    let vd = verif_dir();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(vd.join("replays")).ok();
    std::fs::create_dir_all(vd.join("evidence")).ok();
    let exe = std::env::current_exe().unwrap();
    let limit = Duration::from_secs(if tier == "thorough" { 860 } else { 700 });
    let mut kids: Vec<(u64, std::process::Child)> = (0..shards)
        .map(|k| {
            let c = std::process::Command::new(&exe)
                .args([
                    "worker", p.id, &seed.to_string(), &k.to_string(), &shards.to_string(), &cases.to_string(),
                    dir.to_str().unwrap(),
                ])
                .spawn()
                .unwrap();
            (k, c)
        })
        .collect();
    let mut crashed: Vec<(u64, i32)> = vec![]; // signal 0: no progress
    let mut progress: HashMap<u64, (u64, Instant)> = HashMap::new();
    let at = |k: u64| {
        std::fs::read(dir.join(format!("j{k}"))).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
    };
    let mut error: Option<String> = None;
    while !kids.is_empty() {
        let mut rest = vec![];
        for (k, mut c) in kids {
            match c.try_wait().unwrap() {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(sig) = st.signal() {
                        // SIGSEGV / SIGABRT / SIGBUS / SIGILL: crash of the code under test
                        if [11, 6, 7, 4].contains(&sig) {
                            crashed.push((k, sig));
                        } else {
                            error = Some(format!("worker {k} ended by signal {sig}"));
                        }
                    } else if st.code() != Some(0) {
                        error = Some(format!("worker {k} exited with {:?}", st.code()));
                    }
                }
                None => {
                    if t0.elapsed() > limit {
                        let _ = c.kill();
                        let _ = c.wait();
                        error = Some(format!("worker {k} did not finish within {limit:?}"));
                        continue;
                    }
                    if let Some(i) = at(k) {
                        let e = progress.entry(k).or_insert((i, Instant::now()));
                        if e.0 != i {
                            *e = (i, Instant::now());
                        } else if e.1.elapsed() > STALL {
                            let _ = c.kill();
                            let _ = c.wait();
                            if !dir.join(format!("r{k}")).exists() {
                                crashed.push((k, 0));
                            }
                            continue;
                        }
                    }
                    rest.push((k, c));
                }
            }
        }
        kids = rest;
        std::thread::sleep(Duration::from_millis(if kids.is_empty() { 0 } else { 20 }));
    }
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut digests: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut failures: Vec<J> = vec![];
    for k in 0..shards {
        if let Ok(b) = std::fs::read(dir.join(format!("r{k}"))) {
            let j: J = serde_json::from_slice(&b).unwrap();
            evals += j["evals"].as_u64().unwrap();
            nontrivial += j["nontrivial"].as_u64().unwrap();
            digests.extend(j["digests"].as_array().unwrap().iter().filter_map(|x| x.as_u64()));
            for (l, n) in j["labels"].as_object().unwrap() {
                *labels.entry(l.clone()).or_default() += n.as_u64().unwrap();
            }
            for (l, n) in j["known"].as_object().unwrap() {
                *known_hits.entry(l.clone()).or_default() += n.as_u64().unwrap();
            }
            if samples.len() < 4 {
                samples.extend(j["samples"].as_array().unwrap().iter().take(1).cloned());
            }
            if !j["failure"].is_null() {
                failures.push(j["failure"].clone());
            }
        }
    }
    for (n, (k, sig)) in crashed.iter().enumerate() {
        let Some(i) = at(*k) else {
            error = Some(format!("worker {k} died with signal {sig} before its first case"));
            continue;
        };
        if n > 0 && !failures.is_empty() {
            continue; // one is enough, and a hang takes time to confirm
        }
        // draw list of the crashing case is regenerated by the probe from its seed
        let cs = case_seed(seed, p.id, i);
        let f = dir.join("crash.json");
        std::fs::write(&f, serde_json::to_vec(&json!({"property": p.id, "seed": cs})).unwrap()).unwrap();
        let child = std::process::Command::new(&exe)
            .args(["probe-seed", f.to_str().unwrap(), dir.join("crash.rec").to_str().unwrap()])
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let end = wait(child, STALL);
        if matches!(end, End::Exit(_)) {
            error = Some(format!("worker {k} {}, not reproduced by case {i}", if *sig == 0 { "made no progress".to_string() } else { format!("died with signal {sig}") }));
            continue;
        }
        // recorded draws (written incrementally) of the crashing run
        let rec: Vec<u64> = std::fs::read(dir.join("crash.rec"))
            .map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
            .unwrap_or_default();
        let hang = end == End::Hang;
        let one = Duration::from_secs(if hang { 5 } else { 20 });
        let bad = |c: &[u64]| match probe(p.id, c, &dir, one) {
            End::Exit(_) => false,
            End::Hang => hang,
            End::Signal(_) => true,
        };
        let best = if bad(&rec) {
            shrink_with(rec, 400, Duration::from_secs(40), &mut |c| bad(c))
        } else {
            vec![]
        };
        let (name, message) = match end {
            End::Hang => ("hang", format!("no end within {STALL:?}")),
            _ => ("crash", format!("process died with signal {} (stack overflow, abort or out of memory)", if let End::Signal(s) = end { s } else { 0 })),
        };
        if is_known(&known_findings(), p.id, name) {
            *known_hits.entry(name.into()).or_default() += 1;
        } else {
            failures.push(json!({"sig": name, "message": message, "choices": best, "seed": cs, "index": i, "case": ""}));
        }
    }
    failures.sort_by_key(|f| f["choices"].as_array().map_or(0, |a| a.len()));
    let mut code = 0;
    for k in known_findings().iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {} (hit by {} generated cases)", k.property, k.what, known_hits.get(&k.sig).unwrap_or(&0));
    }
    if let Some(f) = failures.first() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        f["choices"].to_string().hash(&mut h);
        let path = vd.join("replays").join(format!("{}-{:016x}.json", p.id, h.finish()));
        let rep = json!({"property": p.id, "signature": f["sig"], "message": f["message"], "case": f["case"],
            "choices": f["choices"], "seed": f["seed"], "how": format!("harness: vh replay {}", path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("signature: {}", f["sig"].as_str().unwrap_or(""));
        println!("message: {}", f["message"].as_str().unwrap_or(""));
        println!("case:\n{}", f["case"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if let Some(e) = &error {
        eprintln!("ERROR: {e}");
        code = 2;
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": digests.len(), "nontrivial": nontrivial,
            "rule": p.rule, "samples": samples, "classes": labels, "known_findings_hit": known_hits,
        },
        "assumptions": ["the harness's reference model (harness/src) implements the protobuf specification for the generated domain"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": failures.len(),
    });
    if code != 2 {
        std::fs::write(vd.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    println!(
        "{}: tier={tier} seed={seed} cases={evals} nontrivial={nontrivial} distinct={} in {:.1}s -> {}",
        p.id, digests.len(), t0.elapsed().as_secs_f64(),
        match code { 0 => "held", 1 => "VIOLATED", _ => "error" }
    );
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn in_big_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

/// Re-runs a crashing seed, streaming its draws to a file so that they survive the crash.
pub fn probe_seed(p: &'static Prop, seed: u64, rec: &Path) -> i32 {
    install_hook();
    limit_memory();
    let f = std::fs::File::create(rec).unwrap();
    in_big_thread(move || {
        let mut s = Src::random(seed);
        s.stream = Some(f);
        let mut ctx = Ctx::new(s, false);
        match run_once(p, &mut ctx) {
            Ok(()) => 0,
            Err(_) => 1,
        }
    })
}
pub fn replay(p: &'static Prop, j: &J, verbose: bool) -> i32 {
    install_hook();
    limit_memory();
    let choices: Vec<u64> = j["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let seed = j["seed"].as_u64();
    in_big_thread(move || {
        let src = match seed {
            Some(s) if choices.is_empty() => Src::random(s),
            _ => Src::replay(choices),
        };
        let mut ctx = Ctx::new(src, verbose);
        let r = run_once(p, &mut ctx);
        if verbose {
            println!("{}", ctx.desc);
        }
        match r {
            Ok(()) => {
                if verbose {
                    println!("property {} holds on this case", p.id);
                }
                0
            }
            Err(f) => {
                if verbose {
                    println!("signature: {}\nmessage: {}", f.sig, f.msg);
                }
                1
            }
        }
    })
}

/// Development aid: with VH_EMIT set, cases and verdicts are appended to a file, for comparison with another
/// implementation.  0 invalid, 1 valid, 2 not judged.
pub fn emit(verdict: u32, fds: &[u8], norm: &[u8]) {
    use std::sync::{Mutex, OnceLock};
    static F: OnceLock<Option<Mutex<std::fs::File>>> = OnceLock::new();
    let f = F.get_or_init(|| {
        let p = std::env::var("VH_EMIT").ok()?;
        Some(Mutex::new(std::fs::File::create(format!("{p}.{}", std::process::id())).ok()?))
    });
    if let Some(f) = f {
        let mut b = verdict.to_le_bytes().to_vec();
        for x in [fds, norm] {
            b.extend((x.len() as u32).to_le_bytes());
            b.extend(x);
        }
        let _ = f.lock().unwrap().write_all(&b);
    }
}

// ---- command line ----------------------------------------------------------------------------

fn find<'a>(all: &'a [Prop], id: &str) -> &'a Prop {
    all.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

/// The command line of a program with these properties.
pub fn main(all: &'static [Prop]) {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            run(find(all, &a[2]), &tier, seed)
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            worker(find(all, &a[2]), n(3), n(4), n(5), n(6), std::path::Path::new(&a[7]));
            0
        }
        Some("probe") | Some("replay") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            replay(find(all, j["property"].as_str().unwrap()), &j, a[1] == "replay")
        }
        Some("probe-seed") => {
            let j: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            probe_seed(find(all, j["property"].as_str().unwrap()), j["seed"].as_u64().unwrap(), std::path::Path::new(&a[3]))
        }
        Some("list") => {
            for p in all {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
