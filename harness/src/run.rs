//! Drives a property: generates choice tapes with proptest, runs the cases in
//! worker processes, shrinks the first failure, writes evidence and a replay.
use crate::cov;
use crate::tape::Tape;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

/// What one case produced.
#[derive(Default, Clone)]
pub struct Stat {
    /// Hash of the case if it was non-trivial by the part's rule.
    pub key: Option<u64>,
    pub classes: Vec<String>,
    pub sample: String,
}
impl Stat {
    pub fn trivial() -> Stat {
        Stat::default()
    }
    pub fn new(key: u64, sample: String) -> Stat {
        Stat { key: Some(key), classes: vec![], sample }
    }
    pub fn class<T: Into<String>>(mut self, c: T) -> Stat {
        self.classes.push(c.into());
        self
    }
}
#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable name of what fails; known findings are matched on it.
    pub sig: String,
    pub msg: String,
    pub files: Vec<(String, Vec<u8>)>,
}
impl Fail {
    pub fn new<A: Into<String>, B: Into<String>>(sig: A, msg: B) -> Fail {
        Fail { sig: sig.into(), msg: msg.into(), files: vec![] }
    }
    pub fn file<A: Into<String>>(mut self, name: A, b: &[u8]) -> Fail {
        self.files.push((name.into(), b.to_vec()));
        self
    }
}
pub type R = Result<Stat, Fail>;

pub type Tapes = Vec<Vec<u32>>;
pub struct Cx {
    /// Document, wire and case tapes.
    pub m: Tape,
    pub w: Tape,
    pub x: Tape,
    /// Further tapes (per page and the like).
    pub own: Vec<Tape>,
    /// Empty scratch directory of this worker.
    pub dir: PathBuf,
}
impl Cx {
    pub fn new(t: &Tapes, dir: &Path) -> Cx {
        let g = |i: usize| Tape::new(t.get(i).cloned().unwrap_or_default());
        Cx { m: g(0), w: g(1), x: g(2), own: (3..t.len()).map(g).collect(), dir: dir.to_path_buf() }
    }
    /// The scratch directory, emptied.
    pub fn fresh_dir(&self) -> PathBuf {
        let d = self.dir.join("c");
        wipe(&d);
        std::fs::create_dir_all(&d).expect("scratch dir");
        d
    }
}
pub fn wipe(d: &Path) {
    if d.exists() {
        // make everything removable again
        fn chmod(d: &Path) {
            use std::os::unix::fs::PermissionsExt;
            if let Ok(m) = d.symlink_metadata() {
                if m.is_dir() {
                    let _ = std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o755));
                    if let Ok(it) = d.read_dir() {
                        for e in it.flatten() {
                            chmod(&e.path());
                        }
                    }
                }
            }
        }
        chmod(d);
        std::fs::remove_dir_all(d).expect("remove scratch dir");
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Death {
    /// Every abnormal end of the process is a violation.
    All,
    /// Signals are, running out of fuel or memory is not.
    Signals,
    /// Only running out of fuel or memory is.
    Limits,
}
#[derive(Clone, Copy)]
pub struct Part {
    pub name: &'static str,
    /// Maximal tape lengths.
    pub tapes: &'static [usize],
    pub quick: u64,
    pub thorough: u64,
    /// Share of cases (of 16) made by mutating tapes that reached new code.
    pub guided: u64,
    pub death: Death,
    pub f: fn(&mut Cx) -> R,
}
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub assumptions: &'static [&'static str],
}
pub fn part(name: &'static str, tapes: &'static [usize], quick: u64, thorough: u64, f: fn(&mut Cx) -> R) -> Part {
    Part { name, tapes, quick, thorough, guided: 0, death: Death::All, f }
}

fn mix(xs: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in xs {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
    }
    h
}
pub fn case_rng(seed: u64, id: &str, part: &str, case: u64) -> TestRng {
    let a = crate::v::fnv(id.as_bytes());
    let b = crate::v::fnv(part.as_bytes());
    let mut s = [0u8; 32];
    for i in 0..4 {
        s[8 * i..8 * i + 8].copy_from_slice(&mix(&[seed, a, b, case, i as u64]).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}
pub fn tapes_for(seed: u64, id: &str, part: &str, case: u64, lens: &[usize]) -> Tapes {
    gen_tapes(&mut runner(case_rng(seed, id, part, case)), lens)
}
fn runner(rng: TestRng) -> TestRunner {
    TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng)
}
fn gen_tapes(r: &mut TestRunner, lens: &[usize]) -> Tapes {
    lens.iter()
        .map(|n| {
            // a third of the tapes at full length, the rest of any length
            let any = proptest::num::u32::ANY;
            let full = proptest::num::u8::ANY.new_tree(r).unwrap().current() < 85;
            let range = if full { *n..=*n } else { 0..=*n };
            proptest::collection::vec(any, range).new_tree(r).unwrap().current()
        })
        .collect()
}
fn mutate(r: &mut TestRunner, corpus: &[Tapes]) -> Tapes {
    let mut d = |n: usize| (proptest::num::u64::ANY.new_tree(r).unwrap().current() % n.max(1) as u64) as usize;
    let mut t = corpus[d(corpus.len())].clone();
    let other = d(corpus.len());
    for _ in 0..1 + d(6) {
        let k = d(t.len());
        let v = &mut t[k];
        match d(6) {
            0 | 1 => {
                let n = v.len();
                if n > 0 {
                    v[d(n)] = [0, u32::MAX, d(1 << 32) as u32, d(1 << 32) as u32][d(4)];
                }
            }
            2 => {
                let n = v.len();
                if n > 1 {
                    let a = d(n);
                    let b = (a + 1 + d(16)).min(n);
                    v.drain(a..b);
                }
            }
            3 => {
                let a = d(v.len() + 1);
                let c: Vec<u32> = (0..1 + d(8)).map(|_| d(1 << 32) as u32).collect();
                v.splice(a..a, c);
            }
            4 => {
                // splice from another one
                let o = &corpus[other][k];
                if !o.is_empty() {
                    let a = d(v.len() + 1);
                    let b = d(o.len());
                    v.truncate(a);
                    v.extend(&o[b..]);
                }
            }
            _ => {
                let n = v.len();
                if n > 0 {
                    let a = d(n);
                    let b = (a + 1 + d(8)).min(n);
                    let c = v[a..b].to_vec();
                    v.splice(a..a, c);
                }
            }
        }
        v.truncate(1 << 14);
    }
    t
}

// ---- shared slot: what the worker is doing ------------------------------------
const SLOT: usize = 1 << 21;
struct Slot(*mut u8);
unsafe impl Send for Slot {}
impl Slot {
    fn new() -> Slot {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        };
        assert!(p != libc::MAP_FAILED);
        Slot(p as *mut u8)
    }
    fn put(&self, b: &[u8]) {
        let n = b.len().min(SLOT - 8);
        unsafe {
            std::ptr::copy_nonoverlapping((n as u64).to_le_bytes().as_ptr(), self.0, 8);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.0.add(8), n);
        }
    }
    fn get(&self) -> Vec<u8> {
        unsafe {
            let mut l = [0u8; 8];
            std::ptr::copy_nonoverlapping(self.0, l.as_mut_ptr(), 8);
            let n = (u64::from_le_bytes(l) as usize).min(SLOT - 8);
            std::slice::from_raw_parts(self.0.add(8), n).to_vec()
        }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut libc::c_void, SLOT) };
    }
}
fn pack(case: u64, t: &Tapes) -> Vec<u8> {
    let mut b = case.to_le_bytes().to_vec();
    b.extend((t.len() as u32).to_le_bytes());
    for x in t {
        b.extend((x.len() as u32).to_le_bytes());
        x.iter().for_each(|v| b.extend(v.to_le_bytes()));
    }
    b
}
fn unpack(b: &[u8]) -> Option<(u64, Tapes)> {
    let mut i = 8;
    let case = u64::from_le_bytes(b.get(..8)?.try_into().ok()?);
    let mut u = || -> Option<u32> {
        let x = u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?);
        i += 4;
        Some(x)
    };
    let n = u()?;
    let mut t = vec![];
    for _ in 0..n {
        let k = u()?;
        t.push((0..k).map(|_| u()).collect::<Option<Vec<u32>>>()?);
    }
    Some((case, t))
}

/// Default work limit per case for everything but C02's own accounting.
pub const FUEL: u64 = 3_000_000_000;

fn run_case(p: &Part, t: &Tapes, dir: &Path) -> Result<R, String> {
    cov::reset(FUEL);
    let mut cx = Cx::new(t, dir);
    let f = p.f;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx))).map_err(|e| {
        format!("harness panic: {}", panic_text(&e))
    })
}
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())
}

fn limits() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
/// Runs `f` in a forked child on a thread with a large stack. Returns the raw
/// wait status, or None if it had to be killed at the deadline.
fn forked(deadline: Instant, f: impl FnOnce() + Send + 'static) -> Option<i32> {
    let pid = spawn(f);
    wait(pid, deadline)
}
fn spawn(f: impl FnOnce() + Send + 'static) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        limits();
        unsafe {
            // The rust runtime reports stack overflows on stderr.
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(n, 2);
            libc::dup2(n, 0);
        }
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn(f).expect("thread");
        let ok = h.join().is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 99 }) };
    }
    pid
}
fn wait(pid: i32, deadline: Instant) -> Option<i32> {
    loop {
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            return Some(st);
        }
        if Instant::now() > deadline {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return None;
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}
/// Name of an abnormal end.
fn death_name(st: i32) -> String {
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        match s {
            libc::SIGABRT => "abort (stack overflow or allocation failure)".into(),
            libc::SIGSEGV => "segmentation fault".into(),
            s => format!("signal {s}"),
        }
    } else {
        match libc::WEXITSTATUS(st) {
            cov::FUEL_EXIT => "runs without end".into(),
            cov::MEM_EXIT => "memory without bound".into(),
            c => format!("exit {c}"),
        }
    }
}
fn death_fail(p: &Part, st: i32) -> Result<Option<Fail>, String> {
    let limit = libc::WIFEXITED(st) && matches!(libc::WEXITSTATUS(st), cov::FUEL_EXIT | cov::MEM_EXIT);
    let signal = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGKILL;
    if !limit && !signal {
        return Err(format!("worker ended: {}", death_name(st)));
    }
    let hit = match p.death {
        Death::All => true,
        Death::Signals => signal,
        Death::Limits => limit,
    };
    Ok(if hit { Some(Fail::new(format!("{}:{}", p.name, death_name(st)), format!("the process ended: {}", death_name(st)))) } else { None })
}

enum Eval {
    Pass,
    Fail(Fail),
    Infra(String),
}
/// One case in a child of its own.
fn eval(p: &Part, t: &Tapes, dir: &Path, deadline: Instant) -> Eval {
    let slot = std::sync::Arc::new(Slot::new());
    slot.put(&[]);
    let (p2, t2, d2) = (*p, t.clone(), dir.to_path_buf());
    struct S(std::sync::Arc<Slot>);
    unsafe impl Send for S {}
    let s2 = S(slot.clone());
    let st = forked(deadline, move || {
        let s2 = s2;
        let r = run_case(&p2, &t2, &d2);
        let j = match r {
            Ok(Ok(_)) => json!({"k": "pass"}),
            Ok(Err(f)) => {
                for (n, b) in &f.files {
                    let _ = std::fs::write(d2.join(format!("artifact-{n}")), b);
                }
                json!({"k": "fail", "sig": f.sig, "msg": f.msg, "files": f.files.iter().map(|x| &x.0).collect::<Vec<_>>()})
            }
            Err(e) => json!({"k": "infra", "msg": e}),
        };
        s2.0.put(j.to_string().as_bytes());
    });
    match st {
        None => Eval::Infra("time limit".into()),
        Some(0) => {
            let j: Value = serde_json::from_slice(&slot.get()).unwrap_or(Value::Null);
            let g = |k: &str| j[k].as_str().unwrap_or("").to_string();
            match g("k").as_str() {
                "pass" => Eval::Pass,
                "fail" => {
                    let mut f = Fail::new(g("sig"), g("msg"));
                    for n in j["files"].as_array().into_iter().flatten() {
                        let n = n.as_str().unwrap_or("").to_string();
                        let b = std::fs::read(dir.join(format!("artifact-{n}"))).unwrap_or_default();
                        f.files.push((n, b));
                    }
                    Eval::Fail(f)
                }
                _ => Eval::Infra(g("msg")),
            }
        }
        Some(st) => match death_fail(p, st) {
            Ok(Some(f)) => Eval::Fail(f),
            Ok(None) => Eval::Pass,
            Err(e) => Eval::Infra(e),
        },
    }
}

/// Tape shrinking in the manner of Hypothesis: shorter, then smaller.
fn shrink(start: Tapes, ok: &mut dyn FnMut(&Tapes) -> bool, deadline: Instant) -> (Tapes, u64) {
    let mut best = start;
    let mut tries = 0u64;
    let mut attempt = |best: &mut Tapes, c: Tapes| -> bool {
        if c == *best || Instant::now() > deadline {
            return false;
        }
        tries += 1;
        if ok(&c) {
            *best = c;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        for k in 0..best.len() {
            // shorter tails
            let mut c = best.clone();
            c[k].clear();
            attempt(&mut best, c);
            let mut cut = best[k].len() / 2;
            while cut > 0 {
                let n = best[k].len();
                if n >= cut {
                    let mut c = best.clone();
                    c[k].truncate(n - cut);
                    if attempt(&mut best, c) {
                        continue;
                    }
                }
                cut /= 2;
            }
            // zero, then delete, blocks
            for zero in [true, false] {
                let mut sz = (best[k].len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best[k].len() {
                        let e = (i + sz).min(best[k].len());
                        let mut c = best.clone();
                        if zero {
                            if c[k][i..e].iter().all(|x| *x == 0) {
                                i = e;
                                continue;
                            }
                            c[k][i..e].fill(0);
                        } else {
                            c[k].drain(i..e);
                        }
                        if !attempt(&mut best, c) || zero {
                            i = e;
                        }
                    }
                    if sz == 1 || Instant::now() > deadline {
                        break;
                    }
                    sz /= 2;
                }
            }
            // lower single values
            for i in 0..best[k].len() {
                let mut step = 31;
                while step > 12 && i < best[k].len() && best[k][i] != 0 {
                    let v = best[k][i];
                    if v >> step == 0 {
                        step -= 1;
                        continue;
                    }
                    let mut c = best.clone();
                    c[k][i] = v - (1 << step);
                    if !attempt(&mut best, c) {
                        step -= 1;
                    }
                }
            }
        }
        if best == before || Instant::now() > deadline {
            return (best, tries);
        }
    }
}

// ---- known findings ------------------------------------------------------------
/// `finding: property=<id> sig=<sig> :: <what fails>`
fn known(root: &Path, id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("sig=")?;
            let (sig, what) = rest.split_once(" :: ")?;
            (p == id).then(|| (sig.to_string(), what.to_string()))
        })
        .collect()
}

// ---- worker ----------------------------------------------------------------------
struct Job {
    seed: u64,
    shard: usize,
    from: u64,
    cases: u64,
    cap: Duration,
    id: &'static str,
    part: Part,
    out: PathBuf,
    dir: PathBuf,
    slot: std::sync::Arc<Slot>,
    stop: std::sync::Arc<Slot>,
    known: Vec<(String, String)>,
}
unsafe impl Send for Job {}
fn worker(j: Job) {
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let mut seen = vec![0u8; cov::map_len()];
    let mut corpus: Vec<Tapes> = vec![];
    let mut keys: BTreeSet<u64> = BTreeSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut fails = vec![];
    let mut findings: BTreeMap<String, u64> = BTreeMap::new();
    let mut infra = Value::Null;
    let mut early = false;
    let mut n = j.from;
    while n < j.cases {
        if start.elapsed() > j.cap || j.stop.get() == b"stop" {
            early = true;
            break;
        }
        let case = n * SHARDS as u64 + j.shard as u64;
        let mut r = runner(case_rng(j.seed, j.id, j.part.name, case));
        let t = if corpus.len() > 8 && mix(&[j.seed, case, 77]) % 16 < j.part.guided {
            mutate(&mut r, &corpus)
        } else {
            gen_tapes(&mut r, j.part.tapes)
        };
        j.slot.put(&pack(n, &t));
        cov::clear_map();
        let spent = cov::spent();
        let res = run_case(&j.part, &t, &j.dir);
        evals += 1;
        let new = cov::merge_into(&mut seen);
        // costly cases are not worth varying again and again
        if new > 0 && cov::spent() - spent < 3_000_000 && j.part.guided > 0 && corpus.len() < 4000 {
            corpus.push(t.clone());
        }
        match res {
            Err(e) => {
                infra = json!({"msg": e, "tapes": t});
                break;
            }
            Ok(Ok(s)) => {
                for c in s.classes {
                    *classes.entry(c).or_insert(0) += 1;
                }
                if let Some(k) = s.key {
                    if keys.insert(k) && samples.len() < 3 && (samples.is_empty() || n % 7 == 3) {
                        samples.push(s.sample);
                    }
                }
            }
            Ok(Err(f)) => {
                if j.known.iter().any(|k| k.0 == f.sig) {
                    *findings.entry(f.sig).or_insert(0) += 1;
                } else {
                    fails.push(json!({"case": case, "sig": f.sig, "msg": f.msg, "tapes": t}));
                    j.stop.put(b"stop");
                    break;
                }
            }
        }
        n += 1;
    }
    let hits: Vec<usize> = (0..seen.len()).filter(|i| seen[*i] != 0).collect();
    let v = json!({"evals": evals, "keys": keys.iter().collect::<Vec<_>>(), "classes": classes, "samples": samples,
        "fails": fails, "findings": findings, "infra": infra, "early": early, "hits": hits, "corpus": corpus.len()});
    std::fs::write(&j.out, v.to_string()).expect("worker output");
}

pub struct Opts {
    pub root: PathBuf,
    pub seed: u64,
    pub tier: String,
    /// Multiplies the case counts.
    pub scale: f64,
    pub only_part: Option<String>,
}

/// Runs the whole check. Returns the exit code.
pub fn check(c: &Check, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let thorough = o.tier == "thorough";
    let known = known(&o.root, c.id);
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut keys: BTreeSet<u64> = BTreeSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_part = serde_json::Map::new();
    let mut samples: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut findings: BTreeMap<String, u64> = BTreeMap::new();
    let mut fail: Option<(Part, Tapes, Fail)> = None;
    let mut infra: Option<String> = None;
    let mut early = false;
    let mut hits: BTreeSet<u64> = BTreeSet::new();
    let budget = if thorough { Duration::from_secs(720) } else { Duration::from_secs(420) };

    let total: f64 = c.parts.iter().map(|p| if thorough { p.thorough } else { p.quick } as f64).sum::<f64>().max(1.0);
    let _ = total;
    'parts: for p in &c.parts {
        if o.only_part.as_deref().is_some_and(|x| x != p.name) {
            continue;
        }
        let cases = (if thorough { p.thorough } else { p.quick } as f64 * o.scale) as u64;
        let per = cases.div_ceil(SHARDS as u64);
        let stop = std::sync::Arc::new(Slot::new());
        let mut part_evals = 0u64;
        let mut part_keys = 0usize;
        struct Run {
            pid: i32,
            slot: std::sync::Arc<Slot>,
            out: PathBuf,
            shard: usize,
            gen_: u32,
            done: bool,
        }
        let start_worker = |shard: usize, from: u64, gen_: u32, stop: &std::sync::Arc<Slot>| -> Run {
            let out = scratch.join(format!("{}-{shard}-{gen_}.json", p.name));
            let dir = scratch.join(format!("w{shard}"));
            std::fs::create_dir_all(&dir).expect("scratch");
            let slot = std::sync::Arc::new(Slot::new());
            slot.put(&[]);
            let job = Job {
                seed: o.seed,
                shard,
                from,
                cases: per,
                cap: budget.saturating_sub(t0.elapsed()),
                id: c.id,
                part: *p,
                out: out.clone(),
                dir,
                slot: slot.clone(),
                stop: stop.clone(),
                known: known.clone(),
            };
            let pid = spawn(move || worker(job));
            Run { pid, slot, out, shard, gen_, done: false }
        };
        let mut runs: Vec<Run> = (0..SHARDS).map(|s| start_worker(s, 0, 0, &stop)).collect();
        let hard = Instant::now() + budget.saturating_sub(t0.elapsed()) + Duration::from_secs(60);
        let mut lost = 0u64;
        while runs.iter().any(|r| !r.done) {
            std::thread::sleep(Duration::from_millis(5));
            for i in 0..runs.len() {
                if runs[i].done {
                    continue;
                }
                let mut st = 0;
                let r = unsafe { libc::waitpid(runs[i].pid, &mut st, libc::WNOHANG) };
                if r == 0 {
                    if Instant::now() > hard {
                        unsafe {
                            libc::kill(runs[i].pid, libc::SIGKILL);
                            libc::waitpid(runs[i].pid, &mut st, 0);
                        }
                        runs[i].done = true;
                        infra.get_or_insert(format!("{}: worker did not end in time", p.name));
                    }
                    continue;
                }
                runs[i].done = true;
                if st == 0 {
                    let v: Value = match std::fs::read(&runs[i].out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                        Some(v) => v,
                        None => {
                            infra.get_or_insert(format!("{}: no worker output", p.name));
                            continue;
                        }
                    };
                    part_evals += v["evals"].as_u64().unwrap_or(0);
                    for k in v["keys"].as_array().into_iter().flatten().filter_map(|k| k.as_u64()) {
                        if keys.insert(k) {
                            part_keys += 1;
                        }
                    }
                    for (k, n) in v["classes"].as_object().into_iter().flatten() {
                        *classes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                    }
                    for s in v["samples"].as_array().into_iter().flatten().filter_map(|s| s.as_str()) {
                        if samples.len() < 12 {
                            samples.push(format!("[{}] {s}", p.name));
                        }
                    }
                    for (k, n) in v["findings"].as_object().into_iter().flatten() {
                        *findings.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                    }
                    hits.extend(v["hits"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
                    early |= v["early"].as_bool().unwrap_or(false) && v["fails"].as_array().is_none_or(|f| f.is_empty());
                    if let Some(m) = v["infra"]["msg"].as_str() {
                        let f = o.root.join("evidence").join("replays").join(format!("{}-infra.json", c.id));
                        let _ = std::fs::create_dir_all(f.parent().unwrap());
                        let _ = std::fs::write(&f, json!({"property": c.id, "part": p.name, "tapes": v["infra"]["tapes"]}).to_string());
                        infra.get_or_insert(format!("{}: {m} (see {})", p.name, f.display()));
                    }
                    for x in v["fails"].as_array().into_iter().flatten() {
                        let t: Tapes = serde_json::from_value(x["tapes"].clone()).expect("tapes");
                        if fail.is_none() {
                            fail = Some((*p, t, Fail::new(x["sig"].as_str().unwrap(), x["msg"].as_str().unwrap())));
                        }
                    }
                } else {
                    let at = unpack(&runs[i].slot.get());
                    match (death_fail(p, st), at) {
                        (Err(e), _) => {
                            infra.get_or_insert(format!("{}: {e}", p.name));
                        }
                        (_, None) => {
                            infra.get_or_insert(format!("{}: worker ended before its first case: {}", p.name, death_name(st)));
                        }
                        (Ok(Some(f)), Some((n, t))) => {
                            lost += n.saturating_sub(0);
                            part_evals += n + 1;
                            if known.iter().any(|k| k.0 == f.sig) {
                                *findings.entry(f.sig).or_insert(0) += 1;
                                let (s, g) = (runs[i].shard, runs[i].gen_ + 1);
                                runs.push(start_worker(s, n + 1, g, &stop));
                            } else {
                                stop.put(b"stop");
                                if fail.is_none() {
                                    fail = Some((*p, t, f));
                                }
                            }
                        }
                        (Ok(None), Some((n, _))) => {
                            *classes.entry(format!("{}: {}", p.name, death_name(st))).or_insert(0) += 1;
                            part_evals += 1;
                            let (s, g) = (runs[i].shard, runs[i].gen_ + 1);
                            if g < 40 {
                                runs.push(start_worker(s, n + 1, g, &stop));
                            } else {
                                early = true;
                            }
                        }
                    }
                }
            }
        }
        let _ = lost;
        evals += part_evals;
        per_part.insert(p.name.into(), json!({"evaluations": part_evals, "distinct_nontrivial": part_keys}));
        if fail.is_some() {
            break 'parts;
        }
    }
    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((p, t, f)) = fail {
        let dir = scratch.join("shrink");
        std::fs::create_dir_all(&dir).expect("scratch");
        let end = Instant::now() + Duration::from_secs(if thorough { 90 } else { 45 });
        // confirm in a process of its own
        let confirmed = match eval(&p, &t, &dir, Instant::now() + Duration::from_secs(120)) {
            Eval::Fail(f) => Some(f),
            Eval::Pass => None,
            Eval::Infra(e) => {
                infra.get_or_insert(e);
                None
            }
        };
        match confirmed {
            None => {
                // depends on the worker's earlier cases; report with the original tapes
                let path = write_replay(&o.root, c.id, &p, &t, &f, "not reproduced in a fresh process", 0);
                violation = json!({"sig": f.sig, "msg": f.msg, "replay": path.display().to_string(), "reproduced_alone": false});
                println!("{}: {} (seen in a worker, not reproduced in a fresh process)", f.sig, plain(&f.msg));
                println!("VIOLATION property={} replay={}", c.id, path.display());
            }
            Some(f0) => {
                let sig = f0.sig.clone();
                let (small, tries) = shrink(
                    t,
                    &mut |c| matches!(eval(&p, c, &dir, Instant::now() + Duration::from_secs(20)), Eval::Fail(f) if f.sig == sig),
                    end,
                );
                let f = match eval(&p, &small, &dir, Instant::now() + Duration::from_secs(60)) {
                    Eval::Fail(f) => f,
                    _ => f0,
                };
                let path = write_replay(&o.root, c.id, &p, &small, &f, "", tries);
                violation = json!({"sig": f.sig, "msg": f.msg, "replay": path.display().to_string(), "shrink_attempts": tries});
                println!("{}: {}", f.sig, plain(&f.msg));
                println!("VIOLATION property={} replay={}", c.id, path.display());
            }
        }
        code = 1;
    }
    for k in &known {
        // a listed finding is announced on every run
        println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", c.id, k.1, findings.get(&k.0).copied().unwrap_or(0));
    }
    if code == 0 {
        if let Some(e) = &infra {
            eprintln!("{}: the check could not be completed: {e}", c.id);
            code = 2;
        }
    }
    let ev = json!({
        "property": c.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": keys.len(),
            "rule": c.rule,
            "samples": samples,
            "classes": classes,
            "parts": per_part,
            "parser_edges_hit": hits.len(),
            "parser_edges_total": cov::edges_total(),
            "stopped_by_time_budget": early,
            "known_findings_seen": findings,
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
        "violation": violation,
        "incomplete": infra,
    });
    let dir = o.root.join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence dir");
    std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    wipe(&scratch);
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {}/{} parser edges, {:.1} s{}",
        c.id,
        o.tier,
        evals,
        keys.len(),
        hits.len(),
        cov::edges_total(),
        t0.elapsed().as_secs_f64(),
        if early && code == 0 { " (time budget)" } else { "" }
    );
    code
}

fn write_replay(root: &Path, id: &str, p: &Part, t: &Tapes, f: &Fail, note: &str, tries: u64) -> PathBuf {
    let dir = root.join("evidence").join("replays");
    std::fs::create_dir_all(&dir).expect("replays");
    let stem = format!("{id}-{}", p.name);
    let mut names = vec![];
    for (n, b) in &f.files {
        let path = dir.join(format!("{stem}-{}", n.replace(['/', '\\', '\0'], "_")));
        if std::fs::write(&path, b).is_ok() {
            names.push(path.display().to_string());
        }
    }
    let path = dir.join(format!("{stem}.json"));
    let j = json!({"property": id, "part": p.name, "sig": f.sig, "msg": f.msg, "note": note, "shrink_attempts": tries,
        "tapes": t, "files": names, "how": format!("/verif/harness/target/release/vh replay {}", path.display())});
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay");
    path
}

pub fn replay(checks: &[Check], file: &Path) -> i32 {
    let j: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay json");
    let id = j["property"].as_str().expect("property");
    let part = j["part"].as_str().expect("part");
    let t: Tapes = serde_json::from_value(j["tapes"].clone()).expect("tapes");
    let c = checks.iter().find(|c| c.id == id).expect("unknown property");
    let p = c.parts.iter().find(|p| p.name == part).expect("unknown part");
    let dir = std::env::temp_dir().join(format!("vh-replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let r = eval(p, &t, &dir, Instant::now() + Duration::from_secs(300));
    wipe(&dir);
    match r {
        Eval::Pass => {
            println!("holds: {id}/{part}");
            0
        }
        Eval::Fail(f) => {
            println!("{}: {}", f.sig, plain(&f.msg));
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        Eval::Infra(e) => {
            eprintln!("{e}");
            2
        }
    }
}

/// On one line and without control characters.
fn plain(s: &str) -> String {
    s.chars().take(4000).map(|c| if c.is_control() { c.escape_default().to_string() } else { c.to_string() }).collect()
}
