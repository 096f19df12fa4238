//! Exploration driver: deterministic case families run in parallel, coverage counters,
//! crash/hang attribution, replay of one case, evidence and violation reporting.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

pub const SLOTS: usize = 64;
const SLOT_WORDS: usize = 4; // active, family number, case index, start second

/// Shared with the parent process, so that it knows which case was running when a child died.
pub struct SlotFile {
    ptr: *mut u64,
}
unsafe impl Sync for SlotFile {}
unsafe impl Send for SlotFile {}
impl SlotFile {
    pub fn open(path: &str, create: bool) -> Option<SlotFile> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).ok()?;
        let len = SLOTS * SLOT_WORDS * 8;
        if create {
            f.set_len(len as u64).ok()?;
        }
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(SlotFile { ptr: p as *mut u64 })
    }
    fn word(&self, slot: usize, w: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(slot * SLOT_WORDS + w) as *const AtomicU64) }
    }
    pub fn begin(&self, slot: usize, fam: u64, case: u64, sec: u64) {
        self.word(slot, 1).store(fam, SeqCst);
        self.word(slot, 2).store(case, SeqCst);
        self.word(slot, 3).store(sec, SeqCst);
        self.word(slot, 0).store(1, SeqCst);
    }
    pub fn end(&self, slot: usize) {
        self.word(slot, 0).store(0, SeqCst);
    }
    pub fn active(&self) -> Vec<(u64, u64, u64)> {
        (0..SLOTS)
            .filter(|&s| self.word(s, 0).load(SeqCst) == 1)
            .map(|s| (self.word(s, 1).load(SeqCst), self.word(s, 2).load(SeqCst), self.word(s, 3).load(SeqCst)))
            .collect()
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// What one worker thread accumulates.
#[derive(Default)]
pub struct W {
    pub ops: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub verbose: bool,
    pub log: String,
    pub fails: Vec<(String, String)>, // (key, description)
    pub samples: Vec<String>,
    pub extra: BTreeMap<&'static str, u64>,
    pub errors: Vec<String>,
}

impl W {
    /// One operation executed on the real code.
    #[inline]
    pub fn op(&mut self) {
        self.ops += 1;
    }
    #[inline]
    pub fn ops(&mut self, n: u64) {
        self.ops += n;
    }
    /// One complete history/execution compared with the oracle.
    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    #[inline]
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    #[inline]
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash_of(t));
        }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.extra.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// Describes the case; evaluated only when a failing case is run again.
    #[inline]
    pub fn at(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            let _ = writeln!(self.log, "{s}");
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    #[inline]
    pub fn check(&mut self, ok: bool, f: impl FnOnce() -> String) {
        if !ok {
            self.fail("", f());
        }
    }
    pub fn fail(&mut self, key: &str, d: String) {
        if self.fails.iter().filter(|f| f.0 == key).count() < 20 {
            self.fails.push((key.to_string(), d));
        }
    }
    /// The engine itself could not do its work (never a verdict).
    pub fn engine_error(&mut self, d: String) {
        self.errors.push(d);
    }
}

pub struct Failure {
    pub family: String,
    pub case: u64,
    pub key: String,
    pub desc: String,
    pub log: String,
}

pub struct Cx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    pub start: Instant,
    pub slots: Option<SlotFile>,
    pub families: Vec<(String, u64, f64)>,
    pub failures: Vec<Failure>,
    pub known_hit: Vec<String>,
    pub known: Vec<(String, String)>, // (key, text)
    pub ops: u64,
    pub traces: u64,
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
    pub errors: Vec<String>,
    pub level: &'static str,
    pub rule: String,
    pub threads: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().replace('\n', " "))
}

/// Runs `f` and turns a panic into Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn verif_dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

impl Cx {
    /// Runs cases 0..n of a family. Deterministic: case i is a function of i alone.
    pub fn family<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut W) + Sync,
    {
        let fam_no = self.families.len() as u64;
        let t0 = Instant::now();
        let all = std::env::var("MC_ALLFAIL").is_ok();
        if !self.failures.is_empty() && self.replay.is_none() && !all {
            // The verdict is known. Changed code can make the remaining trees far larger.
            self.families.push((format!("{name} (not run: a violation was found before)"), 0, 0.0));
            return;
        }
        // Seconds (from the start) at which the first violation of this family was seen.
        let first_bad = AtomicU64::new(u64::MAX);
        let only = match &self.replay {
            Some((rn, ri)) => {
                let hit = rn == name || rn.parse::<u64>() == Ok(fam_no);
                if !hit {
                    self.families.push((name.to_string(), 0, 0.0));
                    return;
                }
                Some(*ri)
            }
            None => None,
        };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done: Mutex<Vec<(W, Vec<(u64, String, String)>)>> = Mutex::new(vec![]);
        let nthreads = if only.is_some() { 1 } else { (self.threads as u64).min(n.max(1)) as usize };
        let chunk = (n / (nthreads as u64 * 16)).clamp(1, 256);
        let slots = &self.slots;
        let known = &self.known;
        let is_known = |key: &String| !key.is_empty() && known.iter().any(|(k, _)| k == key);
        let start = self.start;
        let run_case = |i: u64, w: &mut W, slot: usize| {
            if let Some(s) = slots {
                s.begin(slot, fam_no, i, start.elapsed().as_secs());
            }
            let r = catch_unwind(AssertUnwindSafe(|| f(i, w)));
            if r.is_err() {
                rand::mc::stop();
                let p = last_panic();
                w.fail("panic", format!("the code panicked: {p}"));
            }
            if let Some(s) = slots {
                s.end(slot);
            }
        };
        std::thread::scope(|sc| {
            for slot in 0..nthreads {
                let (next, stop, done, run_case, is_known, first_bad) = (&next, &stop, &done, &run_case, &is_known, &first_bad);
                sc.spawn(move || {
                    let mut w = W::default();
                    let mut bad = vec![];
                    if let Some(i) = only {
                        w.verbose = true;
                        run_case(i, &mut w, slot);
                        eprintln!("replayed {i}:\n{}", w.log);
                        for (k, d) in w.fails.drain(..) {
                            bad.push((i, k, d));
                        }
                    } else {
                        'o: loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= n || stop.load(SeqCst) {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                run_case(i, &mut w, slot);
                                let now = start.elapsed().as_secs();
                                if !all && now.saturating_sub(first_bad.load(SeqCst)) > 10 {
                                    stop.store(true, SeqCst);
                                }
                                if stop.load(SeqCst) && w.fails.is_empty() {
                                    break 'o;
                                }
                                if !w.fails.is_empty() {
                                    if w.fails.iter().any(|f| !is_known(&f.0)) {
                                        first_bad.fetch_min(now, SeqCst);
                                    }
                                    for (k, d) in w.fails.drain(..) {
                                        // A listed finding is noted once and does not end the exploration.
                                        if !(is_known(&k) && bad.iter().any(|(_, b, _)| *b == k)) {
                                            bad.push((i, k, d));
                                        }
                                    }
                                    if bad.iter().filter(|b| !is_known(&b.1)).count() >= 30 {
                                        stop.store(true, SeqCst);
                                        break 'o;
                                    }
                                }
                            }
                        }
                    }
                    done.lock().unwrap().push((w, bad));
                });
            }
        });
        let mut bad_all = vec![];
        for (w, bad) in done.into_inner().unwrap() {
            self.ops += w.ops;
            self.traces += w.traces;
            self.states.extend(w.states);
            self.outcomes.extend(w.outcomes);
            for (k, v) in w.extra {
                if k.starts_with("max_") {
                    let e = self.extra.entry(k).or_default();
                    *e = (*e).max(v);
                } else {
                    *self.extra.entry(k).or_default() += v;
                }
            }
            self.errors.extend(w.errors);
            if self.samples.len() < 12 {
                for s in w.samples.into_iter().take(2) {
                    self.samples.push(format!("{name}: {s}"));
                }
            }
            bad_all.extend(bad);
        }
        bad_all.sort_by(|a, b| a.0.cmp(&b.0));
        let mut rerun: Option<(u64, bool, String)> = None;
        for (i, key, desc) in bad_all {
            if let Some((_, text)) = self.known.iter().find(|(k, _)| !k.is_empty() && *k == key) {
                if !self.known_hit.contains(text) {
                    self.known_hit.push(text.clone());
                }
                continue;
            }
            if self.failures.len() >= 10 && std::env::var("MC_ALLFAIL").is_err() {
                continue;
            }
            // Run the case again, describing it: the same case must fail again.
            if rerun.as_ref().is_none_or(|r| r.0 != i) {
                let mut w = W { verbose: true, ..W::default() };
                run_case(i, &mut w, SLOTS - 1);
                rerun = Some((i, w.fails.is_empty(), w.log));
            }
            let (_, fine, log) = rerun.clone().unwrap();
            let again = if fine { "\n(!) the case did not fail when run again: nondeterministic" } else { "" };
            self.failures.push(Failure { family: name.to_string(), case: i, key, desc: format!("{desc}{again}"), log });
        }
        self.families.push((name.to_string(), n, t0.elapsed().as_secs_f64()));
    }

    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }

    pub fn finish(mut self) -> i32 {
        let mut exit = 0;
        for k in &self.known_hit {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        if let Some(f) = self.failures.first() {
            let path = write_replay(&self.id, &self.failures);
            println!("{} / case {}: {}", f.family, f.case, f.desc);
            print!("{}", f.log);
            println!("VIOLATION property={} replay={}", self.id, path);
            exit = 1;
        }
        if exit == 0 && !self.errors.is_empty() {
            for e in self.errors.iter().take(5) {
                println!("ENGINE ERROR: {e}");
            }
            exit = 2;
        }
        if self.replay.is_none() {
            self.write_evidence(exit);
        }
        println!(
            "property={} tier={} states={} transitions={} traces={} outcomes={} families={} wall={:.1}s exit={}",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.states.len(),
            self.ops,
            self.traces,
            self.outcomes.len(),
            self.families.len(),
            self.start.elapsed().as_secs_f64(),
            exit
        );
        if std::env::var("MC_PROFILE").is_ok() {
            for (n, c, s) in &self.families {
                println!("  {s:8.2}s {c:>10} {n}");
            }
            println!("  extra {:?}", self.extra);
        }
        self.failures.clear();
        exit
    }

    fn write_evidence(&self, exit: i32) {
        use serde_json::json;
        let mut cov = serde_json::Map::new();
        if self.level == "fault_enumeration" {
            cov.insert("evaluations".into(), json!(self.traces));
            cov.insert("distinct_nontrivial".into(), json!(self.states.len()));
            cov.insert("rule".into(), json!(self.rule));
        } else {
            cov.insert("states".into(), json!(self.states.len()));
            cov.insert("transitions".into(), json!(self.ops));
            cov.insert("traces_validated_against_impl".into(), json!(self.traces));
            cov.insert("rule".into(), json!(self.rule));
        }
        cov.insert("distinct_outcomes".into(), json!(self.outcomes.len()));
        cov.insert("exhaustive".into(), json!(exit == 0 && self.errors.is_empty()));
        cov.insert("samples".into(), json!(self.samples));
        cov.insert("bounds".into(), json!(self.bounds));
        cov.insert(
            "families".into(),
            json!(self.families.iter().map(|(n, c, s)| json!({"name": n, "cases": c, "wall_s": s})).collect::<Vec<_>>()),
        );
        for (k, v) in &self.extra {
            cov.insert((*k).into(), json!(v));
        }
        cov.insert("known_findings_seen".into(), json!(self.known_hit));
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.failures.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    }
}

pub fn write_replay(id: &str, fs: &[Failure]) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.txt"));
    let mut s = String::new();
    for f in fs {
        let _ = writeln!(s, "property {id}\nfamily {}\ncase {}\nviolation: {}\n{}", f.family, f.case, f.desc, f.log);
        let _ = writeln!(s, "rerun this case alone: bash /verif/check.sh {id} --replay '{}:{}'\n", f.family, f.case);
    }
    std::fs::write(&path, s).expect("replay");
    path.to_string_lossy().into_owned()
}

/// |a-b| small relative to the larger of them (or to 1).
pub fn close(a: f64, b: f64) -> bool {
    closet(a, b, 1e-9)
}
pub fn closet(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    if !(a.is_finite() && b.is_finite()) {
        return false;
    }
    (a - b).abs() <= tol * b.abs().max(a.abs()).max(1e-3)
}

/// Mixed-radix decoding of a case number.
pub struct Radix(pub u64);
impl Radix {
    pub fn take(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.take(s.len() as u64) as usize;
        &s[i]
    }
    pub fn vec(&mut self, n: u64, len: usize) -> Vec<u64> {
        (0..len).map(|_| self.take(n)).collect()
    }
}

/// All sequences over 0..base of lengths lo..=hi: number of them, and decoding of one.
pub fn seq_count(base: u64, lo: usize, hi: usize) -> u64 {
    (lo..=hi).map(|l| base.pow(l as u32)).sum()
}
pub fn seq_at(mut i: u64, base: u64, lo: usize, hi: usize) -> Vec<u64> {
    for l in lo..=hi {
        let c = base.pow(l as u32);
        if i < c {
            return Radix(i).vec(base, l);
        }
        i -= c;
    }
    unreachable!("sequence index out of range")
}

pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}
/// The i-th permutation of 0..n (Lehmer code).
pub fn perm_at(mut i: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n as u64).rev() {
        let f = factorial(k - 1);
        let j = (i / f) as usize;
        i %= f;
        out.push(pool.remove(j));
    }
    out
}

/// Small deterministic generator for structured large inputs (never decides coverage claims).
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

/// A key whose order is the reverse of its numeric and textual order.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Rev(pub u32);
impl PartialOrd for Rev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        o.0.cmp(&self.0)
    }
}
impl std::fmt::Display for Rev {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0 / 2) // distinct keys may print alike
    }
}

/// A key without regard to case: equal keys may be printed differently.
#[derive(Clone, Debug)]
pub struct Ci(pub &'static str);
impl Ci {
    fn key(&self) -> String {
        self.0.to_ascii_lowercase()
    }
}
impl PartialEq for Ci {
    fn eq(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
}
impl Eq for Ci {}
impl PartialOrd for Ci {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ci {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.key().cmp(&o.key())
    }
}
impl std::fmt::Display for Ci {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

pub const WAYS: u64 = 7;

/// Hands over items with an honest but not always exact size hint, and once only.
pub struct Handed<T> {
    items: std::collections::VecDeque<T>,
    way: u64,
}
pub fn handed<T>(items: impl IntoIterator<Item = T>, way: u64) -> Handed<T> {
    Handed { items: items.into_iter().collect(), way: way % WAYS }
}
impl<T> Iterator for Handed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.way {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (n, None),
            4 => (0, Some(usize::MAX)),
            5 => (n.min(1), Some(n + 5)),
            _ => (n / 2, Some(n * 2 + 1)),
        }
    }
}
