//! C26: commands touch nothing but their output, work side by side and start afresh after being killed.
//! Every file access of the real commands waits for the scheduler (shim/gate.c), which enumerates the orders.
use crate::cli::{self, Scratch};
use crate::common::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::{Path, PathBuf};
use std::process::{Child, Stdio};

/// One command line; @ stands for the directory of all files. It runs in that directory.
#[derive(Clone, Debug)]
pub struct Job {
    bin: &'static str,
    args: Vec<String>,
    /// The only file it may create or change.
    out: Option<String>,
    /// Whether it has to succeed; None: not judged.
    ok: Option<bool>,
}

type Tree = BTreeMap<PathBuf, (char, u32, Vec<u8>)>;

/// Everything below a directory.
fn tree(d: &Path) -> Tree {
    fn walk(root: &Path, d: &Path, t: &mut Tree) {
        use std::os::unix::fs::PermissionsExt;
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let rel = p.strip_prefix(root).unwrap().to_path_buf();
            let mode = m.permissions().mode();
            if m.is_dir() {
                t.insert(rel, ('d', mode, vec![]));
                walk(root, &p, t);
            } else if m.is_symlink() {
                t.insert(rel, ('l', 0, std::fs::read_link(&p).unwrap_or_default().into_os_string().into_encoded_bytes()));
            } else {
                t.insert(rel, ('f', mode, std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut t = Tree::new();
    walk(d, d, &mut t);
    t
}

/// What differs between two trees outside the given outputs.
fn changes(a: &Tree, b: &Tree, outs: &[&str]) -> Vec<String> {
    let mut v = vec![];
    let skip = |p: &Path| outs.iter().any(|o| Path::new(o) == p);
    for (p, x) in a {
        match b.get(p) {
            _ if skip(p) => {}
            None => v.push(format!("{} has gone", p.display())),
            Some(y) if x.2 != y.2 || x.0 != y.0 => v.push(format!("{} has been changed to {:?}", p.display(), String::from_utf8_lossy(&y.2).chars().take(60).collect::<String>())),
            Some(y) if x.1 != y.1 => v.push(format!("the mode of {} has been changed", p.display())),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) && !skip(p) {
            v.push(format!("{} has been left behind", p.display()));
        }
    }
    v
}

// ---------------------------------------------------------------- running under the scheduler

const GATE: i32 = 200;

struct Proc {
    child: Child,
    req: std::io::BufReader<std::fs::File>,
    grant: std::fs::File,
    /// The access it waits for.
    at: Option<String>,
    log: Vec<String>,
    out: PathBuf,
}

impl Proc {
    fn start(j: &Job, sc: &Scratch, k: usize) -> Proc {
        use std::os::unix::process::CommandExt;
        let pipe = || -> (std::fs::File, std::fs::File) {
            let mut fds = [0; 2];
            unsafe {
                assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
                (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
            }
        };
        let (req, req_w) = pipe();
        let (grant_r, grant) = pipe();
        let out = sc.path(&format!("stdout{k}"));
        let d = sc.path("d");
        let mut c = cli::command(j.bin, 1);
        c.current_dir(&d).args(j.args.iter().map(|a| match a.strip_prefix("@/") {
            Some(r) => d.join(r).into_os_string(),
            None => a.into(),
        }));
        c.env("HOME", d.join("home")).env("TMPDIR", d.join("tmp")).env("XDG_CACHE_HOME", d.join("home")).env_remove("MC_CHILD");
        c.env("LD_PRELOAD", verif_dir().join("target/gate.so")).env("MC_GATE", GATE.to_string());
        c.stdout(std::fs::File::create(&out).expect("scratch file")).stderr(std::fs::File::create(sc.path(&format!("stderr{k}"))).expect("scratch file"));
        let (a, b) = (req_w.as_raw_fd(), grant_r.as_raw_fd());
        unsafe {
            c.pre_exec(move || {
                // The copies stay open over exec.
                if libc::dup2(a, GATE) < 0 || libc::dup2(b, GATE + 1) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = c.spawn().expect("cannot run the command");
        drop((req_w, grant_r));
        let mut p = Proc { child, req: std::io::BufReader::new(req), grant, at: None, log: vec![], out };
        p.listen();
        p
    }
    /// Waits for the next access or for the end.
    fn listen(&mut self) {
        use std::io::BufRead;
        if self.req.buffer().is_empty() {
            let mut f = libc::pollfd { fd: self.req.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut f, 1, 60_000) } == 0 {
                let _ = self.child.kill();
            }
        }
        let mut s = String::new();
        let n = self.req.read_line(&mut s).unwrap_or(0);
        self.at = (n > 0).then(|| s.trim_end().to_string());
    }
    fn done(&self) -> bool {
        self.at.is_none()
    }
    /// Lets it make the access it waits for.
    fn step(&mut self) {
        if let Some(a) = self.at.take() {
            self.log.push(a);
            let _ = self.grant.write_all(b"g");
            self.listen();
        }
    }
    fn finish(mut self) -> Ended {
        while !self.done() {
            self.step();
        }
        let st = self.child.wait().expect("wait");
        let mut out = vec![];
        let _ = std::fs::File::open(&self.out).and_then(|mut f| f.read_to_end(&mut out));
        Ended { ok: st.success(), status: st.to_string(), out, log: self.log }
    }
    fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Debug)]
struct Ended {
    ok: bool,
    status: String,
    out: Vec<u8>,
    log: Vec<String>,
}

/// The directory all commands work in, with bystanders of every name a command might think of for itself.
fn prepare(files: &[(String, Vec<u8>)], jobs: &[&Job], bystanders: bool) -> Scratch {
    let sc = Scratch::new();
    let d = sc.path("d");
    for s in ["home", "tmp", "sub", "other"] {
        std::fs::create_dir_all(d.join(s)).expect("scratch directory");
    }
    for (n, b) in files {
        std::fs::write(d.join(n), b).expect("scratch file");
    }
    if bystanders {
        let mut names: Vec<String> = ["tmp", "temp", "out.tmp", "output", "cache", "lock", ".lock", "elinor.tmp", ".elinor", "log", "tmp/elinor", "tmp/elinor.tmp", "tmp/out", "home/.elinor", "core"].map(String::from).to_vec();
        let outs = jobs.iter().filter_map(|j| j.out.clone());
        for o in outs.chain(files.iter().map(|f| f.0.clone()).filter(|f| jobs.iter().any(|j| j.args.iter().any(|a| a.trim_start_matches("@/") == f)))) {
            let (dir, base) = o.rsplit_once('/').map_or(("", o.as_str()), |(a, b)| (a, b));
            let stem = base.split('.').next().unwrap_or(base);
            let at = |n: String| if dir.is_empty() { n } else { format!("{dir}/{n}") };
            for s in ["tmp", "temp", "bak", "old", "new", "part", "partial", "swp", "lock", "idx", "cache", "jsonl", "csv", "tsv", "json"] {
                names.push(at(format!("{base}.{s}")));
                names.push(at(format!("{stem}.{s}")));
                names.push(at(format!(".{base}.{s}")));
            }
            names.extend([at(format!("{base}~")), at(format!(".{base}")), at(format!("#{base}#")), at(format!("tmp_{base}")), at(format!("tmp-{base}")), at(format!("_{base}")), at(format!("{base}_tmp")), at(format!("{base}0")), at(format!("{base}1"))]);
        }
        for n in names {
            let p = d.join(&n);
            if !p.exists() && !jobs.iter().any(|j| j.out.as_deref() == Some(n.as_str())) {
                std::fs::write(p, format!("precious {n}\n").repeat(3)).expect("scratch file");
            }
        }
    }
    sc
}

/// A command accesses for writing nothing outside the scratch directory.
fn outside(e: &Ended, sc: &Scratch) -> Vec<String> {
    let d = sc.0.to_str().unwrap();
    e.log.iter().filter(|l| l.split_once(' ').is_some_and(|(k, p)| !matches!(k, "open" | "read" | "look") && p.starts_with('/') && !p.starts_with(d))).cloned().collect()
}

/// What one command does alone: its end, its output and its accesses.
#[derive(Clone, Debug)]
struct Alone {
    end: Ended,
    file: Option<Vec<u8>>,
}
fn alone(files: &[(String, Vec<u8>)], j: &Job) -> Alone {
    let sc = prepare(files, &[j], false);
    let end = Proc::start(j, &sc, 0).finish();
    let file = j.out.as_ref().and_then(|o| std::fs::read(sc.path("d").join(o)).ok());
    Alone { end: Ended { out: hide(&end.out, &sc), ..end }, file }
}
fn hide(b: &[u8], sc: &Scratch) -> Vec<u8> {
    String::from_utf8_lossy(b).replace(sc.path("d").to_str().unwrap(), "@").into_bytes()
}

fn judge(j: &Job, got: &Ended, file: &Option<Vec<u8>>, want: &Alone, sc: &Scratch, what: &str, w: &mut W) {
    let show = |b: &[u8]| String::from_utf8_lossy(b).chars().take(200).collect::<String>();
    w.check(got.ok == want.end.ok, || format!("{what}: {} {:?} ends with {}, but alone with {}", j.bin, j.args, got.status, want.end.status));
    if want.end.ok && got.ok {
        let o = hide(&got.out, sc);
        w.check(o == want.end.out, || format!("{what}: {} {:?} prints {:?}, but alone {:?}", j.bin, j.args, show(&o), show(&want.end.out)));
        w.check(*file == want.file, || format!("{what}: {} {:?} writes {:?}, but alone {:?}", j.bin, j.args, file.as_deref().map(show), want.file.as_deref().map(show)));
    }
}

// ---------------------------------------------------------------- the inputs

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
fn files(n: usize) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, String)> = vec![];
    for k in 0..2 {
        v.push((format!("q{k}.trec"), (0..n).map(|i| format!("q{} 0 d{} {}\n", i / 3, i + k, (i + k) % 3)).collect()));
        v.push((format!("r{k}.trec"), (0..n).map(|i| format!("q{} Q0 d{} 1 {}.{} run\n", i / 3, i + k, (i * 7 + k) % 10, k)).collect()));
        v.push((format!("t{k}.jsonl"), (0..n).map(|i| format!("{{\"query_id\":\"q{}\",\"doc_id\":\"d{}\",\"score\":{}}}\n", i / 3, i, (i + k) % 3)).collect()));
        v.push((format!("p{k}.jsonl"), (0..n).map(|i| format!("{{\"query_id\":\"q{}\",\"doc_id\":\"d{}\",\"score\":{}.5}}\n", i / 3, i, (i * 7 + k) % 10)).collect()));
        // One file: the means only. Two files of almost equal differences: all p-values are certain.
        v.push((format!("s{k}.csv"), std::iter::once("query_id,ap,rr\n".to_string()).chain((0..32).map(|i| format!("q{i},{},{}\n", (i % 3) as f64 + k as f64 + (i % 2 * k) as f64 / 64.0, (i % 5) as f64 - (i % 2 * k) as f64 / 64.0 + 2.0 * k as f64))).collect()));
    }
    v.push(("bad.trec".into(), "q0 0 d0 1\nq0 0 d1\n".into()));
    v.push(("bad.jsonl".into(), "{\"query_id\":\"q0\",\"doc_id\":\"d0\",\"score\":1}\n{\"query_id\":\n".into()));
    v.push(("dup.trec".into(), "q0 0 d0 1 5 r\nq0 0 d0 1 6 r\n".into()));
    v.push(("nan.trec".into(), "q0 0 d0 1 5 r\nq0 0 d1 1 nan r\n".into()));
    v.push(("more.jsonl".into(), "{\"query_id\":\"unknown\",\"doc_id\":\"d0\",\"score\":1}\n".into()));
    v.push(("few.csv".into(), "query_id,ap,rr\nq0,1.0,0.5\n".into()));
    v.push(("empty".into(), String::new()));
    v.into_iter().map(|(n, s)| (n, s.into_bytes())).collect()
}
fn convert(i: &str, kind: &str, out: &str) -> Job {
    Job { bin: "elinor-convert", args: strs(&["-i", i, "-r", kind, "-o", out]), out: Some(out.replace("@/", "")), ok: Some(true) }
}
fn evaluate(t: &str, p: &str, out: Option<&str>, tab: bool) -> Job {
    let mut args = strs(&["-t", t, "-p", p]);
    if let Some(o) = out {
        args.extend(strs(&["-o", o]));
    }
    if tab {
        args.push("--tab-separator".into());
    }
    args.extend(strs(&["-m", "ap", "ndcg@2"]));
    Job { bin: "elinor-evaluate", args, out: out.map(|o| o.replace("@/", "")), ok: Some(true) }
}
fn compare(f: &[&str], pretty: bool) -> Job {
    let mut args = strs(&["-i"]);
    args.extend(strs(f));
    args.extend(strs(&["-p", if pretty { "pretty" } else { "raw" }, "--n-iters", "2", "--n-resamples", "2"]));
    Job { bin: "elinor-compare", args, out: None, ok: Some(true) }
}
fn fails(mut j: Job) -> Job {
    j.ok = Some(false);
    j
}

/// Commands that succeed and that fail in every way.
fn single() -> Vec<Job> {
    let mut v = vec![];
    for out in ["out", "out.jsonl", "@/out.jsonl", "sub/out.jsonl", "other/t0.jsonl", "o.csv", "q0.json", "x.y.z"] {
        v.push(convert("q0.trec", "true", out));
        v.push(convert("@/r0.trec", "pred", out));
        v.push(evaluate("t0.jsonl", "p0.jsonl", Some(out), out.len() % 2 == 0));
        for (i, kind) in [("bad.trec", "true"), ("dup.trec", "true"), ("nan.trec", "pred"), ("missing", "true"), ("q0.trec", "pred"), ("q0.trec", "neither"), ("sub", "true")] {
            v.push(fails(convert(i, kind, out)));
        }
        for (t, p) in [("bad.jsonl", "p0.jsonl"), ("t0.jsonl", "bad.jsonl"), ("t0.jsonl", "more.jsonl"), ("missing", "p0.jsonl"), ("t0.jsonl", "missing"), ("q0.trec", "r0.trec")] {
            v.push(fails(evaluate(t, p, Some(out), false)));
        }
    }
    v.push(convert("empty", "true", "out"));
    v.push(evaluate("t0.jsonl", "p0.jsonl", None, false));
    v.push(fails(evaluate("t0.jsonl", "more.jsonl", None, false)));
    for pretty in [false, true] {
        v.push(compare(&["s0.csv"], pretty));
        v.push(compare(&["@/s0.csv"], pretty));
        v.push(compare(&["s0.csv", "s1.csv"], pretty));
        v.push(fails(compare(&["s0.csv", "few.csv"], pretty)));
        v.push(fails(compare(&["s0.csv", "missing"], pretty)));
        v.push(fails(compare(&["empty", "s0.csv"], pretty)));
        let mut j = compare(&["s0.csv", "s1.csv", "s0.csv"], pretty);
        j.ok = None;
        v.push(j);
    }
    // Outputs that cannot be created.
    for o in ["nowhere/out", "sub", "t0.jsonl/out"] {
        let mut a = fails(convert("q0.trec", "true", o));
        a.out = None;
        v.push(a);
        let mut a = fails(evaluate("t0.jsonl", "p0.jsonl", Some(o), false));
        a.out = None;
        v.push(a);
    }
    v
}

/// Inputs of unusual form, each with the commands that read it.
fn unusual() -> Vec<(Vec<(String, Vec<u8>)>, Job)> {
    let base = files(9);
    let text = |n: &str| String::from_utf8(base.iter().find(|f| f.0 == n).unwrap().1.clone()).unwrap();
    let forms: Vec<fn(&str) -> String> = vec![
        |t| t.replace('\n', "\r\n"),
        |t| t.trim_end().to_string(),
        |t| format!("\u{feff}{t}"),
        |t| format!("{t}\n"),
        |t| format!("\n{t}"),
        |t| t.lines().rev().map(|l| format!("{l}\n")).collect(),
        |t| format!("{t}{t}"),
        |t| t.replace('q', "é").replace('d', "\u{1f600}"),
        |t| t.replace(' ', "\t"),
        |t| t.replace(' ', "  "),
        |t| t.replace(',', "\t"),
        |t| t.replace(',', ", "),
        |t| t.replace("q1", "\"q1\""),
        |t| t.replace("q1", "").replace("q2", " "),
        |t| t.replace("ap,rr", "ap,ap"),
        |t| t.replace("query_id", "id"),
        |t| t.replace(",rr", ",\"r,r\""),
        |t| t.replacen('1', "x", 1),
        |t| t.replacen('\n', "", 1),
        |t| t.chars().take(t.len() / 2).collect(),
        |t| format!("{t}\0"),
        |t| t.replace('q', "\\"),
        |t| t.to_uppercase(),
        |_| "\n".into(),
    ];
    let jobs: Vec<(&str, Job)> = vec![
        ("q0.trec", convert("q0.trec", "true", "out")),
        ("r0.trec", convert("r0.trec", "pred", "out")),
        ("t0.jsonl", evaluate("t0.jsonl", "p0.jsonl", Some("o.csv"), false)),
        ("p0.jsonl", evaluate("t0.jsonl", "p0.jsonl", Some("o.csv"), true)),
        ("s0.csv", compare(&["s0.csv"], false)),
        ("s0.csv", compare(&["s0.csv", "s1.csv"], false)),
        ("s1.csv", compare(&["s0.csv", "s1.csv", "s0.csv"], true)),
    ];
    let mut v = vec![];
    for f in &forms {
        for (name, j) in &jobs {
            let mut fs = base.clone();
            fs.iter_mut().find(|x| x.0 == *name).unwrap().1 = f(&text(name)).into_bytes();
            let mut j = j.clone();
            j.ok = None;
            v.push((fs.clone(), j.clone()));
            if j.bin == "elinor-compare" {
                j.args.push("--tab-separator".into());
                for x in fs.iter_mut().filter(|x| x.0.ends_with(".csv") && x.0 != *name) {
                    x.1 = String::from_utf8_lossy(&x.1).replace(',', "\t").into_bytes();
                }
                v.push((fs, j));
            }
        }
    }
    v
}

/// Commands that do not write what another one uses.
fn groups() -> Vec<(String, Vec<Job>)> {
    let mut v: Vec<(String, Vec<Job>)> = vec![];
    // The names of the outputs: unrelated, the same but for the extension, in other directories, one the beginning of the other.
    let outs = [("a.jsonl", "b.jsonl"), ("out.jsonl", "out.json"), ("sub/out", "other/out"), ("out", "out.jsonl"), ("out.1", "out.2"), ("@/x.jsonl", "x.json")];
    for (a, b) in outs {
        v.push((format!("converting to {a} and {b}"), vec![convert("q0.trec", "true", a), convert("r1.trec", "pred", b)]));
        v.push((format!("converting one file to {a} and {b}"), vec![convert("r0.trec", "pred", a), convert("r0.trec", "pred", b)]));
        v.push((format!("evaluating to {a} and {b}"), vec![evaluate("t0.jsonl", "p0.jsonl", Some(a), false), evaluate("t0.jsonl", "p1.jsonl", Some(b), true)]));
        v.push((format!("converting to {a} and evaluating to {b}"), vec![convert("q1.trec", "true", a), evaluate("t1.jsonl", "p1.jsonl", Some(b), false)]));
    }
    v.push(("evaluating with and without saving".into(), vec![evaluate("t0.jsonl", "p0.jsonl", Some("o"), false), evaluate("t0.jsonl", "p0.jsonl", None, false)]));
    v.push(("converting a good and a bad file".into(), vec![convert("q0.trec", "true", "a"), fails(convert("bad.trec", "true", "b"))]));
    v.push(("evaluating good and bad files".into(), vec![evaluate("t0.jsonl", "p0.jsonl", Some("a"), false), fails(evaluate("t0.jsonl", "more.jsonl", Some("b"), false))]));
    v.push(("comparing and evaluating".into(), vec![compare(&["s0.csv", "s1.csv"], false), evaluate("t0.jsonl", "p0.jsonl", Some("o.csv"), false)]));
    v.push(("comparing twice".into(), vec![compare(&["s0.csv", "s1.csv"], false), compare(&["s1.csv"], true)]));
    v.push(("comparing and converting".into(), vec![compare(&["s1.csv", "s0.csv"], true), convert("q0.trec", "true", "s2.csv")]));
    v
}

/// Who goes next, as runs of steps; afterwards everyone finishes in order.
fn orders(n: [usize; 2], switches: usize) -> Vec<Vec<(usize, usize)>> {
    let mut v = vec![];
    for first in 0..2 {
        let (a, b) = (n[first], n[1 - first]);
        for i in 1..a {
            for j in 1..=b {
                v.push(vec![(first, i), (1 - first, j), (first, a)]);
                if switches > 2 && j < b {
                    for k in 1..a - i {
                        v.push(vec![(first, i), (1 - first, j), (first, k), (1 - first, b), (first, a)]);
                    }
                }
            }
        }
        v.push(vec![(first, a)]);
    }
    v
}

fn side_by_side(fs: &[(String, Vec<u8>)], js: &[Job], want: &[Alone], order: &[(usize, usize)], w: &mut W) {
    let refs: Vec<&Job> = js.iter().collect();
    let sc = prepare(fs, &refs, false);
    let d = sc.path("d");
    let before = tree(&d);
    let mut ps: Vec<Proc> = js.iter().enumerate().map(|(k, j)| Proc::start(j, &sc, k)).collect();
    let mut trace = vec![];
    for &(p, steps) in order {
        for _ in 0..steps {
            if ps[p].done() {
                break;
            }
            trace.push(format!("{p}: {}", ps[p].at.clone().unwrap_or_default()));
            ps[p].step();
            w.op();
        }
    }
    let ends: Vec<Ended> = ps.into_iter().map(|p| p.finish()).collect();
    w.trace();
    w.sample(|| format!("{} | {}", js.iter().map(|j| format!("{} {}", j.bin, j.args.join(" "))).collect::<Vec<_>>().join(" || "), trace.join(", ").replace(d.to_str().unwrap(), "@")));
    let what = || format!("after {}", trace.join(", ").replace(d.to_str().unwrap(), "@"));
    let outs: Vec<&str> = js.iter().filter_map(|j| j.out.as_deref()).collect();
    let c = changes(&before, &tree(&d), &outs);
    w.check(c.is_empty(), || format!("{}: {}", what(), c.join(", ")));
    for ((j, e), a) in js.iter().zip(&ends).zip(want) {
        let file = j.out.as_ref().and_then(|o| std::fs::read(d.join(o)).ok());
        judge(j, e, &file, a, &sc, &what(), w);
        w.outcome(&(e.ok, e.out.len()));
    }
}

pub fn c26(cx: &mut Cx) {
    cx.rule = "state = a distinct command line in a distinct directory, or a distinct order of the file accesses of two or three commands, or a distinct point at which a command is killed; the real commands wait for leave before each access".into();
    let th = cx.thorough;
    let small = files(6);
    let big = files(if th { 3000 } else { 900 });
    let (small, big) = (&small, &big);
    // One command alone.
    let js = single();
    let js = &js;
    cx.family("only the output changes", js.len() as u64 * 2 * 2, |i, w| {
        let mut r = Radix(i);
        let j = r.pick(js);
        let fs = if r.take(2) == 0 { small } else { big };
        let old = r.take(2) == 1;
        w.at(|| format!("{} {:?}, {} output file", j.bin, j.args, if old { "an older" } else { "no" }));
        w.state(&("one", i));
        let sc = prepare(fs, &[j], true);
        let d = sc.path("d");
        if let (true, Some(o)) = (old, &j.out) {
            std::fs::write(d.join(o), "older\n".repeat(20_000)).expect("scratch file");
        }
        let before = tree(&d);
        let e = Proc::start(j, &sc, 0).finish();
        w.op();
        w.trace();
        w.outcome(&(e.ok, e.out.len()));
        if let Some(ok) = j.ok {
            w.check(e.ok == ok, || format!("ends with {}: {}", e.status, std::fs::read_to_string(sc.path("stderr0")).unwrap_or_default()));
        }
        let c = changes(&before, &tree(&d), &j.out.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        w.check(c.is_empty(), || c.join(", "));
        let o = outside(&e, &sc);
        w.check(o.is_empty(), || format!("accesses outside its files: {o:?}"));
        if j.ok == Some(true) {
            let file = j.out.as_ref().and_then(|o| std::fs::read(d.join(o)).ok());
            judge(j, &e, &file, &alone(fs, j), &sc, "next to other files", w);
        }
    });
    // Inputs of unusual form, whether the command accepts them or not, and large ones.
    let un = unusual();
    let un = &un;
    cx.family("inputs of unusual form are left alone", un.len() as u64, |i, w| {
        let (fs, j) = &un[i as usize];
        w.at(|| format!("{} {:?}, case {i}", j.bin, j.args));
        w.state(&("unusual", i));
        let sc = prepare(fs, &[j], true);
        let d = sc.path("d");
        let before = tree(&d);
        let e = Proc::start(j, &sc, 0).finish();
        w.op();
        w.trace();
        w.outcome(&(e.ok, e.out.len()));
        let c = changes(&before, &tree(&d), &j.out.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        w.check(c.is_empty(), || c.join(", "));
        let o = outside(&e, &sc);
        w.check(o.is_empty(), || format!("accesses outside its files: {o:?}"));
    });
    let huge = [(12_000, 0), (70_000, 1)].map(|(n, k)| {
        let mut fs = files(n);
        // many topics, or few with many documents
        if k == 1 {
            for f in fs.iter_mut().filter(|f| f.0.ends_with(".trec") || f.0.ends_with(".jsonl")) {
                let t: Vec<u8> = String::from_utf8(std::mem::take(&mut f.1)).unwrap().lines().enumerate().map(|(i, l)| {
                    let q = format!("q{}", i / 3);
                    format!("{}\n", l.replacen(&q, &format!("q{}", i % 150), 1))
                }).collect::<String>().into_bytes();
                f.1 = t;
            }
        }
        for x in fs.iter_mut().filter(|f| f.0 == "s0.csv" || f.0 == "s1.csv") {
            let k = (x.0 == "s1.csv") as usize;
            x.1 = std::iter::once("query_id,ap,rr\n".to_string()).chain((0..n).map(|i| format!("q{i},{},{}\n", (i % 3) as f64 + k as f64 + (i % 2 * k) as f64 / 64.0, (i % 5) as f64 - (i % 2 * k) as f64 / 64.0 + 2.0 * k as f64))).collect::<String>().into_bytes();
        }
        fs
    });
    let huge = &huge;
    let hj = [convert("q0.trec", "true", "out"), convert("r0.trec", "pred", "sub/out"), evaluate("t0.jsonl", "p0.jsonl", Some("o.csv"), false), evaluate("t0.jsonl", "p0.jsonl", None, false), compare(&["s0.csv"], false), compare(&["s0.csv", "s1.csv"], true)];
    let hj = &hj;
    cx.family("large inputs", hj.len() as u64 * 2, |i, w| {
        let mut r = Radix(i);
        let (j, fs) = (r.pick(hj), r.pick(huge));
        w.at(|| format!("{} {:?}, files {}", j.bin, j.args, r.0));
        w.state(&("huge", i));
        let sc = prepare(fs, &[j], true);
        let d = sc.path("d");
        let before = tree(&d);
        let e = Proc::start(j, &sc, 0).finish();
        w.op();
        w.trace();
        w.outcome(&(e.ok, e.out.len()));
        w.check(e.ok, || format!("ends with {}: {}", e.status, std::fs::read_to_string(sc.path("stderr0")).unwrap_or_default()));
        let c = changes(&before, &tree(&d), &j.out.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        w.check(c.is_empty(), || c.join(", "));
        let o = outside(&e, &sc);
        w.check(o.is_empty(), || format!("accesses outside its files: {o:?}"));
    });
    // Two commands side by side.
    let gs = groups();
    let mut cases: Vec<(usize, Vec<(usize, usize)>)> = vec![];
    let mut want: Vec<Vec<Alone>> = vec![];
    for (g, (_, js)) in gs.iter().enumerate() {
        let a: Vec<Alone> = js.iter().map(|j| alone(small, j)).collect();
        let n = [a[0].end.log.len(), a[1].end.log.len()];
        for o in orders(n, if th { 3 } else { 2 }) {
            cases.push((g, o));
        }
        want.push(a);
    }
    let (gs, cases, want) = (&gs, &cases, &want);
    cx.family("two commands side by side", cases.len() as u64, |i, w| {
        let (g, order) = &cases[i as usize];
        w.at(|| format!("{}, runs of steps {order:?}", gs[*g].0));
        w.state(&("two", i));
        side_by_side(small, &gs[*g].1, &want[*g], order, w);
    });
    // Three at a time.
    let trio: Vec<Vec<Job>> = vec![
        vec![convert("q0.trec", "true", "a.x"), convert("r0.trec", "pred", "a.y"), convert("r1.trec", "pred", "a.z")],
        vec![convert("q0.trec", "true", "a.x"), evaluate("t0.jsonl", "p0.jsonl", Some("a.y"), false), evaluate("t0.jsonl", "p0.jsonl", Some("a.z"), true)],
    ];
    let mut cases3: Vec<(usize, Vec<(usize, usize)>)> = vec![];
    let mut want3 = vec![];
    for (g, js) in trio.iter().enumerate() {
        let a: Vec<Alone> = js.iter().map(|j| alone(small, j)).collect();
        let n: Vec<usize> = a.iter().map(|a| a.end.log.len()).collect();
        for p in 0..6 {
            let o = perm_at(p, 3);
            let most = if th { 20 } else { 6 };
            // Every point for the first, points from the end backwards (where the outputs are written) for the others.
            for x in 1..n[o[0]] {
                for y in n[o[1]].saturating_sub(most).max(1)..n[o[1]] {
                    for z in [n[o[2]] / 2, n[o[2]] - 1, n[o[2]]] {
                        cases3.push((g, vec![(o[0], x), (o[1], y), (o[2], z), (o[0], 99), (o[1], 99)]));
                    }
                }
            }
        }
        want3.push(a);
    }
    let (trio, cases3, want3) = (&trio, &cases3, &want3);
    cx.family("three commands side by side", cases3.len() as u64, |i, w| {
        let (g, order) = &cases3[i as usize];
        w.at(|| format!("{:?}, runs of steps {order:?}", trio[*g].iter().map(|j| j.args.join(" ")).collect::<Vec<_>>()));
        w.state(&("three", i));
        side_by_side(small, &trio[*g], &want3[*g], order, w);
    });
    // Killed before each access, then started again.
    let mut kills = vec![];
    let good: Vec<&Job> = js.iter().filter(|j| j.ok == Some(true)).collect();
    for (k, j) in good.iter().enumerate() {
        for b in [false, true] {
            let a = alone(if b { big } else { small }, j);
            for s in 0..=a.end.log.len() {
                kills.push((k, b, s));
            }
        }
    }
    let (good, kills) = (&good, &kills);
    cx.family("killed and started again", kills.len() as u64, |i, w| {
        let (k, b, s) = kills[i as usize];
        let j = good[k];
        let fs = if b { big } else { small };
        w.at(|| format!("{} {:?}, killed after {s} accesses", j.bin, j.args));
        w.state(&("killed", i));
        let sc = prepare(fs, &[j], false);
        let d = sc.path("d");
        let before = tree(&d);
        let mut p = Proc::start(j, &sc, 0);
        for _ in 0..s {
            p.step();
            w.op();
        }
        let finished = p.done();
        p.kill();
        let after = tree(&d);
        // An unfinished command may leave something new, but nothing changed.
        let c: Vec<String> = changes(&before, &after, &j.out.iter().map(|s| s.as_str()).collect::<Vec<_>>()).into_iter().filter(|c| finished || !c.ends_with("left behind")).collect();
        w.check(c.is_empty(), || c.join(", "));
        let e = Proc::start(j, &sc, 1).finish();
        w.trace();
        let file = j.out.as_ref().and_then(|o| std::fs::read(d.join(o)).ok());
        judge(j, &e, &file, &alone(fs, j), &sc, "started again", w);
    });
    cx.bound("172 command lines that succeed or fail, with and without an older output, among bystanders of 60 names per file; 240 inputs of unusual form, inputs of up to 70000 lines; all orders of two commands' file accesses with two (three) switches for 30 pairs, three commands with four switches; every command killed before each of its file accesses and started again");
    cx.assume("a command's behaviour between two accesses to files is not interrupted; system paths and standard output are not scheduled");
}
