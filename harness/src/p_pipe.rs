//! C25: elinor-convert, elinor-evaluate and elinor-compare, one after the other, against the library on the TREC records.
use crate::cli::{self, Scratch};
use crate::common::*;
use crate::p_cli::*;
use crate::p_files::{columns, ref_qrels, ref_run};
use elinor::*;

/// The text of one qrels file and of the run files of several systems.
#[derive(Clone, Default)]
struct Trec {
    qrels: Vec<String>,
    runs: Vec<Vec<String>>,
}

struct Way {
    metrics: Vec<String>,
    tab: bool,
    pretty: bool,
}

fn qrel(q: &str, d: &str, g: i32) -> String {
    format!("{q} 0 {d} {g}")
}
fn ranked(q: &str, d: &str, rank: usize, s: &str, tag: &str) -> String {
    format!("{q} Q0 {d} {rank} {s} {tag}")
}

/// The per-topic scores of one system, from the records of its files by the reference reader.
fn system(t: &Trec, k: usize, ms: &[String]) -> Option<Sys> {
    let a = ref_qrels(&t.qrels).ok()?;
    let b = ref_run(&t.runs[k]).ok()?;
    let a = TrueRelStore::from_records(a.into_iter().map(|(query_id, doc_id, score)| Record { query_id, doc_id, score })).ok()?;
    let b = PredRelStore::from_records(b.into_iter().map(|(query_id, doc_id, score)| Record { query_id, doc_id, score: PredScore::from(score) })).ok()?;
    let ev: Vec<_> = ms.iter().map(|m| elinor::evaluate(&a, &b, m.parse().unwrap())).collect::<std::result::Result<_, _>>().ok()?;
    let ids: Vec<String> = ev[0].scores().keys().cloned().collect();
    Some(Sys { rows: ids.iter().map(|q| ev.iter().map(|e| e.scores()[q]).collect()).collect(), ids, cols: ms.to_vec() })
}

/// Converts a file and says whether that succeeded.
fn convert(sc: &Scratch, name: &str, lines: &[String], run: bool, w: &mut W) -> (String, cli::Ran) {
    let i = sc.file(&format!("{name}.trec"), lines.iter().map(|l| format!("{l}\n")).collect::<String>());
    let o = sc.path(&format!("{name}.jsonl"));
    w.op();
    let r = cli::run("elinor-convert", &["-i", i.to_str().unwrap(), "-o", o.to_str().unwrap(), "-r", if run { "pred" } else { "true" }]);
    (o.to_str().unwrap().to_string(), r)
}

fn evaluate(sc: &Scratch, name: &str, t: &str, p: &str, h: &Way, w: &mut W) -> (String, cli::Ran) {
    let o = sc.path(&format!("{name}.csv"));
    let mut args: Vec<String> = ["-t", t, "-p", p, "-o", o.to_str().unwrap()].map(str::to_string).to_vec();
    if h.tab {
        args.push("--tab-separator".into());
    }
    args.push("-m".into());
    args.extend(h.metrics.iter().cloned());
    w.op();
    (o.to_str().unwrap().to_string(), cli::run("elinor-evaluate", &args))
}

const REPS: usize = 40;

/// Compares the CSV files and judges what is printed for the systems.
fn compare(paths: &[String], fs: &[Sys], h: &Way, what: &dyn Fn() -> String, w: &mut W) {
    let mut args: Vec<String> = vec!["-i".into()];
    args.extend(paths.iter().cloned());
    if h.tab {
        args.push("--tab-separator".into());
    }
    args.extend(["-p", if h.pretty { "pretty" } else { "raw" }, "--n-iters", "40", "--n-resamples", "40"].map(str::to_string));
    w.op();
    let r = cli::run("elinor-compare", &args);
    w.trace();
    w.outcome(&(r.ok, r.out.len()));
    let want = match expected(fs, paths, REPS, REPS) {
        Some(Some(v)) => v,
        Some(None) => return,
        None => {
            w.check(!r.ok, || format!("elinor-compare succeeds on scores the library refuses, {}", what()));
            return;
        }
    };
    if !r.ok {
        w.fail("", format!("elinor-compare fails, {}: {}", what(), r.err.chars().take(300).collect::<String>()));
        return;
    }
    let got = read_output(&r.text(), h.pretty);
    if got.len() != want.len() {
        w.fail("", format!("{} sections printed, expected {}, {}", got.len(), want.len(), what()));
        return;
    }
    for ((title, rows), sec) in got.iter().zip(&want) {
        let ok = sec.keyword.iter().all(|k| title.contains(k.as_str())) && rows.len() == sec.rows.len() && rows.iter().zip(&sec.rows).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| cell_ok(x, y)));
        w.check(ok, || format!("section {title:?}: {rows:?}, expected {:?}, {}", sec.rows, what()));
    }
}

/// The whole chain.
fn chain(t: &Trec, h: &Way, w: &mut W) {
    let sc = Scratch::new();
    let show = || format!("qrels {:?}, runs {:?}", t.qrels.iter().take(8).collect::<Vec<_>>(), t.runs.iter().map(|r| r.iter().take(6).collect::<Vec<_>>()).collect::<Vec<_>>());
    let (tp, r) = convert(&sc, "t", &t.qrels, false, w);
    let fine = ref_qrels(&t.qrels).is_ok();
    w.check(r.ok == fine, || format!("elinor-convert ends with {} on {} judgments: {}, {}", r.status, if fine { "valid" } else { "malformed" }, r.err, show()));
    if !fine || !r.ok {
        return;
    }
    let (mut paths, mut fs) = (vec![], vec![]);
    for k in 0..t.runs.len() {
        let (pp, r) = convert(&sc, &format!("p{k}"), &t.runs[k], true, w);
        let fine = ref_run(&t.runs[k]).is_ok();
        w.check(r.ok == fine, || format!("elinor-convert ends with {} on a {} run: {}, {}", r.status, if fine { "valid" } else { "malformed" }, r.err, show()));
        if !fine || !r.ok {
            return;
        }
        let (op, r) = evaluate(&sc, &format!("o{k}"), &tp, &pp, h, w);
        let s = system(t, k, &h.metrics);
        w.check(r.ok == s.is_some(), || format!("elinor-evaluate ends with {} on what the library {}: {}, {}", r.status, if s.is_some() { "accepts" } else { "refuses" }, r.err, show()));
        let (true, Some(s)) = (r.ok, s) else { return };
        let text = r.text();
        for (j, m) in h.metrics.iter().enumerate() {
            let mean = s.rows.iter().map(|r| r[j]).sum::<f64>() / s.rows.len() as f64;
            let l = text.lines().find_map(|l| l.strip_prefix(m.as_str()).and_then(|l| l.strip_prefix('\t')));
            w.check(l.is_some_and(|l| four_decimals(l, mean)), || format!("elinor-evaluate prints {l:?} for {m}, expected {mean}, {}", show()));
        }
        paths.push(op);
        fs.push(s);
    }
    compare(&paths, &fs, h, &show, w);
}

/// Several topics with varied judgments; every system ranks every topic in its own way.
fn sample(qs: &[String], docs: &[String], m: usize) -> Trec {
    let mut t = Trec::default();
    t.runs = vec![vec![]; m];
    for (i, q) in qs.iter().enumerate() {
        for (j, d) in docs.iter().enumerate() {
            if (i + j) % 4 != 3 {
                t.qrels.push(qrel(q, d, ((i * 7 + j * 5 + i * j) % 5) as i32 - 1));
            }
            for (k, r) in t.runs.iter_mut().enumerate() {
                if (i * 3 + j + k) % 5 != 4 || j == 0 {
                    let s = [(i * 11 + j * 17 + k * k * 5) % 13, (i + j * 7 + k * 11) % 7][k % 2];
                    r.push(ranked(q, d, j + 1, &format!("{}", s as f64 / 8.0), &format!("run{k}")));
                }
            }
        }
    }
    t
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn c25(cx: &mut Cx) {
    cx.rule = "state = a distinct set of TREC files and options; every command of the chain runs on the files its predecessor wrote".into();
    let th = cx.thorough;
    let docs = strs(&["d0", "d1", "d2", "d3"]);
    // Every small table of judgments, every pair of small rankings; the conversions and evaluations are shared.
    let some = if th { 16 } else { 3 };
    cx.family("all small judgments x pairs of small rankings", 81, move |i, w| {
        let g = Radix(i).vec(3, 4);
        let mut t = Trec::default();
        for (c, &g) in g.iter().enumerate() {
            let (q, d) = (["q1", "q2"][c / 2], ["a", "b"][c % 2]);
            if g > 0 {
                t.qrels.push(qrel(q, d, [0, 0, 2][g as usize]));
            }
        }
        for (d, g) in [("x", 1), ("y", 3), ("z", 7)] {
            t.qrels.insert(t.qrels.len() / 2, qrel("q3", d, g));
        }
        for k in 0..32 {
            let (a, b, best) = (k % 4, k / 4 % 4, k / 16);
            let mut r = vec![];
            for (q, o) in [("q2", b), ("q1", a)] {
                // one before the other, or only one
                if o != 2 {
                    r.push(ranked(q, "a", 9, ["0.5", "2", "", "1"][o], "s"));
                }
                if o != 3 {
                    r.push(ranked(q, "b", 9, ["1.25", "-1", "0", ""][o], "s"));
                }
            }
            for (j, d) in ["x", "y", "z"].iter().enumerate() {
                r.push(ranked("q3", d, 1, if best == 1 { ["1", "2", "3"][j] } else { ["3", "2", "1"][j] }, "s"));
            }
            t.runs.push(r);
        }
        let h = Way { metrics: strs([&["dcg", "rr"][..], &["ndcg@1"][..], &["dcg_burges@2", "ap"][..]][i as usize % 3]), tab: i % 2 == 1, pretty: i % 5 == 0 };
        w.at(|| format!("qrels {:?}", t.qrels));
        let sc = Scratch::new();
        let (tp, r) = convert(&sc, "t", &t.qrels, false, w);
        w.check(r.ok, || format!("elinor-convert fails: {}", r.err));
        let mut done: Vec<Option<(String, Sys)>> = vec![];
        for k in 0..32 {
            let (pp, r) = convert(&sc, &format!("p{k}"), &t.runs[k], true, w);
            w.check(r.ok, || format!("elinor-convert fails: {}", r.err));
            let (op, r) = evaluate(&sc, &format!("o{k}"), &tp, &pp, &h, w);
            let s = system(&t, k, &h.metrics);
            w.check(r.ok == s.is_some(), || format!("elinor-evaluate ends with {} on what the library {}, run {:?}", r.status, if s.is_some() { "accepts" } else { "refuses" }, t.runs[k]));
            done.push(s.filter(|_| r.ok).map(|s| (op, s)));
        }
        for a in 0..16 {
            for b in 0..some {
                let b = 16 + (b * 5 + a) % 16;
                w.state(&("small", i, a, b));
                if let (Some(x), Some(y)) = (&done[a], &done[b]) {
                    compare(&[x.0.clone(), y.0.clone()], &[x.1.clone(), y.1.clone()], &h, &|| format!("runs {:?} and {:?}", t.runs[a], t.runs[b]), w);
                }
            }
        }
    });
    // Every order of the lines of both kinds of files.
    let nl = 5;
    cx.family("all line orders", factorial(nl) * 4, move |i, w| {
        let mut r = Radix(i);
        let p = perm_at(r.take(factorial(nl)), nl as usize);
        let which = r.take(4) as usize;
        let mut t = sample(&strs(&["q1", "q2", "q3"]), &docs[..2], if which == 3 { 3 } else { 2 });
        let f = match which {
            0 => &mut t.qrels,
            k => &mut t.runs[k - 1],
        };
        let n = f.len().min(nl as usize);
        let old = f.clone();
        for (j, &x) in p.iter().filter(|&&x| x < n).enumerate() {
            f[j] = old[x].clone();
        }
        w.at(|| format!("order {p:?} in file {which}"));
        w.state(&("order", i));
        chain(&t, &Way { metrics: strs(&["dcg", "ndcg"]), tab: false, pretty: i % 2 == 0 }, w);
    });
    // Every odd id that TREC files can hold, as query and as document id.
    let docs = &strs(&["d0", "d1", "d2", "d3"]);
    let odd: Vec<String> = odd_ids().into_iter().filter(|s| columns(s).len() == 1 && columns(s)[0] == *s).collect();
    let odd = &odd;
    cx.family("every odd id", odd.len() as u64 * 2 * 2, move |i, w| {
        let mut r = Radix(i);
        let at = r.take(odd.len() as u64) as usize;
        let tab = r.take(2) == 1;
        let m = 2 + r.take(2) as usize;
        // among its neighbours in the list and ordinary ones
        let mut qs: Vec<String> = (0..3).map(|j| odd[(at + j) % odd.len()].clone()).collect();
        qs.extend(strs(&["q1", "7", "q2"]));
        qs.dedup();
        let ds: Vec<String> = (0..4).map(|j| odd[(at + j * 5) % odd.len()].clone()).collect();
        w.at(|| format!("ids {:?}.., tab {tab}, {m} systems", odd[at].chars().take(30).collect::<String>()));
        w.state(&("odd", i));
        chain(&sample(&qs, &ds, m), &Way { metrics: strs(&["ap", "dcg@3"]), tab, pretty: at % 3 == 0 }, w);
    });
    // Ids that differ only in ways a loose reader overlooks.
    let alike: Vec<Vec<String>> = [
        &["1", "01", "001", "1.0", "+1", "1e0", "0x1"][..],
        &["a", "A", "\u{e1}", "a\u{301}", "\"a\"", "'a'"],
        &["", "\u{feff}q", "q", "q\u{200b}", "Q"],
        &["-0", "0", "0.0", "00", "+0", "0e0"],
        &["true", "TRUE", "True", "null", "NULL", "NaN", "nan", "inf"],
        &["10", "9", "1_0", "1,0", "1;0", "1|0"],
        &["9007199254740993", "9007199254740992", "9007199254740992.0", "18446744073709551616"],
        &["a,b", "a\"b", "a\"\"b", "\"a,b\"", "a;b", "\\"],
        &["query_id", "q", "#q", "//q", "topic"],
        &["2024-01-01", "2024-1-1", "2024-01-01T00:00:00", "12:30", "12:30:00"],
    ]
    .iter()
    .map(|v| v.iter().filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
    .collect();
    let alike = &alike;
    cx.family("ids that read alike", alike.len() as u64 * 12, move |i, w| {
        let mut r = Radix(i);
        let mut qs = r.pick(alike).clone();
        let m = 1 + r.take(3) as usize;
        let tab = r.take(2) == 1;
        if r.take(2) == 1 {
            qs.reverse();
        }
        w.at(|| format!("queries {qs:?}, {m} systems"));
        w.state(&("alike", i));
        let mut t = sample(&qs, docs, m);
        if i % 2 == 1 {
            for (k, r) in t.runs.iter_mut().enumerate() {
                r.rotate_left(k * 3);
            }
        }
        chain(&t, &Way { metrics: strs(&["ndcg@2", "dcg", "hits"]), tab, pretty: false }, w);
    });
    // Numbers of topics, documents and systems.
    let sizes: &[usize] = if th { &[2, 3, 10, 63, 64, 65, 100, 101, 128, 150, 500, 1000, 1024, 1025, 4000] } else { &[2, 3, 10, 64, 65, 101, 150, 1025] };
    cx.family("sizes", sizes.len() as u64 * 5 * 2, move |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(sizes);
        let m = [1, 2, 3, 4, 7][r.take(5) as usize];
        let pretty = r.take(2) == 1;
        if n * m > 4000 {
            return;
        }
        let qs: Vec<String> = (0..n).map(|j| format!("{}", (j * 7919) % 10007)).collect();
        w.at(|| format!("{n} topics, {m} systems, pretty {pretty}"));
        w.state(&("sizes", i));
        chain(&sample(&qs, docs, m), &Way { metrics: strs(&["ap@3", "precision@2", "dcg"]), tab: false, pretty }, w);
    });
    // All metrics at once, one by one and in the other order.
    let all: Vec<String> = ["hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "dcg_burges", "ndcg", "ndcg_burges"].iter().flat_map(|m| if ["r_precision", "bpref"].contains(m) { vec![m.to_string()] } else { vec![m.to_string(), format!("{m}@1"), format!("{m}@10")] }).collect();
    let all = &all;
    cx.family("every metric", all.len() as u64 + 2, move |i, w| {
        let ms = match i as usize {
            0 => all.clone(),
            1 => all.iter().rev().cloned().collect(),
            j => vec![all[j - 2].clone()],
        };
        w.at(|| format!("metrics {ms:?}"));
        w.state(&("metrics", i));
        let qs: Vec<String> = (0..9).map(|j| format!("q{}", 17 - j)).collect();
        for m in 2..4 {
            for ms in if i < 2 && m == 2 { ms.iter().map(|m| vec![m.clone()]).take(3).collect() } else { vec![ms.clone()] } {
                chain(&sample(&qs, docs, m), &Way { metrics: ms, tab: i % 2 == 0, pretty: i % 3 == 0 }, w);
            }
        }
    });
    // Every ordered pair of metrics, over topics some of which agree in one metric and not in another.
    let kinds = strs(&["hits@1", "success", "precision@2", "recall@2", "f1", "r_precision", "ap", "rr", "bpref", "dcg@2", "dcg_burges", "ndcg", "ndcg_burges@2"]);
    let kinds = &kinds;
    let nk = kinds.len() as u64;
    cx.family("every ordered pair of metrics", nk * nk, move |i, w| {
        let mut r = Radix(i);
        let (a, b) = (r.pick(kinds).clone(), r.pick(kinds).clone());
        if a == b {
            return;
        }
        w.at(|| format!("metrics {a}, {b}"));
        w.state(&("pair", i));
        let mut t = Trec { qrels: vec![], runs: vec![vec![]; 2] };
        for (q, g) in [("q3", [2, 0, 1]), ("q1", [1, 0, 0]), ("q2", [3, 1, 0]), ("q4", [1, 2, 0])] {
            for (j, g) in g.iter().enumerate() {
                t.qrels.push(qrel(q, &docs[j], *g));
                for (k, r) in t.runs.iter_mut().enumerate() {
                    // The first system puts a relevant document first for every topic.
                    let s = if k == 0 { 3 - j as i32 } else { [[2, 3, 1], [1, 2, 3], [1, 3, 2], [3, 1, 2]][t.qrels.len() % 4][j] };
                    r.push(ranked(q, &docs[j], j, &s.to_string(), "s"));
                }
            }
        }
        chain(&t, &Way { metrics: vec![a, b], tab: i % 2 == 0, pretty: i % 3 == 0 }, w);
    });
    // The chain stops where something is wrong.
    let bad = ["", "q1", "q1 0", "q1 0 d9", "q1 Q0 d9 1", "q1 0 d9 x", "q1 Q0 d9 1 x r", "q1 0 d9 1e", "q1 Q0 d9 1 1,5 r", "   "];
    cx.family("bad lines at every position of every file", bad.len() as u64 * 3 * 5, move |i, w| {
        let mut r = Radix(i);
        let (b, f, at) = (*r.pick(&bad), r.take(3) as usize, r.take(5) as usize);
        let mut t = sample(&strs(&["q1", "q2", "q3"]), docs, 2);
        let v = if f == 0 { &mut t.qrels } else { &mut t.runs[f - 1] };
        let at = if at == 4 { v.len() } else { at * 2 };
        v.insert(at, b.to_string());
        w.at(|| format!("{b:?} as line {at} of file {f}"));
        w.state(&("bad", i));
        chain(&t, &Way { metrics: strs(&["ap", "dcg"]), tab: false, pretty: false }, w);
    });
    cx.family("a topic missing somewhere", 4 * 3 * 2, move |i, w| {
        let mut r = Radix(i);
        let (q, f, m) = (r.take(4) as usize, r.take(3) as usize, 2 + r.take(2) as usize);
        let qs = strs(&["q1", "q2", "q3", "q4"]);
        let mut t = sample(&qs, docs, m);
        let v = if f == 0 { &mut t.qrels } else { &mut t.runs[f - 1] };
        v.retain(|l| !l.starts_with(&format!("{} ", qs[q])));
        w.at(|| format!("{} is missing from file {f} of {m} systems", qs[q]));
        w.state(&("missing", i));
        let h = Way { metrics: strs(&["dcg"]), tab: false, pretty: false };
        if f == 0 {
            chain(&t, &h, w); // stops at elinor-evaluate
            return;
        }
        let sc = Scratch::new();
        let (tp, r) = convert(&sc, "t", &t.qrels, false, w);
        w.check(r.ok, || r.err.clone());
        let mut paths = vec![];
        for k in 0..m {
            let (pp, r) = convert(&sc, &format!("p{k}"), &t.runs[k], true, w);
            w.check(r.ok, || r.err.clone());
            let (op, r) = evaluate(&sc, &format!("o{k}"), &tp, &pp, &h, w);
            w.check(r.ok, || r.err.clone());
            paths.push(op);
        }
        let mut args = strs(&["--n-iters", "40", "--n-resamples", "40", "-i"]);
        args.extend(paths);
        w.op();
        let r = cli::run("elinor-compare", &args);
        w.trace();
        w.check(!r.ok, || format!("elinor-compare succeeds although {} is missing from system {f}: {}", qs[q], r.text()));
    });
    cx.assume("scores are short decimals (the read-back of longer ones is a known finding of C11); the per-query scores of the library are the oracle (judged by C03 to C08), printed statistics are judged as in C20");
    cx.assume("differences or residuals that vanish only up to rounding are not judged (known findings of C13 to C18)");
    cx.bound("81 judgment tables x 48 (256) pairs of rankings; all orders of 5 lines in each file; every odd id TREC can hold and 10 groups of ids that read alike; up to 1025 (4000) topics and 7 systems; every metric and ordered pair of metrics; 10 bad lines at 5 positions of 3 files; every missing topic");
}
