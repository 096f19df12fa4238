//! C19 (elinor-evaluate), C20 (elinor-compare) and C21 (faults while writing).
use crate::cli::{self, Scratch};
use crate::common::*;
use crate::piped::{pipes, Piped};
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::*;
use elinor::*;
use std::collections::{BTreeMap, BTreeSet};
use std::result::Result;

// ---------------------------------------------------------------- text formats

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// RFC 4180 reader: records end with LF or CRLF outside quotes.
pub fn read_csv(bytes: &[u8], sep: char) -> Result<Vec<Vec<String>>, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let mut rows = vec![];
    let mut row: Vec<String> = vec![];
    let mut it = s.chars().peekable();
    if s.is_empty() {
        return Ok(rows);
    }
    loop {
        let mut f = String::new();
        if it.peek() == Some(&'"') {
            it.next();
            loop {
                match it.next() {
                    None => return Err("unterminated quoted field".into()),
                    Some('"') if it.peek() == Some(&'"') => {
                        it.next();
                        f.push('"');
                    }
                    Some('"') => break,
                    Some(c) => f.push(c),
                }
            }
            if !matches!(it.peek(), None | Some('\n') | Some('\r')) && it.peek() != Some(&sep) {
                return Err("text after a quoted field".into());
            }
        } else {
            while let Some(&c) = it.peek() {
                if c == sep || c == '\n' {
                    break;
                }
                if c == '"' {
                    return Err("quote inside a bare field".into());
                }
                f.push(c);
                it.next();
            }
        }
        match it.next() {
            Some(c) if c == sep => row.push(f),
            Some('\r') => {
                if it.next() != Some('\n') {
                    return Err("bare carriage return".into());
                }
                row.push(f);
                rows.push(std::mem::take(&mut row));
            }
            Some('\n') | None => {
                if f.ends_with('\r') {
                    f.pop();
                }
                row.push(f);
                rows.push(std::mem::take(&mut row));
            }
            Some(c) => return Err(format!("unexpected {c:?}")),
        }
        if it.peek().is_none() {
            return Ok(rows);
        }
    }
}

fn csv_field(s: &str, sep: char, always: bool) -> String {
    if always || s.is_empty() || s.contains([sep, '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

pub fn four_decimals(t: &str, x: f64) -> bool {
    let b = t.strip_prefix('-').unwrap_or(t);
    let Some((i, d)) = b.split_once('.') else { return false };
    if i.is_empty() || d.len() != 4 || !i.bytes().chain(d.bytes()).all(|c| c.is_ascii_digit()) {
        return false;
    }
    let v: f64 = t.parse().unwrap();
    (v - x).abs() <= 0.5e-4 + 1e-9 * x.abs().max(1.0)
}

/// Identifiers that text formats are known to trip over.
pub fn odd_ids() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in [
        "", " ", "  ", "\t", "\n", "\r", "\r\n", "\"", "\"\"", "\"\"\"", "'", ",", ",,", ";", "|", "\\", "\\n", "/", "#", "#x", "//", "a b", " a", "a ", "a,b", "a\tb", "a\nb", "a\r\nb", "\na", "a\n", "a\"b", "\"a\"", "\"a", "a\"", "\",\"", "a\",\"b", "0", "00", "1", "01", "001", "1.0", "1.00", "+1",
        "-1", "-0", "1e0", "1E5", "0x1", "1_000", "1,000", "inf", "-inf", "nan", "NaN", "null", "NULL", "None", "NA", "N/A", "true", "false", "True", "2024-01-01", "12:30", "9007199254740993", "18446744073709551616", "99999999999999999999999999", "query_id", "ap", "é", "e\u{301}", "ß", "漢字", "😀",
        "\u{feff}", "\u{feff}a", "\u{a0}", "\u{200b}", "\u{7f}", "\u{1}", "\u{2028}", "=1+1", "@a", "*", "^a$", "a*", "[a]", "%", "$1", "\0",
    ] {
        v.push(s.to_string());
    }
    v.push("x".repeat(5000));
    v.push(format!("{}\"", "y,".repeat(3000)));
    v
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Default)]
struct Data {
    t: Vec<(String, String, u32)>,
    p: Vec<(String, String, f64)>,
}
impl Data {
    fn jsonl(&self) -> (String, String) {
        let mut a = String::new();
        for (q, d, s) in &self.t {
            a += &format!("{{\"query_id\":{},\"doc_id\":{},\"score\":{s}}}\n", jstr(q), jstr(d));
        }
        let mut b = String::new();
        for (q, d, s) in &self.p {
            b += &format!("{{\"query_id\":{},\"doc_id\":{},\"score\":{s:?}}}\n", jstr(q), jstr(d));
        }
        (a, b)
    }
    fn stores(&self) -> Option<(TrueRelStore<String>, PredRelStore<String>)> {
        let t = TrueRelStore::from_records(self.t.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: *s })).ok()?;
        let p = PredRelStore::from_records(self.p.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: PredScore::from(*s) })).ok()?;
        Some((t, p))
    }
    /// Three documents per query with varied grades and scores.
    fn standard(ids: &[String]) -> Data {
        let mut x = Data::default();
        for (i, q) in ids.iter().enumerate() {
            for d in 0..4 {
                let g = (i * 7 + d * 5 + i * d) % 4;
                if (i + d) % 5 != 4 {
                    x.t.push((q.clone(), format!("d{d}"), g as u32));
                }
                if (i * 3 + d) % 7 != 6 || d == 0 {
                    x.p.push((q.clone(), format!("d{d}"), ((i * 11 + d * 17) % 13) as f64 / 8.0));
                }
            }
        }
        x
    }
}

fn defaults() -> Vec<String> {
    let mut v = vec![];
    for k in [1, 5, 10] {
        v.push(format!("success@{k}"));
    }
    for m in ["recall", "precision", "ap"] {
        for k in [5, 10, 15, 20] {
            v.push(format!("{m}@{k}"));
        }
    }
    v.push("ap".into());
    v.push("rr".into());
    for k in [5, 10, 15, 20] {
        v.push(format!("ndcg@{k}"));
    }
    v
}

/// style: 0 `-m a b`, 1 `-m a -m b`, 2 `--metrics a b` before the files, 3 defaults
fn evaluate(x: &Data, metrics: &[String], csv: Option<bool>, style: u64, w: &mut W) {
    let sc = Scratch::new();
    let (a, b) = x.jsonl();
    let (tp, pp) = (sc.file("t.jsonl", a), sc.file("p.jsonl", b));
    let (tp, pp) = (tp.to_str().unwrap().to_string(), pp.to_str().unwrap().to_string());
    let out = sc.path("out.csv");
    // An older file may be there already.
    if csv.is_some() && x.stores().is_some_and(|(t, p)| elinor::evaluate(&t, &p, Metric::AP { k: 0 }).is_ok()) {
        match (x.t.len() + metrics.len()) % 3 {
            0 => drop(sc.file("out.csv", b"old,line\n".repeat(3000 + x.p.len() * 40))),
            1 => drop(sc.file("out.csv", "x")),
            _ => {}
        }
    }
    let mut args: Vec<String> = vec![];
    if style == 2 {
        args.push("--metrics".into());
        args.extend(metrics.iter().cloned());
    }
    args.extend(["-t".to_string(), tp, "-p".to_string(), pp]);
    if let Some(tab) = csv {
        args.extend(["-o".to_string(), out.to_str().unwrap().to_string()]);
        if tab {
            args.push("--tab-separator".into());
        }
    }
    match style {
        0 => {
            args.push("-m".into());
            args.extend(metrics.iter().cloned());
        }
        1 => {
            for m in metrics {
                args.push("-m".into());
                args.push(m.clone());
            }
        }
        _ => {}
    }
    w.op();
    let r = cli::run("elinor-evaluate", &args);
    let lib = x.stores().and_then(|(t, p)| {
        let mut v = vec![];
        for m in metrics {
            let m: Metric = m.parse().ok()?;
            let e = elinor::evaluate(&t, &p, m).ok()?;
            v.push((e.mean(), e.scores().clone()));
        }
        Some((t, p, v))
    });
    w.trace();
    w.outcome(&(r.ok, &r.out));
    let Some((_, _, vals)) = lib else {
        w.check(!r.ok, || "the library refuses the input, but the exit status is 0".to_string());
        w.check(!out.exists(), || "the library refuses the input, but the CSV file is written".to_string());
        w.check(!metrics.iter().any(|m| r.text().lines().any(|l| l.split('\t').next() == Some(m))), || format!("the library refuses the input, but scores are printed: {}", r.text()));
        return;
    };
    if !r.ok {
        w.fail("", format!("the library accepts the input, but the command fails with {}: {}", r.status, r.err.chars().take(400).collect::<String>()));
        return;
    }
    let qs: BTreeSet<&String> = x.t.iter().map(|r| &r.0).collect();
    let qp: BTreeSet<&String> = x.p.iter().map(|r| &r.0).collect();
    let head = [
        ("n_queries_in_true", qs.len()),
        ("n_queries_in_pred", qp.len()),
        ("n_docs_in_true", x.t.len()),
        ("n_docs_in_pred", x.p.len()),
        ("n_relevant_docs", x.t.iter().filter(|r| r.2 >= 1).count()),
    ];
    let text = r.text();
    let lines: Vec<&str> = text.lines().collect();
    w.check(lines.len() == head.len() + metrics.len(), || format!("{} lines printed, expected {}:\n{text}", lines.len(), head.len() + metrics.len()));
    for (l, (k, n)) in lines.iter().zip(head) {
        w.check(*l == format!("{k}\t{n}"), || format!("printed {l:?}, expected {k} {n}"));
    }
    for ((l, m), (mean, _)) in lines.iter().skip(head.len()).zip(metrics).zip(&vals) {
        let ok = matches!(l.split_once('\t'), Some((n, v)) if n == m && four_decimals(v, *mean));
        w.check(ok, || format!("printed {l:?}, expected {m} {mean:.4}"));
    }
    let Some(tab) = csv else { return };
    let bytes = std::fs::read(&out).unwrap_or_default();
    let rows = match read_csv(&bytes, if tab { '\t' } else { ',' }) {
        Ok(r) => r,
        Err(e) => {
            w.fail("", format!("the CSV file is malformed: {e}: {:?}", String::from_utf8_lossy(&bytes).chars().take(300).collect::<String>()));
            return;
        }
    };
    let mut want = vec!["query_id".to_string()];
    want.extend(metrics.iter().cloned());
    w.check(rows.first() == Some(&want), || format!("CSV header {:?}, expected {want:?}", rows.first()));
    let mut ids: Vec<&String> = qp.iter().copied().collect();
    ids.sort();
    let got: Vec<&String> = rows.iter().skip(1).filter_map(|r| r.first()).collect();
    w.check(got == ids, || format!("CSV rows for {:?}, expected {:?}", &got[..got.len().min(8)], &ids[..ids.len().min(8)]));
    if got != ids {
        return;
    }
    for r in rows.iter().skip(1) {
        w.check(r.len() == 1 + metrics.len(), || format!("CSV row {r:?} has the wrong length"));
        for (c, (m, (_, s))) in r.iter().skip(1).zip(metrics.iter().zip(&vals)) {
            let want = s[&r[0]];
            let ok = c.parse::<f64>().is_ok_and(|v| v == want || (v - want).abs() <= 4.0 * f64::EPSILON * want.abs());
            w.check(ok, || format!("CSV has {c} for {m} of {:?}, expected {want}", r[0]));
        }
    }
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn c19(cx: &mut Cx) {
    cx.rule = "state = a distinct command line with its input files; the real elinor-evaluate binary runs on each and its output is compared with the library's results".into();
    let th = cx.thorough;
    let ids = odd_ids();
    let ni = ids.len() as u64;
    let ids = &ids;
    let few = strs(&["ap", "ndcg@10", "precision@3", "dcg_burges", "rr@2"]);
    let few = &few;
    cx.family("each odd query id alone and with two neighbours", ni * 4, |i, w| {
        let mut r = Radix(i);
        let (tab, more) = (r.take(2) == 1, r.take(2) == 1);
        let id = &ids[r.0 as usize];
        let mut q = vec![id.clone()];
        if more {
            q.push(format!("{id}0"));
            q.push(format!("{}!", id.chars().take(1).collect::<String>()));
        }
        q.dedup();
        w.at(|| format!("query ids {q:?}, tab {tab}"));
        w.state(&(1, i));
        evaluate(&Data::standard(&q), few, Some(tab), 0, w);
        w.sample(|| format!("query ids {q:?}"));
    });
    cx.family("all pairs of odd ids, as query and as document ids", ni, |i, w| {
        // One run for the pairs of one id with all the others, in both orders.
        let mut q: Vec<String> = vec![];
        for b in ids {
            for s in [format!("{}{b}", ids[i as usize]), format!("{b}{}", ids[i as usize])] {
                if !q.contains(&s) {
                    q.push(s);
                }
            }
        }
        w.at(|| format!("query ids are {:?} before and after every odd id", ids[i as usize]));
        w.state(&(2, i));
        let mut x = Data::standard(&q);
        for (k, d) in q.iter().enumerate() {
            x.t.push((q[0].clone(), format!("{d}#"), (k % 3) as u32));
            x.p.push((q[0].clone(), format!("{d}#"), (k % 10) as f64));
        }
        evaluate(&x, few, Some(i % 2 == 0), 0, w);
    });
    // Every metric with several cutoffs alone; all ordered pairs; the default list; long lists.
    let names = ["hits", "success", "precision", "recall", "f1", "ap", "rr", "dcg", "ndcg", "dcg_burges", "ndcg_burges"];
    let mut all: Vec<String> = strs(&["r_precision", "bpref"]);
    for n in names {
        for k in ["", "@1", "@2", "@3", "@7", "@18446744073709551615"] {
            all.push(format!("{n}{k}"));
        }
    }
    let na = all.len() as u64;
    let all = &all;
    let base: Vec<String> = (0..7).map(|i| format!("q{}", (i * 5) % 7)).collect();
    let base = &base;
    cx.family("every list of one or two metrics", na + na * na, |i, w| {
        let ms = if i < na { vec![all[i as usize].clone()] } else { vec![all[((i - na) / na) as usize].clone(), all[((i - na) % na) as usize].clone()] };
        // Two columns of one name cannot be saved; then only the printed lines are compared.
        let csv = (ms.len() < 2 || ms[0] != ms[1]).then_some(i % 2 == 0);
        w.at(|| format!("metrics {ms:?}, csv {csv:?}"));
        w.state(&(3, i));
        evaluate(&Data::standard(base), &ms, csv, i % 3, w);
    });
    let lists: Vec<Vec<String>> = vec![defaults(), all.clone(), all.iter().rev().cloned().collect()];
    let lists = &lists;
    cx.family("default list and long lists", 5 * 3 * 3, |i, w| {
        let mut r = Radix(i);
        let l = r.take(5) as usize;
        let csv = [None, Some(false), Some(true)][r.take(3) as usize];
        let n = [1, 7, 40][r.take(3) as usize];
        let q: Vec<String> = (0..n).map(|i| format!("q{}", (i * 3) % n)).collect();
        w.at(|| format!("list {l}, csv {csv:?}, {n} queries"));
        w.state(&(4, i));
        let (m, style) = match l {
            0 => (&lists[0], 3),
            1 => (&lists[0], 0),
            2 => (&lists[1], 1),
            3 => (&lists[1], 2),
            _ => (&lists[2], 0),
        };
        let q: BTreeSet<String> = q.into_iter().collect();
        evaluate(&Data::standard(&q.into_iter().rev().collect::<Vec<_>>()), m, csv, style, w);
    });
    // All small data: two queries, two documents; grade absent/0/1/2 and score absent/low/high for each pair.
    let n_small = if th { 12_u64.pow(4) } else { 12_u64.pow(3) * 3 };
    cx.family("all small judgments and rankings", n_small, |i, w| {
        let mut r = Radix(i);
        let mut x = Data::default();
        for (q, d) in [("b", "x"), ("a", "x"), ("b", "y"), ("a", "y")] {
            let g = r.take(if q == "a" && d == "y" && !th { 1 } else { 4 });
            let s = r.take(3);
            if g > 0 {
                x.t.push((q.into(), d.into(), g as u32 - 1));
            }
            if s > 0 {
                x.p.push((q.into(), d.into(), s as f64 * 0.5 - 0.75));
            }
        }
        w.at(|| format!("judgments {:?}, ranking {:?}", x.t, x.p));
        w.state(&(5, i));
        if x.p.is_empty() {
            return; // evaluation of no query at all is not specified
        }
        evaluate(&x, few, Some(i % 2 == 0), 0, w);
    });
    // Numbers of rows around the sizes at which writers split their work.
    let sizes: Vec<usize> = if th { vec![1, 2, 63, 64, 65, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 10000, 20000] } else { vec![1, 2, 64, 100, 128, 1000, 1023, 1024, 1025, 2048, 2049, 5000] };
    let sizes = &sizes;
    cx.family("many queries", sizes.len() as u64, |i, w| {
        let n = sizes[i as usize];
        w.at(|| format!("{n} queries"));
        w.state(&(6, i));
        let q: Vec<String> = (0..n).map(|j| if j % 50 == 7 { format!("{j}\n\"{}\"", j * 7) } else { format!("{}", (j * 7919) % n) }).collect::<BTreeSet<_>>().into_iter().collect();
        let mut q2 = q.clone();
        q2.reverse();
        evaluate(&Data::standard(&q2), few, Some(i % 2 == 0), 0, w);
    });
    // Counts around the limits of narrow integers: queries, judgments of one query, documents of one ranking.
    let sizes: Vec<usize> = if th { vec![2_097_153, 1_048_577, 140000, 70000, 65537, 65536, 65535, 32768, 32767, 257, 256, 255] } else { vec![1_048_577, 256, 257, 65536, 65537] };
    let sizes = &sizes;
    cx.family("counts around powers of two", sizes.len() as u64 * 3, |i, w| {
        let n = sizes[i as usize / 3];
        if n > 1 << 20 && i % 3 == 0 {
            // A million queries take a minute.
            return;
        }
        let mut x = Data::default();
        for j in 0..n {
            match i % 3 {
                0 => {
                    // queries, each with a judgment and a document
                    x.t.push((format!("q{j}"), "d".into(), (j % 3) as u32));
                    x.p.push((format!("q{j}"), ["d", "e"][j % 2].into(), 1.5));
                }
                1 => x.t.push(("q".into(), format!("d{j}"), (j % 2) as u32)),
                _ => x.p.push(("q".into(), format!("d{j}"), (j % 1000) as f64)),
            }
        }
        if i % 3 > 0 {
            x.t.push(("q".into(), "x".into(), 2));
            x.p.push(("q".into(), "d7".into(), 0.5));
            x.p.retain({
                let mut s = BTreeSet::new();
                move |r| s.insert(r.1.clone())
            });
        }
        w.at(|| format!("{n} {}", ["queries", "judgments", "documents"][i as usize % 3]));
        w.state(&("counts", i));
        evaluate(&x, few, Some(false), 0, w);
    });
    // Names and places of the files, and the surroundings of the process.
    let nms = cli::odd_names();
    let nms = &nms;
    let plain = |x: &Data, tab: bool, ms: &[String], w: &mut W| -> (Vec<u8>, Vec<u8>) {
        let sc = Scratch::new();
        let (a, b) = x.jsonl();
        let (tp, pp, o) = (sc.file("t.jsonl", a), sc.file("p.jsonl", b), sc.path("o.csv"));
        let mut args = strs(&["-t", tp.to_str().unwrap(), "-p", pp.to_str().unwrap(), "-o", o.to_str().unwrap(), "-m"]);
        args.extend(ms.iter().cloned());
        if tab {
            args.push("--tab-separator".into());
        }
        let r = cli::run("elinor-evaluate", &args);
        w.check(r.ok, || r.err.clone());
        (r.out, std::fs::read(&o).unwrap_or_default())
    };
    let plain = &plain;
    cx.family("file names and places", nms.len() as u64 * cli::PLACES * 3, |i, w| {
        let mut r = Radix(i);
        let (odd, how, n) = (r.take(3) as usize, r.take(cli::PLACES), r.pick(nms));
        let tab = i % 2 == 1;
        let x = Data::standard(&strs(&["q1", "q,2", "q3"]));
        w.at(|| format!("{:?} as the {} file, place {how}", String::from_utf8_lossy(n), ["judgment", "ranking", "output"][odd]));
        w.state(&("place", i));
        let (out, csv) = plain(&x, tab, few, w);
        let sc = Scratch::new();
        let (a, b) = x.jsonl();
        let nm = |k: usize| -> &[u8] { if k == odd { n } else { [&b"t.in"[..], b"p.in", b"o.out"][k] } };
        let (Some(tp), Some(pp), Some(op)) = (cli::place(&sc, nm(0), how), cli::place(&sc, nm(1), how), cli::place(&sc, nm(2), how)) else { return };
        std::fs::write(&tp.1, a).expect("scratch file");
        std::fs::write(&pp.1, b).expect("scratch file");
        let mut args: Vec<std::ffi::OsString> = vec!["-t".into(), tp.0, "-p".into(), pp.0, "-o".into(), op.0];
        if tab {
            args.push("--tab-separator".into());
        }
        args.push("-m".into());
        args.extend(few.iter().map(|m| m.into()));
        w.op();
        let r = cli::run_in(&sc, "elinor-evaluate", [1, 4][i as usize % 2], cli::SURROUNDINGS[i as usize % cli::SURROUNDINGS.len()], &args);
        w.trace();
        w.check(r.ok, || format!("fails with {}: {}", r.status, r.err.chars().take(300).collect::<String>()));
        w.check(r.out == out, || format!("prints {:?}, but with plain names {:?}", r.text(), String::from_utf8_lossy(&out)));
        let got = std::fs::read(&op.1).unwrap_or_default();
        w.check(got == csv, || format!("writes {:?}, but with plain names {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&csv)));
    });
    cx.family("numbers of threads", 6 * 12, |i, w| {
        let mut r = Radix(i);
        let (threads, env) = ([0, 1, 2, 3, 8, 16][r.take(6) as usize], r.take(12) as usize);
        let n = 1500;
        let q: Vec<String> = (0..n).map(|j| format!("{}", (j * 7919) % n)).collect();
        let x = Data::standard(&q);
        w.at(|| format!("{n} queries, {threads} threads (0: not limited), surroundings {:?}", cli::SURROUNDINGS[env]));
        w.state(&("threads", i));
        let (out, csv) = plain(&x, false, few, w);
        let sc = Scratch::new();
        let (a, b) = x.jsonl();
        sc.file("t", a);
        sc.file("p", b);
        let mut args = strs(&["-t", "t", "-p", "p", "-o", "o", "-m"]);
        args.extend(few.iter().cloned());
        w.op();
        let r = cli::run_in(&sc, "elinor-evaluate", threads, cli::SURROUNDINGS[env], &args);
        w.trace();
        w.check(r.ok && r.out == out, || format!("prints something else than with one thread ({})", r.status));
        w.check(std::fs::read(sc.path("o")).unwrap_or_default() == csv, || "writes something else than with one thread".to_string());
    });
    // Scores of many magnitudes: ranking by value.
    let sv = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e300, -1e300, 5e-324, 1e21, 123456789.0, 0.1, 2.0];
    cx.family("all pairs and triples of scores", (sv.len() as u64).pow(3), |i, w| {
        let c = Radix(i).vec(sv.len() as u64, 3);
        let mut x = Data::default();
        for (d, &k) in c.iter().enumerate() {
            x.p.push(("q".into(), format!("d{d}"), sv[k as usize]));
        }
        x.t = vec![("q".into(), "d0".into(), 1), ("q".into(), "d1".into(), 3), ("z".into(), "d2".into(), 1)];
        w.at(|| format!("scores {:?}", x.p));
        w.state(&(7, i));
        evaluate(&x, few, Some(false), 0, w);
    });
    // Refusals: every truncation of a file, every kind of bad line at every position, bad arguments.
    let rec = |q: &str, d: &str, s: &str| format!("{{\"query_id\":\"{q}\",\"doc_id\":\"{d}\",\"score\":{s}}}");
    let tl: Vec<String> = vec![rec("q1", "a", "1"), rec("q1", "b", "0"), rec("q2", "a", "2")];
    let pl: Vec<String> = vec![rec("q1", "b", "0.5"), rec("q2", "a", "1"), rec("q1", "a", "0.25")];
    let bad_any: Vec<String> = vec![
        "".into(), " ".into(), "{}".into(), "null".into(), "[]".into(), "x".into(), "\u{feff}{}".into(),
        "{\"query_id\":\"q9\",\"doc_id\":\"a\"}".into(), "{\"query_id\":\"q9\",\"score\":1}".into(), "{\"doc_id\":\"a\",\"score\":1}".into(),
        rec("q9", "a", "\"1\""), rec("q9", "a", "null"), rec("q9", "a", "NaN"), rec("q9", "a", ""), rec("q9", "a", "1e999"), rec("q9", "a", "true"),
        "{\"query_id\":9,\"doc_id\":\"a\",\"score\":1}".into(), "{\"query_id\":\"q9\",\"doc_id\":null,\"score\":1}".into(),
        format!("{} {}", rec("q9", "a", "1"), rec("q9", "b", "1")), format!("{},", rec("q9", "a", "1")), rec("q9", "a", "1").replace('"', "'"), rec("q9\\", "a", "1"), rec("q9\\x", "a", "1"), rec("q9\t", "a", "1"),
    ];
    let bad_true: Vec<String> = vec![rec("q9", "a", "-1"), rec("q9", "a", "1.0"), rec("q9", "a", "1.5"), rec("q9", "a", "4294967296"), rec("q9", "a", "1e0")];
    let (tl, pl, bad_any, bad_true) = (&tl, &pl, &bad_any, &bad_true);
    let raw = |t: &[u8], p: &[u8], refuse: bool, w: &mut W| {
        let sc = Scratch::new();
        let (tp, pp) = (sc.file("t", t), sc.file("p", p));
        let out = sc.path("o.csv");
        w.op();
        let r = cli::run("elinor-evaluate", &["-t", tp.to_str().unwrap(), "-p", pp.to_str().unwrap(), "-o", out.to_str().unwrap(), "-m", "ap", "rr"]);
        w.trace();
        w.outcome(&(r.ok, &r.status));
        if refuse {
            w.check(!r.ok, || format!("exit status 0 on a malformed file; printed {:?}", r.text()));
            w.check(!out.exists(), || "the CSV file is written although the input is refused".to_string());
            w.check(!r.text().contains("ap\t"), || format!("scores are printed although the input is refused: {}", r.text()));
        } else {
            w.check(r.ok && out.exists(), || format!("refused although the input is well-formed ({}): {}", r.status, r.err.chars().take(300).collect::<String>()));
        }
    };
    let nb = bad_any.len() + bad_true.len();
    cx.family("every bad line at every position", (nb * 2 * 4) as u64, |i, w| {
        let mut r = Radix(i);
        let in_true = r.take(2) == 0;
        let at = r.take(4) as usize;
        let b = r.0 as usize;
        let (mut t, mut p) = (tl.clone(), pl.clone());
        let only_true = b >= bad_any.len();
        let line = if only_true { &bad_true[b - bad_any.len()] } else { &bad_any[b] };
        // A judgment for the extra query keeps the rest acceptable.
        if in_true {
            t.insert(at, line.clone());
        } else {
            t.push(rec("q9", "a", "1"));
            p.insert(at, line.clone());
        }
        let f = |v: &[String]| v.iter().map(|l| format!("{l}\n")).collect::<String>();
        let mut refuse = in_true || !only_true;
        // An added last line that is empty is no line with content... but still a line.
        if line.is_empty() && at == 3 && f(&t).is_empty() {
            refuse = false;
        }
        w.at(|| format!("line {line:?} at {at} of the {} file", if in_true { "true" } else { "pred" }));
        w.state(&(8, i));
        raw(f(&t).as_bytes(), f(&p).as_bytes(), refuse, w);
    });
    let tfull: String = tl.iter().map(|l| format!("{l}\n")).collect();
    let pfull: String = pl.iter().map(|l| format!("{l}\n")).collect();
    let (tfull, pfull) = (&tfull, &pfull);
    cx.family("every truncation of the input files", (tfull.len() + pfull.len() + 2) as u64, |i, w| {
        let i = i as usize;
        let (t, p, cut, src) = if i <= tfull.len() { (&tfull[..i], &pfull[..], i, tfull) } else { (&tfull[..], &pfull[..i - tfull.len() - 1], i - tfull.len() - 1, pfull) };
        w.at(|| format!("{} bytes of {src:?}", cut));
        w.state(&(9, i));
        let whole = cut == 0 || src.as_bytes()[cut - 1] == b'\n' || (cut < src.len() && src.as_bytes()[cut] == b'\n');
        // Cutting whole judgments away can leave a ranked query without any.
        let missing = i <= tfull.len() && !t.contains("q2");
        if p.is_empty() {
            return;
        }
        raw(t.as_bytes(), p.as_bytes(), !whole || missing, w);
    });
    let dup_cases = 6 * 6;
    cx.family("repeated pairs", dup_cases, |i, w| {
        let mut r = Radix(i);
        let (from, to) = (r.take(6) as usize, r.take(6) as usize);
        let (mut t, mut p) = (tl.clone(), pl.clone());
        let line = if from < 3 { tl[from].clone() } else { pl[from - 3].clone() };
        let is_t = from < 3;
        // The repeated pair may carry another score.
        let line = if to % 2 == 0 { line } else { line.replace("\"score\":", "\"score\":1") };
        if is_t {
            t.insert(to % 4, line.clone());
        } else {
            p.insert(to % 4, line.clone());
        }
        w.at(|| format!("{line} inserted at {} again", to % 4));
        w.state(&(10, i));
        raw((t.join("\n") + "\n").as_bytes(), (p.join("\n") + "\n").as_bytes(), true, w);
    });
    let shapes = ["crlf", "noend", "spaces", "order", "extra", "unicode-escape", "bytes"];
    cx.family("other layouts of the same records", shapes.len() as u64, |i, w| {
        let s = shapes[i as usize];
        w.at(|| s.to_string());
        w.state(&(11, i));
        let lay = |v: &[String]| -> Vec<u8> {
            match s {
                "crlf" => v.iter().map(|l| format!("{l}\r\n")).collect::<String>().into_bytes(),
                "noend" => v.join("\n").into_bytes(),
                "spaces" => v.iter().map(|l| format!("  {} \n", l.replace(':', " : ").replace(',', " ,\t"))).collect::<String>().into_bytes(),
                "order" => v
                    .iter()
                    .map(|l| {
                        let b = l.trim_matches(['{', '}']);
                        let mut f: Vec<&str> = b.split(',').collect();
                        f.reverse();
                        format!("{{{}}}\n", f.join(","))
                    })
                    .collect::<String>()
                    .into_bytes(),
                "extra" => v.iter().map(|l| format!("{}\n", l.replace("\"score\"", "\"note\":[1,{\"a\":\"}\"}],\"score\""))).collect::<String>().into_bytes(),
                "unicode-escape" => v.iter().map(|l| format!("{}\n", l.replace("\"q1\"", "\"\\u0071\\u0031\""))).collect::<String>().into_bytes(),
                _ => {
                    let mut b = v.join("\n").into_bytes();
                    b.extend(b"\n{\"query_id\":\"q\xff\",\"doc_id\":\"a\",\"score\":1}\n");
                    b
                }
            }
        };
        raw(&lay(tl), &lay(pl), s == "bytes", w);
    });
    let badm = ["", "AP", "ap@", "ap@-1", "ap@1.5", "ap @1", "ap@1x", "apx", "ndcg@18446744073709551616", "map", "ap,rr", "é"];
    cx.family("refused metrics and arguments", badm.len() as u64 * 3 + 6, |i, w| {
        let sc = Scratch::new();
        let x = Data::standard(base);
        let (a, b) = x.jsonl();
        let (tp, pp) = (sc.file("t", a), sc.file("p", b));
        let (tp, pp) = (tp.to_str().unwrap().to_string(), pp.to_str().unwrap().to_string());
        let out = sc.path("o.csv");
        let o = out.to_str().unwrap().to_string();
        let d = sc.0.to_str().unwrap().to_string();
        let mut args: Vec<String> = vec!["-t".into(), tp.clone(), "-p".into(), pp.clone(), "-o".into(), o.clone()];
        if (i as usize) < badm.len() * 3 {
            let b = badm[i as usize / 3].to_string();
            args.push("-m".into());
            match i % 3 {
                0 => args.push(b),
                1 => args.extend(["ap".to_string(), b]),
                _ => args.extend([b, "ap".to_string()]),
            }
        } else {
            let j = i as usize - badm.len() * 3;
            args = match j {
                0 => vec!["-t".into(), format!("{d}/none"), "-p".into(), pp, "-o".into(), o],
                1 => vec!["-t".into(), tp, "-p".into(), format!("{d}/none"), "-o".into(), o],
                2 => vec!["-t".into(), d.clone(), "-p".into(), pp, "-o".into(), o],
                3 => vec!["-t".into(), tp, "-o".into(), o],
                4 => vec!["-p".into(), pp, "-o".into(), o],
                _ => vec!["-t".into(), tp, "-p".into(), pp, "-o".into(), format!("{d}/no/such")],
            };
        }
        w.at(|| format!("{args:?}"));
        w.state(&(12, i));
        w.op();
        let r = cli::run("elinor-evaluate", &args);
        w.trace();
        w.check(!r.ok, || format!("exit status 0; printed {}", r.text()));
        w.check(!out.exists(), || "the CSV file is written".to_string());
    });
    let x = Data { t: vec![("qé".into(), "漢".into(), 2), ("qé".into(), "d\n".into(), 0), ("q\"".into(), "a".into(), 1)], p: vec![("qé".into(), "d\n".into(), 1.5), ("qé".into(), "漢".into(), 0.25), ("q\"".into(), "😀".into(), 3.0), ("q\"".into(), "a".into(), 3.0)] };
    let (a, b) = x.jsonl();
    let mut ps: Vec<Piped> = [&["-m", "ap", "ndcg@2"][..], &["--tab-separator", "-m", "dcg"]].iter().map(|m| Piped { bin: "elinor-evaluate", files: vec![("t", a.clone()), ("p", b.clone())], args: strs(&["-t", "@/t", "-p", "@/p", "-o", "%out"]).into_iter().chain(strs(m)).collect() }).collect();
    // A long file, a bad line, nothing.
    let (long, _) = Data::standard(&(0..if th { 40 } else { 8 }).map(|j| format!("q{j}")).collect::<Vec<_>>()).jsonl();
    for t in [long, a.replacen("2}", "x}", 1), String::new()] {
        ps.push(Piped { bin: "elinor-evaluate", files: vec![("t", t), ("p", b.clone().replace("qé", "q0").replace("q\\\"", "q1"))], args: strs(&["-t", "@/t", "-p", "@/p", "-o", "%out", "-m", "ap"]) });
    }
    pipes(cx, "inputs out of pipes, cut everywhere, outputs into pipes", &ps);
    cx.assume("queries judged but not ranked and vice versa as in C08; an input without any ranked query is not specified and not run");
    cx.bound("93 odd ids alone and all their pairs, comma and tab; all lists of one or two of 68 metrics, the default list; all judgments and rankings of two queries and two documents over 3 grades and 2 scores; up to 5000 (20000) queries; counts around 256 and 65536 (140000) of queries, judgments and documents; 64 file names in 7 places for each file, 12 surroundings, 1 to 16 threads; every truncation of both files, 29 bad lines at each position, every repeated pair");
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug)]
pub struct Sys {
    pub ids: Vec<String>,
    pub cols: Vec<String>,
    pub rows: Vec<Vec<f64>>, // [topic][column]
}
impl Sys {
    pub fn new(ids: &[String], cols: &[&str], f: impl Fn(usize, usize) -> f64) -> Sys {
        Sys { ids: ids.to_vec(), cols: strs(cols), rows: (0..ids.len()).map(|i| (0..cols.len()).map(|j| f(i, j)).collect()).collect() }
    }
    pub fn permuted(&self, p: &[usize]) -> Sys {
        Sys { ids: p.iter().map(|&i| self.ids[i].clone()).collect(), cols: self.cols.clone(), rows: p.iter().map(|&i| self.rows[i].clone()).collect() }
    }
    pub fn columns(&self, c: &[usize]) -> Sys {
        Sys { ids: self.ids.clone(), cols: c.iter().map(|&j| self.cols[j].clone()).collect(), rows: self.rows.iter().map(|r| c.iter().map(|&j| r[j]).collect()).collect() }
    }
    /// style 0: quotes where needed, 1: always, 2: CRLF, 3: no final newline
    fn csv(&self, head: &str, sep: char, style: u64, whole: bool) -> String {
        let always = style == 1;
        let nl = if style == 2 { "\r\n" } else { "\n" };
        let mut s = csv_field(head, sep, always);
        for c in &self.cols {
            s.push(sep);
            s += &csv_field(c, sep, always);
        }
        s += nl;
        for (id, r) in self.ids.iter().zip(&self.rows) {
            s += &csv_field(id, sep, always);
            for v in r {
                s.push(sep);
                s += &if whole && v.fract() == 0.0 { format!("{v}") } else { format!("{v:?}") };
            }
            s += nl;
        }
        if style == 3 {
            s.truncate(s.len() - 1);
        }
        s
    }
    fn by_id(&self, col: &str) -> BTreeMap<&String, f64> {
        let j = self.cols.iter().position(|c| c == col).unwrap();
        self.ids.iter().zip(self.rows.iter().map(|r| r[j])).collect()
    }
}

#[derive(Clone, Debug)]
pub enum Cell {
    S(String),
    F(f64),
    Empty,
    /// A p-value over n repetitions whose expectation is near the given one.
    P((f64, f64), usize),
}

#[derive(Clone, Debug)]
pub struct Section {
    pub keyword: Vec<String>,
    pub rows: Vec<Vec<Cell>>, // the first is the header
}

fn s(x: &str) -> Cell {
    Cell::S(x.to_string())
}

/// Reference proportions of randomised p-values: own resampling, with and without ties
/// (a tie up to rounding may be decided either way).
const REF_REPS: usize = 4000;

fn boot_band(pairs: &[(f64, f64)]) -> (f64, f64) {
    let d: Vec<f64> = pairs.iter().map(|(a, b)| a - b).collect();
    let n = d.len();
    let t_of = |v: &[f64]| -> f64 {
        let (m, ss) = crate::stats_ref::mean_ss(v);
        let scale = v.iter().fold(1e-300_f64, |a, x| a.max(x.abs()));
        if ss <= 1e-22 * scale * scale {
            return -1.0;
        }
        m.abs() / (ss / (n as f64 - 1.0) / n as f64).sqrt()
    };
    let (mean, _) = crate::stats_ref::mean_ss(&d);
    let t0 = t_of(&d).max(0.0);
    let y: Vec<f64> = d.iter().map(|x| x - mean).collect();
    let mut g = Lcg(7);
    let (mut lo, mut hi, mut flat) = (0, 0, 0);
    let mut v = vec![0.0; n];
    for _ in 0..REF_REPS {
        for x in v.iter_mut() {
            *x = y[g.below(n as u64) as usize];
        }
        let t = t_of(&v);
        // A resample without variance may count or not only when the observed statistic is zero.
        let tie = 1e-7 * t0 + 1e-7;
        lo += (t > t0 + tie) as usize;
        hi += (t >= t0 - tie) as usize;
        flat += (t < 0.0 && t < t0 - tie) as usize;
    }
    let r = |c: usize| c as f64 / REF_REPS as f64;
    let mut top = r(hi);
    // Whether a resample without variance is seen as such depends on rounding (property C14);
    // here the command only has to print what the library gives.
    if r(flat) > 0.001 {
        let lib = BootstrapTester::new().with_n_resamples(1000).with_random_state(1).test(pairs.iter().copied());
        if lib.is_ok_and(|t| t.p_value() > top + 0.3 * r(flat)) {
            top += r(flat);
        }
    }
    (r(lo), top)
}

fn tukey_band(x: &[Vec<f64>]) -> Vec<Vec<(f64, f64)>> {
    let (n, m) = (x.len(), x[0].len());
    let sum = |x: &[Vec<f64>]| -> Vec<f64> { (0..m).map(|j| x.iter().map(|t| t[j]).sum::<f64>() / n as f64).collect() };
    let s0 = sum(x);
    let scale = x.iter().flatten().fold(0.0_f64, |a, v| a.max(v.abs()));
    let mut c = vec![vec![(0.0, 0.0); m]; m];
    let mut g = Lcg(11);
    let mut y = x.to_vec();
    for _ in 0..REF_REPS {
        for t in y.iter_mut() {
            for i in (1..m).rev() {
                t.swap(i, g.below(i as u64 + 1) as usize);
            }
        }
        let s = sum(&y);
        let q = s.iter().fold(f64::MIN, |a, v| a.max(*v)) - s.iter().fold(f64::MAX, |a, v| a.min(*v));
        for i in 0..m {
            for j in 0..m {
                let d = (s0[i] - s0[j]).abs();
                c[i][j].0 += (q > d + 1e-9 * scale) as u32 as f64 / REF_REPS as f64;
                c[i][j].1 += (q >= d - 1e-9 * scale) as u32 as f64 / REF_REPS as f64;
            }
        }
    }
    c
}

fn common_metrics(fs: &[Sys]) -> Vec<String> {
    fs[0].cols.iter().filter(|c| fs.iter().all(|f| f.cols.contains(c))).cloned().collect()
}

/// None: the library refuses (or a pairing is impossible), so the command must fail.
/// Some(None): not specified (numerically degenerate data).
pub fn expected(fs: &[Sys], paths: &[String], nres: usize, niter: usize) -> Option<Option<Vec<Section>>> {
    let mut v = vec![];
    let sec = |k: &[&str], head: &[&str]| Section { keyword: k.iter().map(|x| x.to_string()).collect(), rows: vec![head.iter().map(|h| s(h)).collect()] };
    let mut b = sec(&["Basic statistics"], &["Key", "Value"]);
    for (k, n) in [("n_systems", fs.len()), ("n_topics", fs[0].ids.len()), ("n_metrics", fs[0].cols.len())] {
        b.rows.push(vec![s(k), Cell::S(n.to_string())]);
    }
    v.push(b);
    let mean = |f: &Sys, c: &str| {
        let m = f.by_id(c);
        crate::stats_ref::mean_ss(&m.values().copied().collect::<Vec<_>>()).0
    };
    if fs.len() == 1 {
        let mut m = sec(&["Means"], &["Metric", "Score"]);
        for c in &fs[0].cols {
            m.rows.push(vec![s(c), Cell::F(mean(&fs[0], c))]);
        }
        v.push(m);
        return Some(Some(v));
    }
    let mut a = sec(&["Alias"], &["Alias", "Path"]);
    for (i, p) in paths.iter().enumerate() {
        a.rows.push(vec![Cell::S(format!("System_{}", i + 1)), s(p)]);
    }
    v.push(a);
    let ms = common_metrics(fs);
    if ms.is_empty() {
        return None;
    }
    let names: Vec<String> = (1..=fs.len()).map(|i| format!("System_{i}")).collect();
    if fs.len() == 2 {
        let mut m = sec(&["Means"], &["Metric", "System_1", "System_2"]);
        let mut t = sec(&["t-test", "System_1 - System_2"], &["Metric", "Mean", "Var", "ES", "t-stat", "p-value", "95% MOE"]);
        let mut bo = sec(&["Bootstrap", &format!("= {nres})")], &["Metric", "p-value"]);
        let mut fi = sec(&["Fisher", &format!("= {niter})")], &["Metric", "p-value"]);
        for c in &ms {
            m.rows.push(vec![s(c), Cell::F(mean(&fs[0], c)), Cell::F(mean(&fs[1], c))]);
            let (x, y) = (fs[0].by_id(c), fs[1].by_id(c));
            let pairs: Vec<(f64, f64)> = x.iter().map(|(k, a)| (*a, y[k])).collect();
            let d: Vec<f64> = pairs.iter().map(|(a, b)| a - b).collect();
            let (_, ss) = crate::stats_ref::mean_ss(&d);
            let scale = pairs.iter().fold(0.0_f64, |m, p| m.max(p.0.abs()).max(p.1.abs()));
            if d.iter().all(|e| *e == d[0]) && (d[0] * 1024.0).fract() == 0.0 || d.len() < 2 {
                return None; // exactly equal differences
            }
            if ss <= 1e-20 * scale * scale {
                return Some(None);
            }
            let st = StudentTTest::from_paired_samples(pairs.clone()).ok()?;
            let moe = st.margin_of_error(0.05).ok()?;
            t.rows.push(vec![s(c), Cell::F(st.mean()), Cell::F(st.variance()), Cell::F(st.effect_size()), Cell::F(st.t_stat()), Cell::F(st.p_value()), Cell::F(moe)]);
            let bp = boot_band(&pairs);
            bo.rows.push(vec![s(c), Cell::P(bp, nres.max(1))]);
            let fp = tukey_band(&pairs.iter().map(|p| vec![p.0, p.1]).collect::<Vec<_>>())[0][1];
            fi.rows.push(vec![s(c), Cell::P(fp, niter.max(1))]);
        }
        v.extend([m, t, bo, fi]);
        return Some(Some(v));
    }
    for c in &ms {
        let maps: Vec<BTreeMap<&String, f64>> = fs.iter().map(|f| f.by_id(c)).collect();
        let x: Vec<Vec<f64>> = maps[0].keys().map(|k| maps.iter().map(|m| m[k]).collect()).collect();
        let (n, m) = (x.len(), fs.len());
        if n < 2 {
            return None;
        }
        let r = crate::p_anova::reference(&x);
        if crate::p_anova::residual(&x, &r) != crate::p_anova::Residual::Some {
            return Some(None);
        }
        let a = TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), m).ok()?;
        let moe = a.margin_of_error(0.05).ok()?;
        v.push(Section { keyword: vec![c.clone()], rows: vec![] });
        let mut sm = sec(&["System means"], &["System", "Mean", "95% MOE"]);
        for (i, y) in a.system_means().iter().enumerate() {
            sm.rows.push(vec![s(&names[i]), Cell::F(*y), Cell::F(moe)]);
        }
        let mut an = sec(&["ANOVA"], &["Factor", "Variation", "DF", "Variance", "F-stat", "p-value"]);
        let df = |x: usize| Cell::S(x.to_string());
        an.rows.push(vec![s("Between-systems"), Cell::F(a.between_system_variation()), df(m - 1), Cell::F(a.between_system_variance()), Cell::F(a.between_system_f_stat()), Cell::F(a.between_system_p_value())]);
        an.rows.push(vec![s("Between-topics"), Cell::F(a.between_topic_variation()), df(n - 1), Cell::F(a.between_topic_variance()), Cell::F(a.between_topic_f_stat()), Cell::F(a.between_topic_p_value())]);
        an.rows.push(vec![s("Residual"), Cell::F(a.residual_variation()), df((n - 1) * (m - 1)), Cell::F(a.residual_variance()), Cell::Empty, Cell::Empty]);
        let h = TukeyHsdTest::from_tupled_samples(x.iter(), m).ok()?;
        let e = h.effect_sizes();
        let pv = tukey_band(&x);
        let mut heads = vec!["ES"];
        heads.extend(names.iter().map(|n| n.as_str()));
        let mut es = sec(&["Effect sizes"], &heads);
        heads[0] = "p-value";
        let mut pp = sec(&["p-values", &format!("= {niter})")], &heads);
        for i in 0..m {
            es.rows.push(std::iter::once(s(&names[i])).chain((0..m).map(|j| Cell::F(e[i][j]))).collect());
            pp.rows.push(std::iter::once(s(&names[i])).chain((0..m).map(|j| if i == j { Cell::F(1.0) } else { Cell::P(pv[i][j], niter.max(1)) })).collect());
        }
        v.extend([sm, an, es, pp]);
    }
    Some(Some(v))
}

/// Splits what the command prints into titled tables of trimmed cells.
pub fn read_output(text: &str, pretty: bool) -> Vec<(String, Vec<Vec<String>>)> {
    let mut v: Vec<(String, Vec<Vec<String>>)> = vec![];
    for l in text.lines() {
        if l.starts_with('#') {
            v.push((l.to_string(), vec![]));
        } else if l.trim().is_empty() && !pretty && !l.contains('\t') {
            continue;
        } else if pretty {
            if l.starts_with('|') {
                let cells: Vec<&str> = l.split('|').collect();
                let row = cells[1..cells.len() - 1].iter().map(|c| c.trim().to_string()).collect();
                if let Some(t) = v.last_mut() {
                    t.1.push(row);
                }
            }
        } else {
            let row = l.split('\t').map(|c| c.trim().to_string()).collect();
            if let Some(t) = v.last_mut() {
                t.1.push(row);
            }
        }
    }
    v
}

pub fn cell_ok(got: &str, want: &Cell) -> bool {
    match want {
        Cell::S(x) => got == x.trim(),
        Cell::Empty => got.is_empty(),
        Cell::F(x) => four_decimals(got, *x),
        Cell::P(p, n) => {
            let Ok(g) = got.parse::<f64>() else { return false };
            let nf = *n as f64;
            // A multiple of 1/n, to four decimals, within eight standard deviations of the reference.
            let near = (g * nf - (g * nf).round()).abs() / nf <= 0.5e-4 + 1e-9;
            let slack = |p: f64| {
                let c = p.clamp(0.002, 0.998);
                8.0 * (c * (1.0 - c) * (1.0 / nf + 1.0 / REF_REPS as f64)).sqrt() + 1.0 / nf
            };
            four_decimals(got, g) && (0.0..=1.0).contains(&g) && near && g >= p.0 - slack(p.0) && g <= p.1 + slack(p.1)
        }
    }
}

struct How {
    sep: char,
    style: u64,
    pretty: bool,
    nres: Option<usize>,
    niter: Option<usize>,
    whole: bool,
    head: &'static str,
    threads: usize,
}
impl Default for How {
    fn default() -> How {
        How { sep: ',', style: 0, pretty: false, nres: Some(40), niter: Some(30), whole: false, head: "query_id", threads: 1 }
    }
}

fn compare(fs: &[Sys], h: &How, w: &mut W) {
    let sc = Scratch::new();
    let mut paths = vec![];
    for (i, f) in fs.iter().enumerate() {
        let p = sc.file(&format!("s{i}.csv"), f.csv(h.head, h.sep, h.style, h.whole));
        paths.push(p.to_str().unwrap().to_string());
    }
    run_compare(fs, &paths, h, w);
}

/// The systems are in files of these names already.
fn run_compare(fs: &[Sys], paths: &[String], h: &How, w: &mut W) {
    let mut args: Vec<String> = vec!["-i".into()];
    args.extend(paths.iter().cloned());
    if h.sep == '\t' {
        args.push("--tab-separator".into());
    }
    if !h.pretty {
        args.extend(["-p".to_string(), "raw".into()]);
    }
    if let Some(n) = h.nres {
        args.extend(["--n-resamples".to_string(), n.to_string()]);
    }
    if let Some(n) = h.niter {
        args.extend(["--n-iters".to_string(), n.to_string()]);
    }
    w.op();
    let mut c = cli::command("elinor-compare", h.threads);
    c.args(&args);
    let r = cli::finish(c);
    w.trace();
    w.outcome(&(r.ok, r.status.clone(), r.out.len()));
    let show = || fs.iter().map(|f| format!("{:?} {:?} {:?}", f.cols, f.ids.iter().take(6).collect::<Vec<_>>(), f.rows.iter().take(6).collect::<Vec<_>>())).collect::<Vec<_>>().join(" | ");
    let want = match expected(fs, paths, h.nres.unwrap_or(10000), h.niter.unwrap_or(10000)) {
        Some(Some(v)) => v,
        Some(None) => return,
        None => {
            w.check(!r.ok, || format!("exit status 0 on refused input {}", show()));
            return;
        }
    };
    if !r.ok {
        w.fail("", format!("fails with {} on {}: {}", r.status, show(), r.err.chars().take(300).collect::<String>()));
        return;
    }
    let text = r.text();
    let got = read_output(&text, h.pretty);
    if got.len() != want.len() {
        w.fail("", format!("{} sections printed, expected {}:\n{text}", got.len(), want.len()));
        return;
    }
    for ((title, rows), sec) in got.iter().zip(&want) {
        w.check(sec.keyword.iter().all(|k| title.contains(k.as_str())), || format!("section {title:?}, expected one about {:?}", sec.keyword));
        let shape = rows.len() == sec.rows.len() && rows.iter().zip(&sec.rows).all(|(a, b)| a.len() == b.len());
        if !shape {
            w.fail("", format!("section {title:?} has rows {rows:?}, expected {:?}", sec.rows));
            continue;
        }
        for (a, b) in rows.iter().zip(&sec.rows) {
            for (x, y) in a.iter().zip(b) {
                w.check(cell_ok(x, y), || format!("section {title:?}: {x:?} printed, expected {y:?} in row {a:?} for {}", show()));
            }
        }
        // A matrix of p-values is symmetric as printed.
        if title.contains("p-values") {
            for i in 1..rows.len() {
                for j in 1..rows.len() {
                    w.check(rows[i][j] == rows[j][i], || format!("p-values {} and {} differ", rows[i][j], rows[j][i]));
                }
            }
        }
    }
}

/// Ordered subsets of 0..n.
fn arrangements(n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for v in &last {
            for j in 0..n {
                if !v.contains(&j) {
                    let mut x = v.clone();
                    x.push(j);
                    next.push(x);
                }
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

fn topics(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("t{}", (i * 7) % 10)).collect()
}

/// Distinct, irregular, exactly representable scores.
fn score(sys: usize, topic: usize, col: usize) -> f64 {
    let x = (sys * 37 + topic * 61 + col * 101 + sys * topic * 29 + topic * topic * 13 + sys * sys * 7) % 97;
    x as f64 / 64.0 + if sys == 1 { 0.5 * ((topic + col) % 2) as f64 } else { 0.0 }
}

pub fn c20(cx: &mut Cx) {
    cx.rule = "state = a distinct set of CSV files with a command line; the real elinor-compare binary runs on each and every printed cell is compared with the library's results for the pairs matched by topic id".into();
    let th = cx.thorough;
    let cols = ["ap", "ndcg@10", "rr"];
    // Every row order of the files.
    let n2 = 4;
    cx.family("all row orders of two files", factorial(n2 as u64).pow(2), |i, w| {
        let mut r = Radix(i);
        let (a, b) = (perm_at(r.take(24), n2), perm_at(r.take(24), n2));
        let fs: Vec<Sys> = (0..2).map(|k| Sys::new(&topics(n2), &cols[..2], |t, c| score(k, t, c)).permuted(if k == 0 { &a } else { &b })).collect();
        w.at(|| format!("rows {a:?} and {b:?}"));
        w.state(&(1, i));
        compare(&fs, &How { nres: Some(20), niter: Some(20), ..How::default() }, w);
        w.sample(|| format!("rows in orders {a:?} and {b:?}"));
    });
    let (n3, m3) = if th { (4, 3) } else { (3, 3) };
    let f3 = factorial(n3 as u64);
    cx.family("all row orders of three files", f3.pow(m3), |i, w| {
        let mut r = Radix(i);
        let fs: Vec<Sys> = (0..3).map(|k| Sys::new(&topics(n3), &cols[..1], |t, c| score(k, t, c)).permuted(&perm_at(r.take(f3), n3))).collect();
        w.at(|| format!("rows {:?}", fs.iter().map(|f| &f.ids).collect::<Vec<_>>()));
        w.state(&(2, i));
        compare(&fs, &How { niter: Some(20), ..How::default() }, w);
    });
    // Topics differ by far more than systems: a wrong pairing anywhere moves every p-value far away.
    let n8 = 8_usize;
    let mut orders: Vec<Vec<usize>> = vec![(0..n8).collect(), (0..n8).rev().collect()];
    for a in 0..n8 {
        orders.push((0..n8).map(|j| (j + a + 1) % n8).collect());
        for b in 0..a {
            let mut p: Vec<usize> = (0..n8).collect();
            p.swap(a, b);
            orders.push(p);
        }
    }
    let orders = &orders;
    let no = orders.len() as u64;
    cx.family("row orders with strong topic effects", no * 4, |i, w| {
        let mut r = Radix(i);
        let which = r.take(4) as usize; // file 1 or 2 of two, file 2 or 3 of three
        let o = r.pick(orders);
        let k = 2 + which / 2;
        let fs: Vec<Sys> = (0..k)
            .map(|k2| {
                let f = Sys::new(&topics(n8), &cols[..2], |t, c| (t * t) as f64 * 4.0 + [0.0, 1.0, -1.0][k2] * (1.0 + c as f64) + ((t * 3 + k2 * 5) % 7) as f64 / 64.0);
                if k2 == [0, 1, 1, 2][which] {
                    f.permuted(o)
                } else {
                    f
                }
            })
            .collect();
        w.at(|| format!("file {} of {k} in order {o:?}", [1, 2, 2, 3][which]));
        w.state(&(17, i));
        compare(&fs, &How { nres: Some(1000), niter: Some(1000), ..How::default() }, w);
    });
    // Every choice and order of columns.
    let ar = arrangements(3);
    let na = ar.len() as u64;
    let ar = &ar;
    cx.family("all column sets and orders of two files", na * na, |i, w| {
        let mut r = Radix(i);
        let (a, b) = (r.pick(ar).clone(), r.pick(ar).clone());
        let fs: Vec<Sys> = [&a, &b].iter().enumerate().map(|(k, c)| Sys::new(&topics(5), &cols, |t, c| score(k, t, c)).columns(c).permuted(if k == 0 { &[2, 0, 1, 4, 3] } else { &[4, 1, 3, 0, 2] })).collect();
        w.at(|| format!("columns {:?} and {:?}", fs[0].cols, fs[1].cols));
        w.state(&(3, i));
        compare(&fs, &How { nres: Some(20), niter: Some(20), ..How::default() }, w);
    });
    let ar2 = if th { arrangements(3) } else { arrangements(2) };
    let n_ar2 = ar2.len() as u64;
    let ar2 = &ar2;
    cx.family("all column sets and orders of three files", n_ar2.pow(3), |i, w| {
        let mut r = Radix(i);
        let fs: Vec<Sys> = (0..3).map(|k| Sys::new(&topics(4), &cols, |t, c| score(k, t, c)).columns(r.pick(ar2)).permuted(&perm_at(k as u64 * 9, 4))).collect();
        w.at(|| format!("columns {:?}", fs.iter().map(|f| &f.cols).collect::<Vec<_>>()));
        w.state(&(4, i));
        compare(&fs, &How { niter: Some(20), ..How::default() }, w);
    });
    cx.family("all column sets and orders of one file", na * 2, |i, w| {
        let mut r = Radix(i);
        let c = r.pick(ar).clone();
        let pretty = r.take(2) == 1;
        if c.is_empty() {
            return; // a file with no score column is not specified
        }
        let f = Sys::new(&topics(5), &cols, |t, c| score(1, t, c)).columns(&c);
        w.at(|| format!("columns {:?}", f.cols));
        w.state(&(5, i));
        compare(&[f], &How { pretty, ..How::default() }, w);
    });
    // Odd topic ids, alone among ordinary ones and all together, in several spellings of CSV.
    let ids: Vec<String> = odd_ids();
    let ids = &ids;
    let ni = ids.len() as u64;
    cx.family("odd topic ids", ni * 4 * 2, |i, w| {
        let mut r = Radix(i);
        let style = r.take(4);
        let sep = if r.take(2) == 0 { ',' } else { '\t' };
        let id = &ids[r.0 as usize];
        let t: Vec<String> = vec![format!("{id}1"), id.clone(), "zz".into(), format!(" {id}")];
        let k = if i % 3 == 0 { 3 } else { 2 };
        let fs: Vec<Sys> = (0..k).map(|k| Sys::new(&t, &cols[..1], |t, c| score(k, t, c)).permuted(&perm_at((k as u64 * 11 + i) % 24, 4))).collect();
        w.at(|| format!("topics {t:?}, style {style}, separator {sep:?}"));
        w.state(&(6, i));
        compare(&fs, &How { style, sep, nres: Some(5), niter: Some(5), ..How::default() }, w);
    });
    cx.family("all odd topic ids in one file", 4 * 2 * 3, |i, w| {
        let mut r = Radix(i);
        let style = r.take(4);
        let sep = if r.take(2) == 0 { ',' } else { '\t' };
        let k = r.take(3) as usize + 2;
        let n = ids.len();
        let fs: Vec<Sys> = (0..k).map(|k| Sys::new(ids, &cols[..2], |t, c| score(k, t, c)).permuted(&(0..n).map(|j| (j * [1, 2, 5, 7][k] + 17 * k) % n).collect::<Vec<_>>())).collect();
        w.at(|| format!("{k} files, style {style}, separator {sep:?}"));
        w.state(&(7, i));
        compare(&fs, &How { style, sep, nres: Some(5), niter: Some(5), ..How::default() }, w);
    });
    cx.family("pairs of ids that a loose reader confuses", 40, |i, w| {
        let pairs: [(&str, &str); 20] = [
            ("1", "01"), ("1", "1.0"), ("1", " 1"), ("1", "1 "), ("1", "+1"), ("0", "-0"), ("a", "A"), ("a", "a "), ("", " "), ("", "null"), ("null", "NULL"), ("NaN", "nan"), ("true", "True"), ("1e1", "10"), ("é", "e\u{301}"), ("a", "\u{feff}a"), ("a\n", "a"), ("a\"", "a"), ("9007199254740993", "9007199254740992"),
            ("a\tb", "a b"),
        ];
        let (a, b) = pairs[i as usize / 2];
        let t: Vec<String> = strs(&[a, b, "m", "n"]);
        let k = 2 + i as usize % 2;
        let fs: Vec<Sys> = (0..k).map(|k| Sys::new(&t, &cols[..1], |t, c| score(k, t, c)).permuted(&[[0, 1, 2, 3], [1, 0, 3, 2], [3, 2, 1, 0]][k])).collect();
        w.at(|| format!("topics {t:?}"));
        w.state(&(8, i));
        compare(&fs, &How { nres: Some(5), niter: Some(5), style: i % 2, ..How::default() }, w);
    });
    // All small score tables.
    let vals = [0.0, 0.25, 1.0];
    cx.family("all score tables of two systems and three topics", 3_u64.pow(6), |i, w| {
        let c = Radix(i).vec(3, 6);
        let fs: Vec<Sys> = (0..2).map(|k| Sys::new(&topics(3), &["m"], |t, _| vals[c[k * 3 + t] as usize]).permuted(if k == 0 { &[0, 1, 2] } else { &[1, 2, 0] })).collect();
        w.at(|| format!("scores {:?}", fs.iter().map(|f| &f.rows).collect::<Vec<_>>()));
        w.state(&(9, i));
        compare(&fs, &How { whole: i % 2 == 0, nres: Some(5), niter: Some(5), ..How::default() }, w);
    });
    cx.family("all score tables of three systems and three topics", if th { 3_u64.pow(9) } else { 2_u64.pow(9) }, |i, w| {
        let b = if th { 3 } else { 2 };
        let c = Radix(i).vec(b, 9);
        let fs: Vec<Sys> = (0..3).map(|k| Sys::new(&topics(3), &["m"], |t, _| vals[c[k * 3 + t] as usize]).permuted(&perm_at(k as u64 * 2, 3))).collect();
        w.at(|| format!("scores {:?}", fs.iter().map(|f| &f.rows).collect::<Vec<_>>()));
        w.state(&(10, i));
        compare(&fs, &How { whole: i % 2 == 0, niter: Some(5), ..How::default() }, w);
    });
    // Numbers of systems, topics and repetitions; both print modes; whole numbers first.
    let nsys: &[usize] = if th { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20] } else { &[2, 3, 4, 6, 9, 10, 11, 12] };
    cx.family("shapes, repetitions and print modes", nsys.len() as u64 * 3 * 2 * 5, |i, w| {
        let mut r = Radix(i);
        let m = *r.pick(nsys);
        let n = [2, 9, 30][r.take(3) as usize];
        let pretty = r.take(2) == 1;
        let (nres, niter) = [(Some(1), Some(7)), (Some(7), Some(1)), (Some(0), Some(0)), (Some(123), Some(321)), (None, None)][r.take(5) as usize];
        let t: Vec<String> = (0..n).map(|j| format!("{}", j * 3 % (n + 1))).collect();
        let t: Vec<String> = t.into_iter().collect::<BTreeSet<_>>().into_iter().collect();
        let fs: Vec<Sys> = (0..m)
            .map(|k| {
                let f = Sys::new(&t, &cols[..2], |t, c| score(k, t, c));
                let l = f.ids.len();
                f.permuted(&(0..l).map(|j| (j + k) % l).collect::<Vec<_>>())
            })
            .collect();
        w.at(|| format!("{m} systems, {} topics, pretty {pretty}, {nres:?} resamples, {niter:?} iterations", t.len()));
        w.state(&(11, i));
        compare(&fs, &How { pretty, nres, niter, ..How::default() }, w);
    });
    let sizes: &[usize] = if th { &[100, 101, 150, 1000, 1024, 1025, 5000, 20000] } else { &[100, 101, 150, 1025, 5000] };
    cx.family("many topics, whole numbers first, several threads", sizes.len() as u64 * 2 * 2, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(sizes);
        let m = 2 + r.take(2) as usize;
        let threads = [1, 4][r.take(2) as usize];
        let t: Vec<String> = (0..n).map(|j| if j % 40 == 3 { format!("{j}\n,\"") } else { format!("{j:05}") }).collect();
        let fs: Vec<Sys> = (0..m)
            .map(|k| {
                let f = Sys::new(&t, &["m", "k"], |t, c| if t < 120 && c == 0 { ((t * 7 + k * 3) % 5) as f64 } else { score(k, t, c) });
                let mut p: Vec<usize> = (0..n).collect();
                if k > 0 {
                    // whole numbers stay in front in some file, scattered in the others
                    p.sort_by_key(|&j| fnv(format!("{k} {j}").as_bytes()));
                }
                f.permuted(&p)
            })
            .collect();
        w.at(|| format!("{n} topics, {m} systems, {threads} threads"));
        w.state(&(12, i));
        compare(&fs, &How { whole: true, threads, nres: Some(3), niter: Some(3), ..How::default() }, w);
    });
    // Numbers of topics around the limits of narrow integers and of what a reader looks at first.
    let sizes: &[usize] = if th { &[300_000, 32768, 65535, 65536, 65537, 70000, 140000] } else { &[65536, 65537] };
    cx.family("numbers of topics around powers of two", sizes.len() as u64 * 2, |i, w| {
        let n = sizes[i as usize / 2];
        let m = 2 + i as usize % 2;
        let t: Vec<String> = (0..n).map(|j| format!("{j:06}")).collect();
        let fs: Vec<Sys> = (0..m).map(|k| Sys::new(&t, &["m"], |t, c| score(k, t % 977, c) + if t + 1 == n { 100.0 + k as f64 } else { 0.0 })).collect();
        w.at(|| format!("{n} topics, {m} systems"));
        w.state(&("many", i));
        compare(&fs, &How { nres: Some(3), niter: Some(3), ..How::default() }, w);
    });
    // Odd names of columns and of the topic column.
    let heads = ["query_id", "topic", "id", "Query ID", "a,b", "q\"", "é", "1", "x y", ""];
    cx.family("names of the topic column", heads.len() as u64 * 3, |i, w| {
        let h = heads[i as usize / 3];
        let m = 1 + i as usize % 3;
        if h.is_empty() {
            return;
        }
        let fs: Vec<Sys> = (0..m).map(|k| Sys::new(&topics(5), &cols[..2], |t, c| score(k, t, c))).collect();
        w.at(|| format!("header {h:?}, {m} files"));
        w.state(&(13, i));
        compare(&fs, &How { head: h, ..How::default() }, w);
    });
    let names = ["ndcg@10", "P@5", "map cut", "system_1", "system_2", "System_1", "é", "a,b", "0", "p-value", "Metric", "column", "len", "literal"];
    let nn = names.len() as u64;
    cx.family("pairs of column names", nn * nn * 2, |i, w| {
        let mut r = Radix(i);
        let (a, b) = (r.take(nn) as usize, r.take(nn) as usize);
        let m = 2 + r.take(2) as usize;
        if a == b {
            return;
        }
        let fs: Vec<Sys> = (0..m).map(|k| Sys::new(&topics(4), &[names[a], names[b]], |t, c| score(k, t, c)).columns(if k == 1 { &[1, 0] } else { &[0, 1] })).collect();
        w.at(|| format!("columns {:?}, {m} files", fs[0].cols));
        w.state(&(14, i));
        compare(&fs, &How { nres: Some(3), niter: Some(3), ..How::default() }, w);
    });
    // Refusals.
    cx.family("refused files and arguments", 5 * 5 * 3 + 12, |i, w| {
        let sc = Scratch::new();
        w.state(&(15, i));
        let f = |k: usize, h: &str, n: &str, c: &[&str]| sc.file(n, Sys::new(&topics(4), c, |t, c| score(k, t, c)).csv(h, ',', 0, false)).to_str().unwrap().to_string();
        let hs = ["query_id", "topic", "Query_id", "query_id ", "ap"];
        let args: Vec<String>;
        if i < 75 {
            let mut r = Radix(i);
            let (a, b) = (r.take(5) as usize, r.take(5) as usize);
            let m = r.take(3);
            let metrics = ["m1", "m2"];
            let x = f(0, hs[a], "a.csv", &metrics);
            let y = f(1, hs[b], "b.csv", &metrics);
            let mut v = vec!["-i".to_string(), x.clone(), y.clone()];
            match m {
                1 => v.push(x.clone()),
                2 => {
                    v.insert(1, f(2, hs[a], "c.csv", &metrics));
                    v.insert(1, f(3, hs[a], "d.csv", &metrics));
                }
                _ => {}
            }
            v.extend(strs(&["-p", "raw", "--n-iters", "3", "--n-resamples", "3"]));
            w.at(|| format!("headers {:?} and {:?}, {v:?}", hs[a], hs[b]));
            w.op();
            let r = cli::run("elinor-compare", &v);
            w.trace();
            if a == b {
                w.check(r.ok, || format!("refused although the headers agree: {}", r.err.chars().take(200).collect::<String>()));
            } else {
                w.check(!r.ok, || format!("exit status 0 with headers {:?} and {:?}", hs[a], hs[b]));
            }
            return;
        }
        let good = f(0, "query_id", "g.csv", &["m"]);
        let good2 = f(1, "query_id", "g2.csv", &["m"]);
        let other = f(1, "query_id", "o.csv", &["n"]);
        let d = sc.0.to_str().unwrap().to_string();
        args = match i - 75 {
            0 => vec![],
            1 => strs(&["-i"]),
            2 => strs(&["-i", &format!("{d}/none")]),
            3 => strs(&["-i", &good, &format!("{d}/none")]),
            4 => strs(&["-i", &d]),
            5 => strs(&["-i", &good, &good2, "-p", "fancy"]),
            6 => strs(&["-i", &good, &good2, "-p", "Raw"]),
            7 => strs(&["-i", &good, &good2, "--n-iters", "-1"]),
            8 => strs(&["-i", &good, &good2, "--n-resamples", "x"]),
            9 => strs(&["-i", &good, &other]),
            10 => strs(&["-i", &good, &good2, &other]),
            _ => strs(&["-i", &good, &good2, "--n-iters", "1.5"]),
        };
        w.at(|| format!("{args:?}"));
        w.op();
        let r = cli::run("elinor-compare", &args);
        w.trace();
        w.check(!r.ok, || format!("exit status 0; printed {}", r.text().chars().take(300).collect::<String>()));
    });
    // Names and places of the files, and the surroundings of the process.
    let nms = cli::odd_names();
    let nms = &nms;
    cx.family("file names and places", nms.len() as u64 * cli::PLACES * 3, |i, w| {
        let mut r = Radix(i);
        let (m, how, n) = (1 + r.take(3) as usize, r.take(cli::PLACES), r.pick(nms));
        if n.contains(&b'\n') {
            return; // such a name cannot be shown in a table
        }
        let pretty = i % 2 == 1 && !n.contains(&b'|');
        let odd = i as usize / 5 % m;
        let sc = Scratch::new();
        let fs: Vec<Sys> = (0..m).map(|k| Sys::new(&topics(6), &cols[..2], |t, c| score(k, t, c))).collect();
        let (mut args, mut paths): (Vec<std::ffi::OsString>, Vec<String>) = (vec!["-i".into()], vec![]);
        for (k, f) in fs.iter().enumerate() {
            let nm = if k == odd { n.clone() } else { format!("s{k}.csv").into_bytes() };
            let Some((a, real)) = cli::place(&sc, &nm, how) else { return };
            std::fs::write(real, f.csv("query_id", ',', 0, false)).expect("scratch file");
            paths.push(a.to_string_lossy().into_owned());
            args.push(a);
        }
        w.at(|| format!("{:?} as file {odd} of {m}, place {how}", String::from_utf8_lossy(n)));
        w.state(&("place", i));
        args.extend(["-p", if pretty { "pretty" } else { "raw" }, "--n-resamples", "30", "--n-iters", "30"].map(|x| x.into()));
        w.op();
        let r = cli::run_in(&sc, "elinor-compare", [1, 4][i as usize % 2], cli::SURROUNDINGS[i as usize % cli::SURROUNDINGS.len()], &args);
        w.trace();
        w.check(r.ok, || format!("fails with {}: {}", r.status, r.err.chars().take(300).collect::<String>()));
        let Some(Some(want)) = expected(&fs, &paths, 30, 30) else {
            w.engine_error("degenerate data".into());
            return;
        };
        let got = read_output(&r.text(), pretty);
        w.check(got.len() == want.len(), || format!("{} sections, expected {}", got.len(), want.len()));
        for ((title, rows), sec) in got.iter().zip(&want) {
            let odd_name = title.contains("Alias") && n.iter().any(|c| b"\t\"".contains(c));
            let ok = odd_name || rows.len() == sec.rows.len() && rows.iter().zip(&sec.rows).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| cell_ok(x, y)));
            w.check(ok, || format!("section {title:?}: {rows:?}, expected {:?}", sec.rows));
        }
    });
    // The same file given several times, under the same or another name.
    let again: Vec<Vec<usize>> = (1..=if th { 5 } else { 4 }).flat_map(|m| (0..2_u64.pow(m)).map(move |i| Radix(i).vec(2, m as usize).iter().map(|&x| x as usize).collect())).collect();
    let again = &again;
    cx.family("the same file several times", again.len() as u64 * 4, |i, w| {
        let mut r = Radix(i);
        let (which, how) = (r.pick(again), r.take(4));
        let sc = Scratch::new();
        let fs: Vec<Sys> = (0..2).map(|k| Sys::new(&topics(6), &cols[..2], |t, c| score(k, t, c))).collect();
        let mut paths: Vec<String> = vec![];
        for (j, &k) in which.iter().enumerate() {
            let p = sc.file(&format!("s{k}.csv"), fs[k].csv("query_id", ',', 0, false));
            let p = p.to_str().unwrap().to_string();
            paths.push(match if j % 2 == 0 { 0 } else { how } {
                0 => p,
                1 => format!("{}/./s{k}.csv", sc.0.display()),
                2 => {
                    let l = sc.path(&format!("l{j}"));
                    std::os::unix::fs::symlink(&p, &l).expect("scratch link");
                    l.to_str().unwrap().to_string()
                }
                _ => {
                    let l = sc.path(&format!("h{j}"));
                    std::fs::hard_link(&p, &l).expect("scratch link");
                    l.to_str().unwrap().to_string()
                }
            });
        }
        let fs: Vec<Sys> = which.iter().map(|&k| fs[k].clone()).collect();
        w.at(|| format!("files {which:?}, how {how}"));
        w.state(&("again", i));
        run_compare(&fs, &paths, &How { pretty: i % 3 == 0, ..How::default() }, w);
    });
    // Scores of all magnitudes.
    let mags: Vec<i32> = (-12..=if th { 18 } else { 15 }).collect();
    let mags = &mags;
    cx.family("scores of all magnitudes", mags.len() as u64 * 4 * 2 * 2, |i, w| {
        let mut r = Radix(i);
        let (e, m, pretty, neg) = (*r.pick(mags), 1 + r.take(4) as usize, r.take(2) == 1, r.take(2) == 1);
        let x = 10.0_f64.powi(e) * if neg { -1.0 } else { 1.0 };
        let fs: Vec<Sys> = (0..m).map(|k| Sys::new(&topics(5), &cols[..2], |t, c| score(k, t, c) * if c == 0 { x } else { 1.0 })).collect();
        w.at(|| format!("scores about 1e{e}, {m} systems, pretty {pretty}, negative {neg}"));
        w.state(&("magnitude", i));
        compare(&fs, &How { pretty, whole: m % 2 == 0, ..How::default() }, w);
    });
    let text = |k: usize, sep: char, style: u64| Sys::new(&strs(&["t\u{e9}", "\u{6f22}", "a,b", "1"]), &cols[..2], |t, c| score(k, t, c)).csv("query_id", sep, style, false);
    let mut ps = vec![];
    for (sep, style) in [(',', 0), ('\t', 2)] {
        for m in 1..3 {
            let files = [("s0", text(0, sep, style)), ("s1", text(1, sep, style))][..m].to_vec();
            // Two systems: nearly constant differences of many topics have p-values that are certain (up to 2^-38).
            let files = if m == 2 { ["s0", "s1"].iter().enumerate().map(|(k, n)| (*n, Sys::new(&(0..40).map(|j| if j % 9 == 0 { format!("\u{e9}{j}") } else { format!("{j}") }).collect::<Vec<_>>(), &cols[..1], |t, _| (t % 3 + k) as f64 + (t % 2 * k) as f64 / 1024.0).csv("query_id", sep, style, false))).collect() } else { files };
            let mut args: Vec<String> = vec!["-i".into()];
            args.extend(files.iter().map(|f| format!("@/{}", f.0)));
            args.extend(strs(&["-p", if style == 0 { "raw" } else { "pretty" }, "--n-iters", "1", "--n-resamples", "1"]));
            if sep == '\t' {
                args.push("--tab-separator".into());
            }
            ps.push(Piped { bin: "elinor-compare", files, args });
        }
    }
    ps.push(Piped { bin: "elinor-compare", files: vec![("s0", text(0, ',', 0).replacen("\n", "\n\n", 1))], args: strs(&["-i", "@/s0"]) });
    ps.push(Piped { bin: "elinor-compare", files: vec![("s0", text(0, ',', 0)), ("s1", text(1, ',', 0).replacen("1,", "2,", 1))], args: strs(&["-i", "@/s0", "@/s1"]) });
    pipes(cx, "inputs out of pipes, cut everywhere", &ps);
    // Files that do not have the same topics, or a topic more than once.
    let lists: Vec<Vec<u64>> = (0..seq_count(3, 2, if th { 4 } else { 3 })).map(|i| seq_at(i, 3, 2, 4)).collect();
    let lists = &lists;
    let nl = lists.len() as u64;
    cx.family("all pairs of topic lists", nl * nl * 2, |i, w| {
        let mut r = Radix(i);
        let (a, b) = (r.pick(lists), r.pick(lists));
        let third = r.take(2) == 1;
        let sorted = |v: &Vec<u64>| {
            let mut v = v.clone();
            v.sort();
            v
        };
        let once = |v: &Vec<u64>| v.iter().collect::<BTreeSet<_>>().len() == v.len();
        let fine = once(a) && sorted(a) == sorted(b);
        if fine {
            return;
        }
        let sys = |v: &Vec<u64>, k: usize| {
            let id: Vec<String> = v.iter().map(|t| format!("t{t}")).collect();
            Sys::new(&id, &["m"], |t, c| score(k, t, c) + v[t] as f64)
        };
        let mut fs = vec![sys(a, 0), sys(b, 1)];
        if third {
            fs.insert((i % 3) as usize, sys(a, 2));
        }
        w.at(|| format!("topics {a:?} and {b:?}, {} systems", fs.len()));
        w.state(&("lists", i));
        let sc = Scratch::new();
        let mut args = strs(&["--n-resamples", "5", "--n-iters", "5", "-i"]);
        for (k, f) in fs.iter().enumerate() {
            args.push(sc.file(&format!("s{k}.csv"), f.csv("q", ',', 0, false)).to_str().unwrap().to_string());
        }
        w.op();
        let r = cli::run("elinor-compare", &args);
        w.trace();
        w.check(!r.ok, || format!("exit status 0; printed {}", r.text().chars().take(300).collect::<String>()));
    });
    // What elinor-evaluate writes, elinor-compare reads.
    cx.family("evaluate then compare", 12, |i, w| {
        let sc = Scratch::new();
        let mut r = Radix(i);
        let m = 1 + r.take(3) as usize;
        let tab = r.take(2) == 1;
        let pretty = r.take(2) == 1;
        let ms = strs(&["ap", "ndcg@3", "dcg"]);
        w.at(|| format!("{m} systems, tab {tab}"));
        w.state(&(16, i));
        let mut fs = vec![];
        let mut paths = vec![];
        for k in 0..m {
            let mut x = Data::standard(ids);
            for (j, p) in x.p.iter_mut().enumerate() {
                p.2 = ((j * (k + 3) * 7) % 11) as f64;
            }
            let (a, b) = x.jsonl();
            let (tp, pp, out) = (sc.file(&format!("t{k}"), a), sc.file(&format!("p{k}"), b), sc.path(&format!("o{k}.csv")));
            let mut args = strs(&["-t", tp.to_str().unwrap(), "-p", pp.to_str().unwrap(), "-o", out.to_str().unwrap()]);
            if tab {
                args.push("--tab-separator".into());
            }
            args.extend(strs(&["-m", "ap", "ndcg@3", "dcg"]));
            w.op();
            let r = cli::run("elinor-evaluate", &args);
            w.check(r.ok, || format!("elinor-evaluate fails: {}", r.err));
            let (t, p) = x.stores().unwrap();
            let ev: Vec<_> = ms.iter().map(|m| elinor::evaluate(&t, &p, m.parse().unwrap()).unwrap().scores().clone()).collect();
            let idv: Vec<String> = ev[0].keys().cloned().collect();
            fs.push(Sys { rows: idv.iter().map(|q| ev.iter().map(|e| e[q]).collect()).collect(), ids: idv, cols: ms.clone() });
            paths.push(out.to_str().unwrap().to_string());
        }
        let mut args = strs(&["-i"]);
        args.extend(paths.iter().cloned());
        if tab {
            args.push("--tab-separator".into());
        }
        args.extend(strs(&["-p", if pretty { "pretty" } else { "raw" }, "--n-iters", "50", "--n-resamples", "50"]));
        w.op();
        let r = cli::run("elinor-compare", &args);
        w.trace();
        let Some(Some(want)) = expected(&fs, &paths, 50, 50) else {
            w.engine_error("degenerate data".into());
            return;
        };
        w.check(r.ok, || format!("elinor-compare fails: {}", r.err.chars().take(300).collect::<String>()));
        let got = read_output(&r.text(), pretty);
        w.check(got.len() == want.len(), || format!("{} sections, expected {}", got.len(), want.len()));
        for ((title, rows), sec) in got.iter().zip(&want) {
            let ok = rows.len() == sec.rows.len() && rows.iter().zip(&sec.rows).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| cell_ok(x, y)));
            w.check(ok, || format!("section {title:?}: {rows:?}, expected {:?}", sec.rows));
        }
    });
    cx.assume("randomised p-values are compared with a 4000-fold independent resampling (ties up to rounding may fall either way) within eight standard deviations and must be multiples of 1/n");
    cx.assume("data whose residual or variance vanishes only up to rounding (known findings of C13 to C18) are not judged");
    cx.bound("all row orders of two files of 4 topics and three of 3 (4); all ordered column subsets; 93 odd ids in 4 spellings and 2 separators; all 3-topic score tables over 3 (2) values; up to 12 (20) systems and 65537 (140000) topics; 64 file names in 7 places, 12 surroundings; all pairs of lists of 2 to 3 (4) of three topics that are not the same topics once each; 87 refusals");
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Out {
    Pipe,
    File,
    Full,
    Broken,
}

/// One fault to be injected into one run.
#[derive(Clone, Debug, Default)]
struct Fault {
    fsize: Option<u64>,
    nofile: Option<u64>,
    shim: Option<String>,
    out_full: bool,
    /// What the output file already has.
    old: Option<Vec<u8>>,
}

struct Job {
    name: &'static str,
    /// Input files written into the scratch directory.
    files: Vec<(String, String)>,
    /// Arguments; @ stands for the scratch directory, %out for the output path.
    args: Vec<String>,
    has_out: bool,
}

struct Done {
    ok: bool,
    status: String,
    stdout: Vec<u8>,
    file: Option<Vec<u8>>,
    calls: [u64; 3],
}

fn run_job(j: &Job, out: Out, f: &Fault, w: &mut W) -> Done {
    use std::os::unix::process::CommandExt;
    let sc = Scratch::new();
    for (n, c) in &j.files {
        sc.file(n, c);
    }
    if let Some(o) = &f.old {
        sc.file("out", o);
    }
    let d = sc.0.to_str().unwrap().to_string();
    let op = if f.out_full { "/dev/full".to_string() } else { format!("{d}/out") };
    let mut c = cli::command(j.name, 1);
    c.current_dir(&sc.0);
    // Paths are absolute for the shim, but results must not depend on the scratch directory's name.
    c.args(j.args.iter().map(|a| match a.strip_prefix('@') {
        Some(r) => format!("{d}{r}"),
        None => a.replace("%out", &op),
    }));
    let so = sc.path("stdout");
    match out {
        Out::Pipe => {
            c.stdout(std::process::Stdio::piped());
        }
        Out::File => {
            c.stdout(std::fs::File::create(&so).unwrap());
        }
        Out::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        Out::Broken => {
            let mut fds = [0; 2];
            unsafe {
                libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC);
                libc::close(fds[0]);
                use std::os::fd::FromRawFd;
                c.stdout(std::fs::File::from_raw_fd(fds[1]));
            }
        }
    }
    c.stderr(std::process::Stdio::piped());
    if let Some(s) = &f.shim {
        let lib = verif_dir().join("target/shim.so");
        c.env("LD_PRELOAD", lib).env("MC_FAULT", s).env("MC_DIR", format!("{d}/")).env("MC_COUNT", sc.path("count"));
    }
    let (fs, nf) = (f.fsize, f.nofile);
    unsafe {
        c.pre_exec(move || {
            if let Some(n) = fs {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            if let Some(n) = nf {
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            }
            Ok(())
        });
    }
    w.op();
    let o = c.output().expect("cannot run the command");
    let stdout = if out == Out::File { std::fs::read(&so).unwrap_or_default() } else { o.stdout };
    let stdout = String::from_utf8_lossy(&stdout).replace(&d, "@").into_bytes();
    let mut calls = [0; 3];
    if let Ok(t) = std::fs::read_to_string(sc.path("count")) {
        for (a, b) in calls.iter_mut().zip(t.split_whitespace()) {
            *a = b.parse().unwrap_or(0);
        }
    }
    Done { ok: o.status.success(), status: o.status.to_string(), stdout, file: std::fs::read(sc.path("out")).ok(), calls }
}

fn jobs(th: bool) -> Vec<(String, Job)> {
    let mut v = vec![];
    let mut sizes = vec![1, 40, 300];
    if th {
        sizes.extend([150, 1000]);
    }
    for n in sizes {
        let qrels: String = (0..n).map(|i| format!("q{} 0 doc{} {}\n", i / 10, i, i % 4)).collect();
        let run: String = (0..n).map(|i| format!("q{} Q0 doc{} 1 {}.25 r\n", i / 10, i, i)).collect();
        for (kind, f) in [("true", &qrels), ("pred", &run)] {
            v.push((
                format!("convert {n} {kind} records"),
                Job { name: "elinor-convert", files: vec![("in".into(), f.clone())], args: strs(&["-i", "@/in", "-o", "%out", "-r", kind]), has_out: true },
            ));
        }
    }
    for (n, tab, saved) in [(1, false, true), (12, true, true), (12, false, false), (400, false, true)] {
        let ids: Vec<String> = (0..n).map(|i| if i % 9 == 4 { format!("q,{i}") } else { format!("q{i}") }).collect();
        let (a, b) = Data::standard(&ids).jsonl();
        let mut args = strs(&["-t", "@/t", "-p", "@/p"]);
        if saved {
            args.extend(strs(&["-o", "%out"]));
        }
        if tab {
            args.push("--tab-separator".into());
        }
        args.extend(strs(&["-m", "ap", "ndcg@10", "rr"]));
        v.push((format!("evaluate {n} queries, tab {tab}, saved {saved}"), Job { name: "elinor-evaluate", files: vec![("t".into(), a), ("p".into(), b)], args, has_out: saved }));
    }
    // Data whose randomised p-values are always the same.
    for m in 1..=if th { 4 } else { 3 } {
        for pretty in [false, true] {
            // Equal means with exact sums: p-values are 1. Two systems: nearly constant differences, p-values are 0.
            let n = if m == 3 { 30 } else { 32 };
            let ids: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
            let mut args = strs(&["-i"]);
            let mut files = vec![];
            for k in 0..m {
                let f = Sys::new(&ids, &["ap", "rr"], |t, c| (((t % m) * if (t / m) % 2 == 0 { 1 } else { m - 1 } + k + c) % m) as f64 * 0.25 / if m == 2 { 16.0 } else { 1.0 } + ((t / m) % 3) as f64 + if m == 2 { k as f64 } else { 0.0 });
                files.push((format!("s{k}"), f));
                args.push(format!("s{k}")); // relative, as the paths are printed
            }
            args.extend(strs(&["-p", if pretty { "pretty" } else { "raw" }, "--n-iters", "2", "--n-resamples", "2"]));
            v.push((
                format!("compare {m} systems, pretty {pretty}"),
                Job { name: "elinor-compare", files: files.into_iter().map(|(n, f)| (n, f.csv("query_id", ',', 0, false))).collect(), args, has_out: false },
            ));
        }
    }
    v
}

pub fn c21(cx: &mut Cx) {
    cx.level = "fault_enumeration";
    cx.rule = "state = a distinct command with a distinct fault (the byte at which files stop growing, the system call that fails and how, a device that is full, a closed pipe, a limit on open files); the real binary runs under each".into();
    let th = cx.thorough;
    let js = jobs(th);
    let mut base = vec![];
    let mut w0 = W::default();
    for (n, j) in &js {
        let b = run_job(j, Out::Pipe, &Fault { shim: Some("x:0:0".into()), ..Fault::default() }, &mut w0);
        let b2 = run_job(j, Out::File, &Fault::default(), &mut w0);
        if !b.ok || !b2.ok || b.stdout != b2.stdout || b.file != b2.file || (j.has_out && b.file.is_none()) || b.calls[0] == 0 {
            // Without faults the command must work and repeat itself, or nothing can be said.
            let d = format!("{n}: without a fault: {} and {}, calls {:?}, outputs of {} and {} bytes", b.status, b2.status, b.calls, b.stdout.len(), b2.stdout.len());
            cx.errors.push(d);
        }
        base.push(b);
    }
    let (js, base) = (&js, &base);
    let judge = |k: usize, out: Out, d: &Done, w: &mut W| {
        let b = &base[k];
        w.trace();
        w.outcome(&(k, d.ok, d.stdout.len(), d.file.as_ref().map(|f| f.len())));
        w.add(if d.ok { "runs_with_status_0" } else { "runs_with_failure" }, 1);
        if !d.ok {
            return;
        }
        let stdout_ok = match out {
            Out::Pipe | Out::File => d.stdout == b.stdout,
            _ => b.stdout.is_empty(),
        };
        w.check(stdout_ok, || format!("exit status 0, but standard output has {} of {} bytes", d.stdout.len(), b.stdout.len()));
        w.check(!js[k].1.has_out || d.file == b.file, || format!("exit status 0, but the output file has {} of {} bytes", d.file.as_ref().map_or(0, |f| f.len()), b.file.as_ref().map_or(0, |f| f.len())));
    };
    // Every byte at which files stop growing.
    let mut cases: Vec<(usize, Out, u64)> = vec![];
    for (k, b) in base.iter().enumerate() {
        let (s, f) = (b.stdout.len() as u64, b.file.as_ref().map_or(0, |f| f.len() as u64));
        for (out, len) in [(Out::File, s.max(f)), (Out::Pipe, f)] {
            if len == 0 {
                continue;
            }
            for n in 0..=len + 1 {
                // Long outputs: all bytes near the ends and near block boundaries, every line end, and a stride.
                let near = |b: u64| n % b <= 2 || n % b >= b - 2;
                let dense = len <= if th { 40_000 } else { 1500 };
                if dense || n < 200 || n + 200 > len || near(4096) || near(1024) || n % 13 == 0 {
                    cases.push((k, out, n));
                }
            }
        }
    }
    let cs = &cases;
    cx.family("files that stop growing at every byte", cs.len() as u64, |i, w| {
        let (k, out, n) = cs[i as usize];
        w.at(|| format!("{}: {out:?}, no file grows beyond {n} bytes", js[k].0));
        w.state(&(1, k, out, n));
        let d = run_job(&js[k].1, out, &Fault { fsize: Some(n), ..Fault::default() }, w);
        judge(k, out, &d, w);
        let b = &base[k];
        let most = b.file.as_ref().map_or(0, |f| f.len()).max(if out == Out::File { b.stdout.len() } else { 0 }) as u64;
        if n >= most && !d.ok {
            w.fail("", format!("fails with {} although nothing reaches the limit", d.status));
        }
        w.sample(|| format!("{}: limit {n}", js[k].0));
    });
    // Every write, read and open call fails in every way.
    let mut cases: Vec<(usize, String)> = vec![];
    for (k, b) in base.iter().enumerate() {
        for (kind, n) in [('w', b.calls[0]), ('r', b.calls[1]), ('o', b.calls[2])] {
            for at in 0..n {
                for e in match kind {
                    'w' => vec!["28", "5", "122", "27", "32", "4", "11", "s"],
                    'r' => vec!["5", "21", "4", "11", "s"],
                    _ => vec!["2", "13", "24", "28", "30"],
                } {
                    cases.push((k, format!("{kind}:{at}:{e}")));
                }
            }
        }
    }
    let cs = &cases;
    cx.family("every write, read and open call failing in every way", cs.len() as u64, |i, w| {
        let (k, f) = &cs[i as usize];
        w.at(|| format!("{}: fault {f} (kind:call:errno, s = one byte only)", js[*k].0));
        w.state(&(2, k, f));
        let d = run_job(&js[*k].1, Out::Pipe, &Fault { shim: Some(f.clone()), ..Fault::default() }, w);
        judge(*k, Out::Pipe, &d, w);
    });
    cx.family("full devices and closed pipes", js.len() as u64 * 4, |i, w| {
        let mut r = Radix(i);
        let out = [Out::Pipe, Out::File, Out::Full, Out::Broken][r.take(4) as usize];
        let k = r.0 as usize;
        let full = js[k].1.has_out && matches!(out, Out::Pipe | Out::File);
        w.at(|| format!("{}: standard output is {out:?}, output file on a full device: {full}", js[k].0));
        w.state(&(3, k, out));
        let d = run_job(&js[k].1, out, &Fault { out_full: full, ..Fault::default() }, w);
        judge(k, out, &d, w);
    });
    // An output file that is already there: shorter, as long, longer, or the very output and more.
    cx.family("older output files", js.len() as u64 * 8 * 2, |i, w| {
        let mut r = Radix(i);
        let kind = r.take(8);
        let full = r.take(2) == 1;
        let k = r.0 as usize;
        let Some(b) = base[k].file.as_ref().filter(|_| js[k].1.has_out) else { return };
        let n = b.len();
        let old = match kind {
            0 => vec![],
            1 => b"\n".to_vec(),
            2 => vec![b'x'; n - 1],
            3 => vec![b'x'; n],
            4 => vec![b'x'; n + 1],
            5 => b"old,line\n".repeat(n / 4 + 2000),
            6 => b.clone(),
            _ => b.repeat(3),
        };
        let fault = Fault { fsize: full.then_some(n as u64 / 2), old: Some(old), ..Fault::default() };
        w.at(|| format!("{}: output file exists, kind {kind}, limited {full}", js[k].0));
        w.state(&(6, k, kind, full));
        let d = run_job(&js[k].1, Out::Pipe, &fault, w);
        judge(k, Out::Pipe, &d, w);
        w.check(d.ok || full, || format!("fails with {}", d.status));
    });
    cx.family("limits on open files", js.len() as u64 * 12, |i, w| {
        let mut r = Radix(i);
        let n = r.take(12) + 2;
        let k = r.0 as usize;
        w.at(|| format!("{}: at most {n} open files", js[k].0));
        w.state(&(4, k, n));
        let d = run_job(&js[k].1, Out::Pipe, &Fault { nofile: Some(n), ..Fault::default() }, w);
        judge(k, Out::Pipe, &d, w);
    });
    // Missing inputs and uncreatable outputs.
    let mut cases: Vec<(usize, usize)> = vec![];
    for (k, (_, j)) in js.iter().enumerate() {
        for f in 0..j.files.len() * 2 + if j.has_out { 2 } else { 0 } {
            cases.push((k, f));
        }
    }
    let cs = &cases;
    cx.family("missing inputs, directories as inputs and uncreatable outputs", cs.len() as u64, |i, w| {
        let (k, f) = cs[i as usize];
        let j = &js[k].1;
        let mut args = j.args.clone();
        let what;
        if f < j.files.len() * 2 {
            let n = format!("@/{}", j.files[f / 2].0);
            let p = args.iter().position(|a| *a == n || *a == n[2..]).unwrap();
            args[p] = if f % 2 == 0 { "@/missing".into() } else { "@".into() };
            what = format!("{n} replaced by {}", args[p]);
        } else {
            let p = args.iter().position(|a| a == "%out").unwrap();
            args[p] = if f % 2 == 0 { "@/no/such/out".into() } else { "@".into() };
            what = format!("output {}", args[p]);
        }
        w.at(|| format!("{}: {what}", js[k].0));
        w.state(&(5, k, f));
        let j2 = Job { name: j.name, files: j.files.clone(), args, has_out: false };
        let d = run_job(&j2, Out::Pipe, &Fault::default(), w);
        w.trace();
        w.check(!d.ok, || format!("exit status 0 with {what}"));
    });
    cx.assume("faults: RLIMIT_FSIZE, failing or short write/read/open calls (preloaded shim), /dev/full, a pipe without reader, RLIMIT_NOFILE; a close that fails, and standard output closed before the start (the runtime then opens /dev/null), are not faults of a write");
    cx.bound("16 (22) command lines, each with its files stopping at every byte (long outputs: every 13th, all near block boundaries and ends), each of its write, read and open calls failing in 5 to 8 ways");
}
