//! C10 (TREC parsing), C11 (conversion to JSONL) and C12 (score maps).
use crate::cli::*;
use crate::common::*;
use crate::json;
use elinor::statistical_tests::{pairs_from_maps, tuples_from_maps};
use elinor::*;
use std::collections::{BTreeMap, BTreeSet};
use std::result::Result;

// ---------------------------------------------------------------- reference TREC reader

/// Unicode White_Space.
fn is_ws(c: char) -> bool {
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}

pub fn columns(line: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in line.chars() {
        if is_ws(c) {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn ref_i32(s: &str) -> Option<i32> {
    let b = s.as_bytes();
    let (neg, d) = match b.first()? {
        b'-' => (true, &b[1..]),
        b'+' => (false, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let mut v: i64 = 0;
    for c in d {
        v = (v * 10 + (c - b'0') as i64).min(1 << 40);
    }
    let v = if neg { -v } else { v };
    (i32::MIN as i64 <= v && v <= i32::MAX as i64).then_some(v as i32)
}

/// Grammar of Rust floating-point literals accepted by parsing; the value is the standard library's.
fn ref_f64(s: &str) -> Option<f64> {
    let b = s.as_bytes();
    let mut i = 0;
    if matches!(b.first(), Some(b'+' | b'-')) {
        i = 1;
    }
    let rest = s.get(i..)?.to_ascii_lowercase();
    if ["inf", "infinity", "nan"].contains(&rest.as_str()) {
        return s.parse().ok();
    }
    let mut nd = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
        nd += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
            nd += 1;
        }
    }
    if nd == 0 {
        return None;
    }
    if i < b.len() && (b[i] | 32) == b'e' {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let a = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if a == i {
            return None;
        }
    }
    if i != b.len() {
        return None;
    }
    s.parse().ok()
}

#[derive(Debug, PartialEq, Clone, Copy, Eq, Hash, PartialOrd, Ord)]
pub enum Bad {
    Format,
    Duplicate,
}

/// Records in file order, or every kind of defect the lines contain.
pub fn ref_parse<T: Clone>(lines: &[String], ncol: usize, score: impl Fn(&str) -> Option<T>) -> Result<Vec<(String, String, T)>, BTreeSet<Bad>> {
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    let mut bad = BTreeSet::new();
    for l in lines {
        let c = columns(l);
        if c.len() < ncol {
            bad.insert(Bad::Format);
            continue;
        }
        if !seen.insert((c[0].clone(), c[2].clone())) {
            bad.insert(Bad::Duplicate);
        }
        match score(&c[ncol - 1]) {
            Some(s) => out.push((c[0].clone(), c[2].clone(), s)),
            None => {
                bad.insert(Bad::Format);
            }
        }
    }
    if bad.is_empty() {
        Ok(out)
    } else {
        Err(bad)
    }
}

pub fn ref_qrels(lines: &[String]) -> Result<Vec<(String, String, u32)>, BTreeSet<Bad>> {
    ref_parse(lines, 4, |s| ref_i32(s).map(|v| v.max(0) as u32))
}
pub fn ref_run(lines: &[String]) -> Result<Vec<(String, String, f64)>, BTreeSet<Bad>> {
    ref_parse(lines, 5, ref_f64)
}

/// Same bits, except that one NaN is as good as another.
fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn check_err(what: &str, e: &ElinorError, bad: &BTreeSet<Bad>, w: &mut W) {
    let kind = match e {
        ElinorError::InvalidFormat(_) => Some(Bad::Format),
        ElinorError::DuplicateEntry(_) => Some(Bad::Duplicate),
        _ => None,
    };
    w.check(kind.is_some_and(|k| bad.contains(&k)), || format!("{what}: {e:?}, but the lines contain {bad:?}"));
}

fn check_records<T: Clone + Ord + std::fmt::Debug>(
    what: &str,
    st: &elinor::relevance::RelevanceStore<String, T>,
    want: &[(String, String, T)],
    eq: impl Fn(&T, &T) -> bool,
    w: &mut W,
) {
    let mut by: BTreeMap<&str, BTreeMap<&str, &T>> = BTreeMap::new();
    for (q, d, s) in want {
        by.entry(q).or_default().insert(d, s);
    }
    let ids: Vec<&str> = st.query_ids().map(|s| s.as_str()).collect();
    w.check(ids == by.keys().copied().collect::<Vec<_>>(), || format!("{what}: queries {ids:?}, expected {:?}", by.keys()));
    w.check(st.n_docs() == want.len(), || format!("{what}: {} records, expected {}", st.n_docs(), want.len()));
    for (q, m) in &by {
        let got = st.get_map(*q);
        let ok = got.is_some_and(|g| g.len() == m.len() && g.iter().zip(m).all(|((d, s), (e, t))| d == e && eq(s, t)));
        w.check(ok, || format!("{what}: query {q:?} has {got:?}, expected {m:?}"));
    }
}

pub fn check_qrels(lines: &[String], w: &mut W) {
    w.ops(lines.len() as u64);
    w.state(&("t", lines));
    // The lines come in every form that reads as text, with every honest size hint.
    let way = lines.iter().fold(lines.len() as u64, |a, l| a.wrapping_mul(3).wrapping_add(l.len() as u64));
    let got = match way / WAYS % 4 {
        0 => trec::parse_true_rels_in_trec(handed(lines.iter(), way)),
        1 => trec::parse_true_rels_in_trec(handed(lines.iter().map(|l| l.as_str()), way)),
        2 => trec::parse_true_rels_in_trec(handed(lines.iter().cloned(), way)),
        _ => trec::parse_true_rels_in_trec(handed(lines.iter().map(|l| std::rc::Rc::<str>::from(l.as_str())), way)),
    };
    match (&got, &ref_qrels(lines)) {
        (Ok(s), Ok(want)) => check_records("qrels", s, want, |a, b| a == b, w),
        (Err(e), Err(bad)) => check_err("qrels", e, bad, w),
        (g, r) => w.fail("", format!("qrels: {:?}, expected {r:?}", g.as_ref().map(|_| "a store"))),
    }
    w.outcome(&got.as_ref().map(|s| s.n_docs()).map_err(std::mem::discriminant));
    w.trace();
}
pub fn check_run(lines: &[String], w: &mut W) {
    w.ops(lines.len() as u64);
    w.state(&("p", lines));
    let way = lines.iter().fold(lines.len() as u64, |a, l| a.wrapping_mul(3).wrapping_add(l.len() as u64));
    let got = match way / WAYS % 4 {
        0 => trec::parse_pred_rels_in_trec(handed(lines.iter(), way)),
        1 => trec::parse_pred_rels_in_trec(handed(lines.iter().map(|l| l.as_str()), way)),
        2 => trec::parse_pred_rels_in_trec(handed(lines.iter().cloned(), way)),
        _ => trec::parse_pred_rels_in_trec(handed(lines.iter().map(|l| std::borrow::Cow::Borrowed(l.as_str())), way)),
    };
    match (&got, &ref_run(lines)) {
        (Ok(s), Ok(want)) => {
            let want: Vec<(String, String, PredScore)> = want.iter().map(|(q, d, s)| (q.clone(), d.clone(), (*s).into())).collect();
            check_records("run", s, &want, |a, b| same_bits(a.0, b.0), w)
        }
        (Err(e), Err(bad)) => check_err("run", e, bad, w),
        (g, r) => w.fail("", format!("run: {:?}, expected {r:?}", g.as_ref().map(|_| "a store"))),
    }
    w.outcome(&got.as_ref().map(|s| s.n_docs()).map_err(std::mem::discriminant));
    w.trace();
}

/// Score texts: integers around every limit, floats of every shape, and things that are neither.
pub fn score_texts() -> Vec<String> {
    let mut v: Vec<String> = [
        "0", "-0", "+0", "1", "+1", "-1", "007", "-007", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "-4294967295", "9223372036854775808",
        "99999999999999999999999999", "1.", "1.0", ".5", "-.5", "+.5", ".", "-", "+", "--1", "+-1", "1e3", "1E3", "1e+3", "1e-3", "1e", "e1", "1e400", "-1e400", "1e-400", "0x10", "1_000", "1,5", "1f", "1.5f32",
        "inf", "-inf", "+inf", "Inf", "INF", "infinity", "Infinity", "nan", "NaN", "NAN", "-nan", "infin", "١", "１", "½", "0.1", "0.30000000000000004", "0.1000000000000000055511151231257827", "123456789.123456789", "16777217", "9007199254740993", "1e308", "1.7976931348623157e308",
        "1.7976931348623159e308", "2.2250738585072014e-308", "5e-324", "2e-324", "3e-324", "4.9406564584124654e-324", "0.333333343267440795898437500", "3.4028236e38", "3.5e38", "1e-46", "1e39", "179769313486231580793728971405301e0", "\u{feff}1", "1\u{200b}", "1\0", "\"1\"", "'1'", "1/2", "1%", "true", "null",
        "#", "",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.pop();
    for e in [-300, -40, -10, -1, 0, 5, 16, 30, 200] {
        for m in [1.0_f64, 1.1, 7.3, 9.999999999999998] {
            v.push(format!("{:e}", m * 10_f64.powi(e)));
            v.push(format!("{}", -m * 10_f64.powi(e)));
        }
    }
    v
}

/// 2^j - 1, 2^j and 2^j + 1 for j from 4 on, and the places where one column more or less crosses.
fn long_lengths(maxj: u32) -> Vec<usize> {
    let mut v = vec![];
    for j in 4..=maxj {
        for d in [-9_i64, -1, 0, 1, 7] {
            v.push(((1_i64 << j) + d) as usize);
        }
    }
    v.extend([1000, 10_000, 100_000, 1_000_000]);
    v
}

pub fn c10(cx: &mut Cx) {
    cx.rule = "state = a distinct sequence of lines; each is parsed by the real parser and compared, record by record, with an independent reader".into();
    let th = cx.thorough;
    // All sequences over an alphabet of lines.
    let qa: Vec<&str> = vec![
        "q1 0 d1 1", "q1 0 d2 2", "q2 0 d1 0", "q1 9 d1 3", "q1 0 d1 -5", "q1\t0\td3\t2147483647", "  q1 0 d1 1  ", "q1 0 d1 1.0", "q1 0 d1", "", "   ", "q1 0 d2 1 extra more", "q2 0 d2 x", "q1 0 d3 2147483648", "q1  0   d1  2", "0 q1 0 d1 1", "# comment line here 1",
    ];
    let pa: Vec<&str> = vec![
        "q1 Q0 d1 1 0.5 run", "q1 Q0 d2 2 0.5 run", "q2 Q0 d1 1 -0.25 run", "q1 X d1 7 0.5 other", "q1 Q0 d3 one 1e3", "q1\tQ0\td2\t9\t0.1000000000000000055\tr", " q1 Q0 d4 1 NaN run ", "q1 Q0 d1 1", "q1 Q0 d1 1 x run", "", "\t", "q2 Q0 d2 1 inf r e s t", "q1 Q0 d5 0.9 7 run",
        "q1 Q0 d6 1 1e400 run", "q1 Q0 d7 3 +5 run", "q1 Q0 d8 3 0,5 run",
    ];
    for (name, al, run) in [("qrels", &qa, false), ("run", &pa, true)] {
        let maxl = if th { 6 } else { 5 };
        cx.family(&format!("all {name} line sequences up to length {maxl}"), seq_count(al.len() as u64, 0, maxl), |i, w| {
            let ls: Vec<String> = seq_at(i, al.len() as u64, 0, maxl).iter().map(|&c| al[c as usize].to_string()).collect();
            w.at(|| format!("{name} lines {ls:?}"));
            if run {
                check_run(&ls, w)
            } else {
                check_qrels(&ls, w)
            }
        });
    }
    // All short score tokens in both formats.
    let sa: Vec<char> = "019+-.eEinfNa_x٣".chars().collect();
    let maxs = if th { 6 } else { 5 };
    cx.family("all short score tokens", seq_count(sa.len() as u64, 1, maxs), |i, w| {
        let t: String = seq_at(i, sa.len() as u64, 1, maxs).iter().map(|&c| sa[c as usize]).collect();
        w.at(|| format!("score {t:?}"));
        check_qrels(&[format!("q 0 d {t}")], w);
        check_run(&[format!("q 0 d 1 {t} r")], w);
    });
    // Special score tokens, before, after and among valid lines.
    let st = score_texts();
    cx.family("special score tokens x position", st.len() as u64 * 3, |i, w| {
        let mut r = Radix(i);
        let t = r.pick(&st).clone();
        let pos = r.take(3) as usize;
        w.at(|| format!("score {t:?} in line {pos}"));
        let mut q: Vec<String> = (0..3).map(|j| format!("q 0 d{j} {j}")).collect();
        q[pos] = format!("q 0 d{pos} {t}");
        check_qrels(&q, w);
        let mut p: Vec<String> = (0..3).map(|j| format!("q 0 d{j} 1 0.{j} r")).collect();
        p[pos] = format!("q 0 d{pos} {t} {t} r");
        check_run(&p, w);
        p[pos] = format!("q 0 d{pos} {t} 0.75");
        check_run(&p, w);
    });
    // Column counts x separators (Unicode white space and look-alikes that are not).
    let seps: Vec<char> = vec![' ', '\t', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2009}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{200b}', '\u{feff}', '\u{2060}', ',', ';', '|', '\0', '\n'];
    cx.family("column counts x separators x padding", 9 * seps.len() as u64 * 4 * 2, |i, w| {
        let mut r = Radix(i);
        let n = r.take(9) as usize;
        let s = *r.pick(&seps);
        let pad = r.take(4);
        let rep = r.take(2) + 1;
        let sep: String = std::iter::repeat(s).take(rep as usize).collect();
        let cols = ["7", "8", "9", "10", "11", "12", "13", "14"];
        let mut l = cols[..n.min(8)].join(&sep);
        if n == 8 {
            l = format!("7 8{sep}9 10 11");
        }
        if pad & 1 == 1 {
            l = format!("{sep}{l}");
        }
        if pad & 2 == 2 {
            l = format!("{l}{sep}");
        }
        w.at(|| format!("line {l:?}"));
        check_qrels(&[l.clone()], w);
        check_run(&[l], w);
    });
    // Ids and ignored columns of every kind; ids that are numerically or visually equal are different.
    let ids: Vec<&str> = vec!["q1", "Q1", "q01", "1", "01", "+1", "1.0", "\"q\"", "'", "\\", "é", "e\u{301}", "😀", "#", "//", "-", "null", "0x1", "q\u{200b}", "\u{7f}", "\u{1}", "a,b", "q1;"];
    let nid = ids.len() as u64;
    cx.family("pairs of ids x ignored columns", nid * nid * 3, |i, w| {
        let mut r = Radix(i);
        let (a, b) = (*r.pick(&ids), *r.pick(&ids));
        let ign = ["0", "x", b][r.take(3) as usize];
        w.at(|| format!("ids {a:?} {b:?} ignored {ign:?}"));
        let q: Vec<String> = vec![format!("{a} {ign} {b} 1"), format!("{b} {ign} {a} 2"), format!("{a} {ign} z 3")];
        check_qrels(&q, w);
        let p: Vec<String> = vec![format!("{a} {ign} {b} {ign} 1 {ign}"), format!("{b} {ign} {a} {ign} 2"), format!("{a} {ign} z 1 3 r")];
        check_run(&p, w);
    });
    // Every single mutation of a valid file: dropped, repeated, moved lines; dropped, repeated, swapped, replaced columns.
    let toks = ["0", "1", "-3", "x", "q1", "d1", "0.5", "1e2", "99999999999", "NaN"];
    let n0 = 8_usize;
    let per = 6 * (4 + toks.len() as u64 + 5);
    cx.family("every mutation of one token or line of a file", 2 * n0 as u64 * per, |i, w| {
        let mut r = Radix(i);
        let run = r.take(2) == 1;
        let li = r.take(n0 as u64) as usize;
        let col = r.take(6) as usize;
        let op = r.0 as usize;
        let mut f: Vec<Vec<String>> = (0..n0)
            .map(|j| {
                let (q, d) = (j / 3, j % 3 + 1);
                if run {
                    vec![format!("q{q}"), "Q0".into(), format!("d{d}"), format!("{}", j + 1), format!("{}.5", 9 - j as i32), "run".into()]
                } else {
                    vec![format!("q{q}"), "0".into(), format!("d{d}"), format!("{}", j as i32 - 1)]
                }
            })
            .collect();
        let c = col.min(f[li].len() - 1);
        match op {
            0 => {
                f[li].remove(c);
            }
            1 => {
                let t = f[li][c].clone();
                f[li].insert(c, t);
            }
            2 => {
                let e = (c + 1) % f[li].len();
                f[li].swap(c, e);
            }
            3 => f[li].truncate(c),
            x if x < 4 + toks.len() => f[li][c] = toks[x - 4].into(),
            x => match x - 4 - toks.len() {
                0 => {
                    f.remove(li);
                }
                1 => {
                    let l = f[li].clone();
                    f.insert((col * 2).min(f.len()), l);
                }
                2 => {
                    let l = f.remove(li);
                    f.insert(col.min(f.len()), l);
                }
                3 => f.insert(li, vec![]),
                _ => f[li] = vec!["junk".into(); col],
            },
        }
        let ls: Vec<String> = f.iter().map(|l| l.join(if col % 2 == 0 { " " } else { "\t" })).collect();
        w.at(|| format!("{ls:?}"));
        if run {
            check_run(&ls, w)
        } else {
            check_qrels(&ls, w)
        }
    });
    // Long files with one defect at every position.
    let n = if th { 5000 } else { 1500_u64 };
    cx.family("long files with one defect", 4 * (n + 1), |i, w| {
        let mut r = Radix(i);
        let kind = r.take(4);
        let at = r.take(n + 1) as usize; // n: no defect
        w.at(|| format!("{n} lines, defect {kind} at {at}"));
        let mut q = vec![];
        let mut p = vec![];
        for j in 0..n as usize {
            let (mut a, mut b) = (format!("q{} 0 d{} {}", j % 7, j, j % 4), format!("q{} Q0 d{} {} {}.25 run", j % 7, j, j, n as usize - j));
            if j == at {
                match kind {
                    0 => (a, b) = (String::new(), " ".into()),
                    1 => (a, b) = (format!("q{} 0 d{} one", j % 7, j), format!("q{} Q0 d{} 1 one run", j % 7, j)),
                    2 => {
                        let e = (j + 7 * (1 + j % 5)) % (n as usize - n as usize % 7);
                        (a, b) = (format!("q{} 0 d{e} 1", e % 7), format!("q{} Q0 d{e} 1 1 run", e % 7));
                    }
                    _ => (a, b) = (format!("q{} 0 d{}", j % 7, j), format!("q{} Q0 d{} 1", j % 7, j)),
                }
            }
            q.push(a);
            p.push(b);
        }
        check_qrels(&q, w);
        check_run(&p, w);
    });
    // Every character of Unicode, at every place in a line.
    let step = 32_u32;
    cx.family("every Unicode scalar value", (0x11_0000 / step) as u64, |i, w| {
        w.state(&("char", i));
        for c in (i as u32 * step..(i as u32 + 1) * step).filter_map(char::from_u32) {
            w.at(|| format!("character {c:?}"));
            let q = [format!("{c}q 0 d{c} 1"), format!("q 0 d 2{c}"), format!("q{c}q {c} {c}d 2"), format!("{c} 0 {c} 3")];
            let p = [format!("{c}q 0 d{c} 1 0.5 r"), format!("q 0 d 1 2{c} {c}"), format!("q{c}q {c} {c}d {c} 2 r"), format!("{c} 0 {c} 3 1.5{c}")];
            for l in &q {
                match (&trec::parse_true_rels_in_trec([l]), &ref_qrels(&[l.clone()])) {
                    (Ok(s), Ok(want)) => w.check(s.n_docs() == want.len() && want.iter().all(|(q, d, v)| s.get_score(q.as_str(), d.as_str()) == Some(v)), || format!("{l:?} is read as {:?}, expected {want:?}", s.records())),
                    (Err(e), Err(bad)) => check_err("qrels", e, bad, w),
                    (g, r) => w.fail("", format!("{l:?}: {:?}, expected {r:?}", g.as_ref().map(|s| s.records()))),
                }
            }
            for l in &p {
                match (&trec::parse_pred_rels_in_trec([l]), &ref_run(&[l.clone()])) {
                    (Ok(s), Ok(want)) => w.check(s.n_docs() == want.len() && want.iter().all(|(q, d, v)| s.get_score(q.as_str(), d.as_str()).is_some_and(|x| x.0 == *v)), || format!("{l:?} is read as {:?}, expected {want:?}", s.records())),
                    (Err(e), Err(bad)) => check_err("run", e, bad, w),
                    (g, r) => w.fail("", format!("{l:?}: {:?}, expected {r:?}", g.as_ref().map(|s| s.records()))),
                }
            }
            w.ops(8);
        }
        w.trace();
    });
    // Long ids, columns, paddings and lines: lengths around every power of two.
    let lens = long_lengths(if th { 22 } else { 20 });
    let lens = &lens;
    cx.family("long ids, columns and lines", lens.len() as u64 * 8, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(lens);
        let at = r.take(8) as usize;
        w.at(|| format!("{n} characters at place {at}"));
        w.state(&("len", i));
        let x = |k: usize, s: &str| if at == k { format!("{}{s}", "x".repeat(n)) } else { s.to_string() };
        let pad = if at == 4 { " ".repeat(n) } else { String::new() };
        let gap = if at == 5 { "\t".repeat(n) } else { " ".into() };
        let score = if at == 6 { format!("{}7", "0".repeat(n)) } else { "7".into() };
        let tail = match at {
            7 => " t".repeat(n / 2 + 1),
            _ => String::new(),
        };
        let lines = [format!("{pad}{}{gap}{} {}{gap}{score}{pad}", x(0, "q"), x(1, "0"), x(2, "d")), format!("{pad}{}{gap}{} {} 1{tail}", x(0, "q"), x(1, "0"), x(2, "e"))];
        check_qrels(&lines, w);
        let lines = [format!("{pad}{}{gap}{} {}{gap}{} {score}{pad}", x(0, "q"), x(1, "0"), x(2, "d"), x(3, "1")), format!("{pad}{}{gap}{} {} 1 0.5{tail} {}", x(0, "q"), x(1, "0"), x(2, "e"), x(3, "r"))];
        check_run(&lines, w);
    });
    // Line counts around the 16-bit limit, with a defect in the last line or none.
    let counts: &[usize] = if th { &[32_769, 65_535, 65_536, 65_537, 131_073, 500_000] } else { &[32_769, 65_535, 65_536, 65_537] };
    let offs: Vec<usize> = (0..if th { 1100 } else { 300 }).chain([511_usize, 512, 1023, 1024, 4095, 4096].iter().flat_map(|&b| b - 4..b + 4)).collect();
    let offs = &offs;
    cx.family("wide characters at every byte of a line", offs.len() as u64 * 3, |i, w| {
        let mut r = Radix(i);
        let (n, c) = (*r.pick(offs), *r.pick(&["é", "漢", "😀"]));
        let word = format!("{}{}", "x".repeat(n), c.repeat(3));
        w.at(|| format!("{n} letters and {c:?}"));
        for line in [word.clone(), format!("q 0 {word}"), format!("q 0 d {word}"), format!("q {word} d 1 {word}"), format!("{word} 0 d 1 1.5"), format!("q 0 {word} 1 1.5 {word}")] {
            check_qrels(&[line.clone()], w);
            check_run(&[line.clone()], w);
        }
    });
    let huge: &[usize] = if th { &[4_194_305, 2_097_153, 1_048_577, 524_289] } else { &[1_048_577] };
    cx.family("millions of lines", huge.len() as u64 * 2, |i, w| {
        let mut r = Radix(i);
        let run = r.take(2) == 1;
        let n = *r.pick(huge);
        w.at(|| format!("{n} lines, run {run}"));
        if run {
            check_run(&(0..n).map(|j| format!("q{} Q0 d{} {j} {}.25 r", j % 1000, j / 1000, n - j)).collect::<Vec<_>>(), w);
        } else {
            check_qrels(&(0..n).map(|j| format!("q{} 0 d{} {}", j % 1000, j / 1000, j % 4)).collect::<Vec<_>>(), w);
        }
    });
    cx.family("line counts around the 16-bit limit", counts.len() as u64 * 3 * 3, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(counts);
        let nq = [1, 100, n][r.take(3) as usize];
        let kind = r.take(3);
        w.at(|| format!("{n} lines, {nq} queries, last line {}", ["good", "short", "repeated"][kind as usize]));
        let (mut q, mut p): (Vec<String>, Vec<String>) = (0..n).map(|j| (format!("q{} 0 d{} {}", j % nq, j / nq, j % 4), format!("q{} Q0 d{} {j} {}.25 r", j % nq, j / nq, n - j))).unzip();
        match kind {
            1 => {
                q.push("q 0 d".into());
                p.push("q 0 d 1".into());
            }
            2 => {
                q.push(q[n / 3].clone());
                p.push(p[n / 3].clone());
            }
            _ => {}
        }
        check_qrels(&q, w);
        check_run(&p, w);
    });
    // Doubles written with 17 digits are read back to the very same bits.
    let nd = if th { 4_000_000 } else { 400_000_u64 };
    cx.family("doubles of every exponent at full precision", nd, |i, w| {
        let e = i % 2048;
        let m = [0_u64, 1, (1 << 52) - 1, 0x5555_5555_5555, 0x8_0000_0000_0000, 3, 0x1234_5678_9abc][(i / 2048 % 7) as usize].wrapping_add((i / 14336).wrapping_mul(0x9e37_79b9_7f4a)) & ((1 << 52) - 1);
        let x = f64::from_bits(((i / 1024 % 2) << 63) | (e.min(2046) << 52) | m);
        let s = if i % 3 == 0 { format!("{x:.16e}") } else { format!("{x}") };
        w.at(|| format!("{s}"));
        w.op();
        w.state(&x.to_bits());
        let st = trec::parse_pred_rels_in_trec([format!("q Q0 d 1 {s} r")]);
        match st {
            Ok(st) => {
                let got = st.get_score("q", "d").map(|v| v.0.to_bits());
                w.check(got == Some(x.to_bits()), || format!("{s} is read as {got:x?}, expected {:x}", x.to_bits()));
            }
            Err(e) => w.fail("", format!("{s}: {e:?}")),
        }
        w.trace();
    });
    cx.assume("the decimal value of a run score is the standard library's correctly rounded parse; when a file has defects of both kinds, either error kind is accepted");
    cx.bound("all line sequences up to length 5 (6) over 17 qrels and 16 run lines; all score tokens up to 5 (6) characters over 16 symbols; 150 special tokens; 0-8 columns with 23 separators; all id pairs of 23; every one-token or one-line mutation of an 8-line file; a defect at every position of a 1500 (5000) line file; 400000 (4000000) doubles over all exponents; every Unicode scalar value at 14 places of a line; ids, columns, paddings and tails of lengths around 2^4 to 2^20 (2^22); files of 32769 to 65537 (500000) lines and of 1048577 (4194305)");
}

// ---------------------------------------------------------------- C11

fn read_jsonl(bytes: &[u8]) -> Result<Vec<(String, String, String)>, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line is not terminated".into());
    }
    let mut out = vec![];
    for (n, l) in text.split_terminator('\n').enumerate() {
        let v = json::parse(l).map_err(|e| format!("line {}: {e}: {l:?}", n + 1))?;
        let json::J::Obj(o) = v else { return Err(format!("line {}: not an object", n + 1)) };
        let get = |k: &str| -> Vec<&json::J> { o.iter().filter(|(n, _)| n == k).map(|(_, v)| v).collect() };
        match (get("query_id")[..].first(), get("doc_id")[..].first(), get("score")[..].first(), o.len()) {
            (Some(json::J::Str(q)), Some(json::J::Str(d)), Some(json::J::Num(s)), 3) => out.push((q.clone(), d.clone(), s.clone())),
            _ => return Err(format!("line {}: not a record: {l:?}", n + 1)),
        }
    }
    Ok(out)
}

/// Runs the converter on the lines and compares output and status with the reference reader.
fn convert(file: &[u8], run: bool, w: &mut W) {
    let sc = Scratch::new();
    let inp = sc.file("in.trec", file);
    let out = sc.path("out.jsonl");
    let kind = if run { "pred" } else { "true" };
    // An older file may be there already.
    match file.len() % 3 {
        0 => drop(sc.file("out.jsonl", b"{\"old\":1}\n".repeat(1000 + file.len()))),
        1 => drop(sc.file("out.jsonl", "x")),
        _ => {}
    }
    w.op();
    w.state(&(file, run));
    let r = crate::cli::run("elinor-convert", &["-i", inp.to_str().unwrap(), "-o", out.to_str().unwrap(), "-r", kind]);
    w.trace();
    w.outcome(&(r.ok, r.status.clone()));
    // What the library says about the same lines.
    let lines: Option<Vec<String>> = std::str::from_utf8(file).ok().map(|t| t.lines().map(str::to_string).collect());
    let lib = lines.as_ref().map(|l| if run { trec::parse_pred_rels_in_trec(l).map(|_| ()) } else { trec::parse_true_rels_in_trec(l).map(|_| ()) });
    if r.ok && !matches!(lib, Some(Ok(()))) {
        w.fail("", format!("the converter succeeds on a file the library refuses: {lib:?}"));
        return;
    }
    let lines = lines.unwrap_or_default();
    let bad = lib.is_none();
    let bytes = std::fs::read(&out).unwrap_or_default();
    if run {
        let want = ref_run(&lines);
        let fine = matches!(&want, Ok(v) if !bad && v.iter().all(|r| r.2.is_finite()));
        if !fine {
            w.check(!r.ok, || format!("the converter succeeds, but the file {}", if want.is_ok() { "has a score JSON cannot hold" } else { "is malformed" }));
            return;
        }
        if !r.ok {
            w.fail("", format!("the converter fails ({}) on a valid file: {}", r.status, r.err));
            return;
        }
        let want: BTreeMap<(String, String), f64> = want.unwrap().into_iter().map(|(q, d, s)| ((q, d), s)).collect();
        match read_jsonl(&bytes) {
            Err(e) => w.fail("", format!("output is not JSONL: {e}")),
            Ok(got) => {
                w.check(got.len() == want.len(), || format!("{} records in the output, {} in the input", got.len(), want.len()));
                for (q, d, s) in got {
                    let g: f64 = s.parse().unwrap_or(f64::NAN);
                    match want.get(&(q.clone(), d.clone())) {
                        Some(x) => w.check(g.to_bits() == x.to_bits(), || format!("record ({q:?}, {d:?}) has score {s}, the input has {x:?}")),
                        None => w.fail("", format!("record ({q:?}, {d:?}) is not in the input")),
                    }
                }
            }
        }
    } else {
        let want = ref_qrels(&lines);
        let Some(want) = want.ok().filter(|_| !bad) else {
            w.check(!r.ok, || "the converter succeeds on a malformed file".to_string());
            return;
        };
        if !r.ok {
            w.fail("", format!("the converter fails ({}) on a valid file: {}", r.status, r.err));
            return;
        }
        let want: BTreeMap<(String, String), u32> = want.into_iter().map(|(q, d, s)| ((q, d), s)).collect();
        match read_jsonl(&bytes) {
            Err(e) => w.fail("", format!("output is not JSONL: {e}")),
            Ok(got) => {
                w.check(got.len() == want.len(), || format!("{} records in the output, {} in the input", got.len(), want.len()));
                for (q, d, s) in got {
                    let ok = want.get(&(q.clone(), d.clone())).is_some_and(|x| s.parse::<u32>() == Ok(*x));
                    w.check(ok, || format!("record ({q:?}, {d:?}) with score {s}: the input has {:?}", want.get(&(q.clone(), d.clone()))));
                }
            }
        }
        // Read back through the library's own records.
        let back: Result<Vec<Record<String, TrueScore>>, _> = std::str::from_utf8(&bytes).unwrap_or("").lines().map(serde_json::from_str).collect();
        match back {
            Ok(v) => {
                let st = TrueRelStore::from_records(v);
                let orig = trec::parse_true_rels_in_trec(&lines).unwrap();
                w.check(st.as_ref().is_ok_and(|s| s.records() == orig.records()), || "the store read back differs from the original".to_string());
            }
            Err(e) => w.fail("", format!("the output cannot be read back as records: {e}")),
        }
        return;
    }
    let back: Result<Vec<Record<String, PredScore>>, _> = std::str::from_utf8(&bytes).unwrap_or("").lines().map(serde_json::from_str).collect();
    match back {
        Ok(v) => {
            let st = PredRelStore::from_records(v);
            let orig = trec::parse_pred_rels_in_trec(&lines).unwrap();
            match st {
                Ok(st) => {
                    if st.records().len() != orig.records().len() {
                        w.fail("", "the store read back has other records".to_string());
                    }
                    for (a, b) in orig.records().iter().zip(st.records()) {
                        if a.query_id != b.query_id || a.doc_id != b.doc_id {
                            w.fail("", format!("read back {b:?} instead of {a:?}"));
                        } else if a.score.0.to_bits() != b.score.0.to_bits() {
                            let (x, y) = (a.score.0, b.score.0);
                            // serde_json's default number reader may be off by one unit in the last place.
                            let ulp = (x.to_bits() as i128 - y.to_bits() as i128).abs();
                            let key = if ulp <= 1 { format!("readback-{x:?}") } else { String::new() };
                            w.fail(&key, format!("score {x:?} is read back as {y:?}"));
                        }
                    }
                }
                Err(e) => w.fail("", format!("the records read back are refused: {e:?}")),
            }
        }
        Err(e) => w.fail("", format!("the output cannot be read back as records: {e}")),
    }
}

/// Scores that serde_json reads exactly even in its fast mode: few digits, small exponents.
fn short_scores() -> Vec<String> {
    let mut v: Vec<String> = ["0", "-0", "-0.0", "1", "-1", "0.5", "-0.25", "1e3", "1.5e-5", "123456.789", "-98765.4321", "1000000", "9007199254740991", "0.1", "0.2", "0.3", "+7", "7.", ".5", "1e15", "1E2", "2147483648", "0.000001"].iter().map(|s| s.to_string()).collect();
    for i in 0..200 {
        v.push(format!("{}.{:03}", i * 37 % 41, i * 631 % 1000));
    }
    v
}

pub fn c11(cx: &mut Cx) {
    cx.rule = "state = a distinct input file; the real elinor-convert runs on each, its output is read by an independent JSON reader and compared record by record".into();
    let th = cx.thorough;
    // Every id of up to two symbols from an alphabet of JSON troublemakers, as query and as document.
    let mut al: Vec<String> = (1..=8_u32).chain(14..=31).map(|c| char::from_u32(c).unwrap().to_string()).collect();
    for c in ["\"", "\\", "/", "'", "{", "}", "[", ":", ",", "\u{7f}", "\u{80}", "é", "e\u{301}", "漢", "😀", "\u{feff}", "\u{200b}", "\u{ffff}", "\u{10ffff}", "a", "n", "u", "0", "%", "&", "<", "\0"] {
        al.push(c.to_string());
    }
    let na = al.len() as u64;
    let al = &al;
    cx.family("all ids of up to two symbols", 2 * (na + 1), |i, w| {
        let mut r = Radix(i);
        let run = r.take(2) == 1;
        let first = if r.0 == na { String::new() } else { al[r.0 as usize].clone() };
        let mut f = String::new();
        for b in al {
            for (q, d) in [(format!("{first}{b}"), "d".to_string()), ("q".into(), format!("{first}{b}")), (format!("{first}{b}"), format!("{b}{first}"))] {
                if run {
                    f += &format!("{q} Q0 {d} 1 0.25 r\n");
                } else {
                    f += &format!("{q} 0 {d} 3\n");
                }
            }
        }
        w.at(|| format!("ids beginning with {first:?}, run {run}"));
        convert(f.as_bytes(), run, w);
    });
    // Every special score alone and among other records.
    let st = score_texts();
    cx.family("special score tokens", st.len() as u64 * 2, |i, w| {
        let mut r = Radix(i);
        let run = r.take(2) == 1;
        let s = &st[r.0 as usize];
        w.at(|| format!("score {s:?}, run {run}"));
        let f = if run { format!("q Q0 a 1 1 r\nq Q0 b 1 {s} r\nq Q0 c 1 0.5 r\n") } else { format!("q 0 a 1\nq 0 b {s}\nq 0 c 2\n") };
        convert(f.as_bytes(), run, w);
    });
    // Files: endings, blank lines, encodings, sizes around the writer's buffer, duplicates.
    let mut files: Vec<(Vec<u8>, bool)> = vec![];
    for run in [false, true] {
        let line = |j: usize| if run { format!("q{} Q0 d{j} 1 {}.5 r", j % 3, j) } else { format!("q{} 0 d{j} {}", j % 3, j % 4) };
        for t in ["", "\n", " \n", "junk\n", "\u{feff}", "\r\n"] {
            files.push((t.as_bytes().to_vec(), run));
        }
        for n in [1, 2, 3, 100, 140, 150, 160, 200, 1000] {
            let ls: Vec<String> = (0..n).map(line).collect();
            for sep in ["\n", "\r\n"] {
                files.push((ls.join(sep).into_bytes(), run));
                files.push((format!("{}{sep}", ls.join(sep)).into_bytes(), run));
                files.push((format!("{}{sep}{sep}", ls.join(sep)).into_bytes(), run));
            }
            let mut dup = ls.clone();
            dup.push(line(0));
            files.push((dup.join("\n").into_bytes(), run));
            let mut bad = ls.join("\n").into_bytes();
            bad.extend(b"\nq 0 \xff 1 1 r");
            files.push((bad, run));
        }
        let mut long = String::new();
        for n in [1_usize, 100, 4000, 8150, 8192, 20000] {
            long += &line(n).replace("d", &"d".repeat(n));
            long.push('\n');
        }
        files.push((long.into_bytes(), run));
    }
    let files = &files;
    cx.family("file shapes and sizes", files.len() as u64, |i, w| {
        let (f, run) = &files[i as usize];
        w.at(|| format!("file of {} bytes, run {run}: {:?}...", f.len(), String::from_utf8_lossy(&f[..f.len().min(120)])));
        convert(f, *run, w);
    });
    // Long ids and lines, and many lines: lengths around every power of two.
    let lens = long_lengths(if th { 22 } else { 20 });
    let lens = &lens;
    cx.family("long ids and lines", lens.len() as u64 * 2 * 4, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(lens);
        let run = r.take(2) == 1;
        let at = r.take(4);
        w.at(|| format!("{n} characters at place {at}, run {run}"));
        let long = if at == 3 { "é".repeat(n / 2) } else { "x".repeat(n) };
        let (q, z, d) = match at {
            0 => (long, "0".to_string(), "d".to_string()),
            2 => ("q".to_string(), long, "d".to_string()),
            _ => ("q".to_string(), "0".to_string(), long),
        };
        let f = if run { format!("{q} {z} {d} 1 0.5 r\n{q} {z} {d}2 2 0.25 r\nz 0 z 1 1 r\n") } else { format!("{q} {z} {d} 1\n{q} {z} {d}2 2\nz 0 z 3\n") };
        convert(f.as_bytes(), run, w);
    });
    let counts: &[usize] = if th { &[4096, 4097, 32_769, 65_535, 65_536, 65_537, 131_073, 300_000] } else { &[4097, 65_535, 65_536, 65_537] };
    // The largest first: they take longest.
    let huge: &[usize] = if th { &[2_097_153, 1_048_577, 524_289] } else { &[1_048_577] };
    cx.family("millions of lines", huge.len() as u64 * 2, |i, w| {
        let mut r = Radix(i);
        let run = r.take(2) == 1;
        let n = *r.pick(huge);
        w.at(|| format!("{n} lines, run {run}"));
        let mut f = String::with_capacity(n * 24);
        for j in 0..n {
            use std::fmt::Write;
            if run { writeln!(f, "q{} Q0 d{} {j} {}.25 r", j % 1000, j / 1000, n - j) } else { writeln!(f, "q{} 0 d{} {}", j % 1000, j / 1000, j % 4) }.unwrap();
        }
        convert(f.as_bytes(), run, w);
    });
    cx.family("line counts around the 16-bit limit", counts.len() as u64 * 2 * 3, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(counts);
        let run = r.take(2) == 1;
        let nq = [1, 100, n][r.take(3) as usize];
        w.at(|| format!("{n} lines, {nq} queries, run {run}"));
        let f: String = (0..n).map(|j| if run { format!("q{} Q0 d{} {j} {}.25 r\n", j % nq, j / nq, n - j) } else { format!("q{} 0 d{} {}\n", j % nq, j / nq, j % 4) }).collect();
        convert(f.as_bytes(), run, w);
    });
    // All rankings of four documents over a small score set, ties included: the read-back ranking is the original one.
    let ss = short_scores();
    let ss = &ss;
    cx.family("score texts in one file", if th { 400 } else { 40 }, |i, w| {
        let mut f = String::new();
        for (j, s) in ss.iter().enumerate() {
            for q in 0..4 {
                f += &format!("q{q} Q0 d{} 1 {} r\n", (j * 7 + q * 31 + i as usize) % 997 * 1000 + j, if q % 2 == 0 { s.clone() } else { format!("-{}", s.trim_start_matches(['+', '-'])) });
            }
        }
        w.at(|| "file of all short score texts".to_string());
        convert(f.as_bytes(), true, w);
    });
    // Paths that cannot be read or written, and unknown kinds.
    cx.family("unreadable inputs and uncreatable outputs", 10, |i, w| {
        let sc = Scratch::new();
        let inp = sc.file("in.trec", "q 0 d 1 1 r\n");
        let (a, b) = (inp.to_str().unwrap().to_string(), sc.path("out").to_str().unwrap().to_string());
        let dir = sc.0.to_str().unwrap().to_string();
        let args: Vec<String> = match i {
            0 => vec!["-i".into(), format!("{dir}/none"), "-o".into(), b, "-r".into(), "true".into()],
            1 => vec!["-i".into(), dir, "-o".into(), b, "-r".into(), "true".into()],
            2 => vec!["-i".into(), a, "-o".into(), format!("{dir}/no/out"), "-r".into(), "true".into()],
            3 => vec!["-i".into(), a, "-o".into(), dir, "-r".into(), "pred".into()],
            4 => vec!["-i".into(), a, "-o".into(), b, "-r".into(), "True".into()],
            5 => vec!["-i".into(), a, "-o".into(), b, "-r".into(), "".into()],
            6 => vec!["-i".into(), a, "-o".into(), b],
            7 => vec!["-i".into(), a, "-r".into(), "true".into()],
            8 => vec!["-o".into(), b, "-r".into(), "true".into()],
            _ => vec!["-i".into(), a, "-o".into(), b, "-r".into(), "trues".into()],
        };
        w.at(|| format!("{args:?}"));
        w.op();
        w.state(&i);
        let r = crate::cli::run("elinor-convert", &args);
        w.check(!r.ok, || "exit status 0".to_string());
        w.trace();
    });
    // Names and places of both files, and the surroundings of the process.
    let nms = odd_names();
    let nms = &nms;
    cx.family("file names and places", nms.len() as u64 * PLACES * 4, |i, w| {
        let mut r = Radix(i);
        let (run, odd_out, how, n) = (r.take(2) == 1, r.take(2) == 1, r.take(PLACES), r.pick(nms));
        let lines = if run { "q Q0 a 1 0.5 r\nq Q0 b 1 2 r\np Q0 a 1 -1 r\n" } else { "q 0 a 1\nq 0 b 0\np 0 a 3\n" };
        w.at(|| format!("{:?} as the {} of a {}, place {how}", String::from_utf8_lossy(n), if odd_out { "output" } else { "input" }, if run { "run" } else { "qrels file" }));
        w.state(&("names", i));
        let sc = Scratch::new();
        let (Some((ia, ir)), Some((oa, or))) = (place(&sc, if odd_out { b"in.trec" } else { n }, how), place(&sc, if odd_out { n } else { b"out.jsonl" }, how)) else { return };
        std::fs::write(&ir, lines).expect("scratch file");
        w.op();
        let kind = if run { "pred" } else { "true" };
        let r = run_in(&sc, "elinor-convert", 1, SURROUNDINGS[i as usize % SURROUNDINGS.len()], &["-i".into(), ia, "-o".into(), oa, "-r".into(), std::ffi::OsString::from(kind)]);
        w.trace();
        w.check(r.ok, || format!("fails with {}: {}", r.status, r.err.chars().take(300).collect::<String>()));
        let got = std::fs::read(&or).map_err(|e| e.to_string()).and_then(|b| read_jsonl(&b));
        let mut got: Vec<(String, String, f64)> = got.unwrap_or_default().into_iter().map(|(q, d, s)| (q, d, s.parse().unwrap_or(f64::NAN))).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let want: Vec<(String, String, f64)> = (if run { [("p", "a", -1.0), ("q", "a", 0.5), ("q", "b", 2.0)] } else { [("p", "a", 3.0), ("q", "a", 1.0), ("q", "b", 0.0)] }).iter().map(|(q, d, s)| (q.to_string(), d.to_string(), *s)).collect();
        w.check(got == want, || format!("the output holds {got:?}, expected {want:?}"));
    });
    // Pipes in place of files.
    let mut ps = vec![];
    let qrels = "q\u{e9} 0 \u{6f22} 1\nq 0\tb  2 \r\nq 0 \u{1f600} 0";
    let run = "q\u{e9} Q0 \u{6f22} 1 1e-3 r\nq Q0\tb  2 -7 \u{e9}\r\nq Q0 \u{1f600} 0 3.25 r\n";
    let long: String = (0..if th { 60 } else { 12 }).map(|j| format!("q{} Q0 d{j} {j} {}.5 run\n", j / 5, 100 - j)).collect();
    for (kind, t) in [("true", qrels.to_string()), ("true", format!("{qrels}\nq 0 b 1\n")), ("pred", run.to_string()), ("pred", format!("{run}q Q0\n")), ("pred", long), ("true", String::new()), ("true", format!("a 0 {} 1\n", "x".repeat(150)))] {
        ps.push(crate::piped::Piped { bin: "elinor-convert", files: vec![("in", t)], args: ["-i", "@/in", "-o", "%out", "-r", kind].map(str::to_string).to_vec() });
    }
    crate::piped::pipes(cx, "inputs out of pipes, cut everywhere, outputs into pipes", &ps);
    // The output is the input: under one name, or under two.
    let sizes = [0_usize, 1, 2, 60, 400, 1500, 20_000];
    cx.family("a file converted in place", sizes.len() as u64 * 2 * 6 * 2, |i, w| {
        let mut r = Radix(i);
        let (n, run, how, bad) = (*r.pick(&sizes), r.take(2) == 1, r.take(6), r.take(2) == 1);
        w.at(|| format!("{n} records, run {run}, the output named in way {how}, malformed last line: {bad}"));
        w.state(&("in place", i));
        let sc = Scratch::new();
        let mut f: String = (0..n).map(|j| if run { format!("q{} Q0 d{j} 1 {}.5 r\n", j / 9, n - j) } else { format!("q{} 0 d{j} {}\n", j / 9, j % 3) }).collect();
        if bad {
            f += "q\n";
        }
        let inp = sc.file("data", &f);
        let out = match how {
            0 => inp.clone(),
            1 => sc.0.join("./data"),
            2 => {
                std::os::unix::fs::symlink(&inp, sc.path("link")).expect("scratch link");
                sc.path("link")
            }
            3 => {
                std::fs::hard_link(&inp, sc.path("hard")).expect("scratch link");
                sc.path("hard")
            }
            4 => sc.0.join("..").join(sc.0.file_name().unwrap()).join("data"),
            _ => "data".into(),
        };
        w.op();
        let r = run_in(&sc, "elinor-convert", 1, &[], &["-i", inp.to_str().unwrap(), "-o", out.to_str().unwrap(), "-r", if run { "pred" } else { "true" }]);
        w.trace();
        if bad {
            w.check(!r.ok, || "exit status 0".to_string());
            return;
        }
        w.check(r.ok, || format!("fails with {}: {}", r.status, r.err.chars().take(300).collect::<String>()));
        let mut got = read_jsonl(&std::fs::read(&inp).unwrap_or_default()).map(|v| v.into_iter().map(|(q, d, s)| (q, d, s.parse().unwrap_or(f64::NAN))).collect::<Vec<(String, String, f64)>>()).unwrap_or_default();
        let mut want: Vec<(String, String, f64)> = (0..n).map(|j| (format!("q{}", j / 9), format!("d{j}"), if run { (n - j) as f64 + 0.5 } else { (j % 3) as f64 })).collect();
        for v in [&mut got, &mut want] {
            v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        }
        w.check(got == want, || format!("the file holds {} records, {n} are expected; the first that differ: {:?}", got.len(), got.iter().zip(&want).find(|(a, b)| a != b)));
    });
    // One output file written several times.
    let sizes = [1_usize, 2, 7, 60, 400, 1500];
    cx.family("the same output file written three times", 6 * 6 * 6 * 8, |i, w| {
        let mut r = Radix(i);
        let v: Vec<(usize, bool)> = (0..3).map(|_| (*r.pick(&sizes), r.take(2) == 1)).collect();
        w.at(|| format!("(records, run) {v:?}"));
        w.state(&v);
        let sc = Scratch::new();
        let out = sc.path("out.jsonl");
        for &(n, run) in &v {
            let f: String = (0..n).map(|j| if run { format!("q{} Q0 d{j} 1 {}.5 r\n", j / 9, n - j) } else { format!("q{} 0 d{j} {}\n", j / 9, j % 3) }).collect();
            let inp = sc.file("in", &f);
            w.op();
            let r = crate::cli::run("elinor-convert", &["-i", inp.to_str().unwrap(), "-o", out.to_str().unwrap(), "-r", if run { "pred" } else { "true" }]);
            w.check(r.ok, || format!("fails with {}", r.status));
            let got = read_jsonl(&std::fs::read(&out).unwrap_or_default());
            w.check(got.as_ref().is_ok_and(|g| g.len() == n), || format!("{n} records expected, the output has {:?}", got.as_ref().map(|g| g.len())));
        }
        w.trace();
    });
    // Library records through JSON, several key types; numbers compared by an exact reader.
    let vals: Vec<f64> = {
        let mut v = vec![0.0, -0.0, 1.0, 0.1, 1e-7, 1e21, 5e-324, f64::MAX, f64::MIN_POSITIVE, 0.1 + 0.2];
        for i in 0..if th { 200_000 } else { 20_000 } {
            v.push((i as f64 * 0.37 - 31.0) / 7.0);
        }
        v
    };
    cx.family("records through serde", vals.len() as u64, |i, w| {
        let x = vals[i as usize];
        w.ops(4);
        w.state(&x.to_bits());
        w.at(|| format!("score {x:?}"));
        let r = Record { query_id: al[i as usize % al.len()].clone(), doc_id: format!("d\"{i}\\"), score: PredScore::from(x) };
        let t = serde_json::to_string(&r).unwrap();
        match read_jsonl(format!("{t}\n").as_bytes()) {
            Ok(v) => w.check(v.len() == 1 && v[0].0 == r.query_id && v[0].1 == r.doc_id && v[0].2.parse::<f64>().map(f64::to_bits) == Ok(x.to_bits()), || format!("serialised as {t}")),
            Err(e) => w.fail("", format!("{e}: {t}")),
        }
        let g = (i as u32).wrapping_mul(0x9e37_79b9);
        let r2 = Record { query_id: i as u32, doc_id: g, score: g };
        let t2 = serde_json::to_string(&r2).unwrap();
        w.check(serde_json::from_str::<Record<u32, u32>>(&t2).ok() == Some(r2), || format!("{t2} is not read back"));
        let r3 = Record { query_id: r.query_id.clone(), doc_id: r.doc_id.clone(), score: g };
        let t3 = serde_json::to_string(&r3).unwrap();
        w.check(serde_json::from_str::<Record<String, TrueScore>>(&t3).ok() == Some(r3), || format!("{t3} is not read back"));
        // Field order and unknown layout: fields are found by name.
        let q = serde_json::to_string(&r.query_id).unwrap();
        let t4 = format!("{{\"score\": {g}, \"doc_id\": \"x\", \"query_id\": {q}}}");
        let b4 = serde_json::from_str::<Record<String, TrueScore>>(&t4).ok();
        w.check(b4.is_some_and(|b| b.query_id == r.query_id && b.doc_id == "x" && b.score == g), || format!("{t4} is read wrongly"));
        w.trace();
    });
    cx.assume("JSON numbers denote their correctly rounded double; serde_json's own number reader is a dependency (see the known findings)");
    cx.bound("every id of one or two symbols out of 53 as query and document; 150 score texts; file shapes up to 40 kB; ids and columns of lengths around 2^4 to 2^20 (2^22); files of 65537 (300000) and 1048577 (2097153) lines; inputs out of pipes cut at every byte, outputs into pipes; files of up to 20000 records converted in place under 6 namings; 223 short score texts in four queries; 64 file names in 7 places as input and output in 12 surroundings; 10 path or argument faults; 20010 (200010) records through serde");
}

// ---------------------------------------------------------------- C12

pub fn c12(cx: &mut Cx) {
    cx.rule = "state = a distinct list of key sets; the real pairing runs on each and is compared with pairing by key".into();
    let th = cx.thorough;
    fn check<K: Ord + Clone + std::fmt::Display + std::fmt::Debug>(maps: &[BTreeMap<K, f64>], w: &mut W) {
        w.op();
        let same = maps.windows(2).all(|m| m[0].len() == m[1].len() && m[0].keys().all(|k| m[1].contains_key(k)));
        let want: Option<Vec<Vec<f64>>> = (same && !maps.is_empty()).then(|| {
            let mut keys: Vec<&K> = maps[0].keys().collect();
            keys.sort();
            keys.into_iter().map(|k| maps.iter().map(|m| m[k]).collect()).collect()
        });
        let bits = |v: &Vec<Vec<f64>>| -> Vec<Vec<u64>> { v.iter().map(|t| t.iter().map(|x| x.to_bits()).collect()).collect() };
        let got = tuples_from_maps(handed(maps.iter(), maps.iter().fold(maps.len(), |a, m| a.wrapping_mul(3).wrapping_add(m.len())) as u64));
        match (&got, &want) {
            (Ok(g), Some(x)) => w.check(bits(g) == bits(x), || format!("tuples {g:?}, expected {x:?}")),
            (Err(ElinorError::InvalidArgument(_)), None) => {}
            // No maps: an empty list of tuples would be as good as an error.
            (Ok(g), None) if maps.is_empty() && g.is_empty() => {}
            (g, x) => w.fail("", format!("tuples_from_maps gives {g:?}, expected {x:?} (None: an invalid-argument error)")),
        }
        w.outcome(&got.as_ref().ok().map(bits));
        if maps.len() == 2 {
            w.op();
            let got = pairs_from_maps(&maps[0], &maps[1]);
            let wantp = want.map(|v| v.iter().map(|t| vec![t[0], t[1]]).collect::<Vec<_>>());
            match (&got, &wantp) {
                (Ok(g), Some(x)) => {
                    let g: Vec<Vec<f64>> = g.iter().map(|p| vec![p.0, p.1]).collect();
                    w.check(bits(&g) == bits(x), || format!("pairs {g:?}, expected {x:?}"));
                }
                (Err(ElinorError::InvalidArgument(_)), None) => {}
                (g, x) => w.fail("", format!("pairs_from_maps gives {g:?}, expected {x:?} (None: an invalid-argument error)")),
            }
        }
        w.trace();
    }
    let names = ["b", "a10", "a2", "", "B"];
    for (nk, maxm) in if th { vec![(5_u32, 4), (4, 5)] } else { vec![(5_u32, 4)] } {
    let base = 1_u64 << nk;
    cx.family(&format!("all lists of key sets over {nk} keys"), seq_count(base, 0, maxm), |i, w| {
        let sets = seq_at(i, base, 0, maxm);
        w.at(|| format!("key sets {sets:?} over {:?}", &names[..nk as usize]));
        w.state(&(nk, &sets));
        let value = |m: usize, k: usize| (m * 10 + k) as f64 + 0.5;
        let maps: Vec<BTreeMap<String, f64>> = sets.iter().enumerate().map(|(m, s)| (0..nk as usize).filter(|k| s >> k & 1 == 1).map(|k| (names[k].to_string(), value(m, k))).collect()).collect();
        check(&maps, w);
        let maps: Vec<BTreeMap<Rev, f64>> = sets.iter().enumerate().map(|(m, s)| (0..nk as usize).filter(|k| s >> k & 1 == 1).map(|k| (Rev(k as u32), -value(m, k))).collect()).collect();
        check(&maps, w);
    });
    }
    let maxm2 = if th { 9 } else { 7 };
    cx.family("all lists of key sets over two keys", seq_count(4, 0, maxm2), |i, w| {
        let sets = seq_at(i, 4, 0, maxm2);
        w.state(&("two", &sets));
        w.at(|| format!("key sets {sets:?} over two keys"));
        let maps: Vec<BTreeMap<u64, f64>> = sets.iter().enumerate().map(|(m, s)| (0..2).filter(|k| s >> k & 1 == 1).map(|k| (k, (m as u64 * 2 + k) as f64)).collect()).collect();
        check(&maps, w);
    });
    // Long maps, one key replaced at every position of every map; special values pass through.
    let n = if th { 2000 } else { 300_u64 };
    cx.family("one key replaced, added or removed in long maps", 4 * 3 * (n + 1), |i, w| {
        let mut r = Radix(i);
        let which = r.take(4) as usize; // 3: none
        let how = r.take(3);
        let at = r.take(n + 1);
        w.at(|| format!("{n} keys, map {which}, change {how} at {at}"));
        w.state(&("long", which, how, at));
        let special = [f64::NAN, f64::INFINITY, -0.0, 0.0, 5e-324, f64::MIN];
        let mut maps: Vec<BTreeMap<String, f64>> = (0..3).map(|m| (0..n).map(|k| (format!("q{k}"), if k < 6 { special[((k + m) % 6) as usize] } else { (m * 1000 + k) as f64 })).collect()).collect();
        if which < 3 && at < n {
            let m = &mut maps[which];
            match how {
                0 => {
                    let v = m.remove(&format!("q{at}")).unwrap();
                    m.insert(format!("q{at}x"), v);
                }
                1 => {
                    m.remove(&format!("q{at}"));
                }
                _ => {
                    m.insert(format!("q{at} "), 1.0);
                }
            }
        }
        check(&maps, w);
        check(&maps[..2], w);
    });
    // Many maps, many keys: sizes around the 8- and 16-bit limits, one map differing or none.
    let shapes: Vec<(usize, usize)> = vec![(2, 4096), (2, 65_535), (2, 65_536), (2, 65_537), (3, 70_001), (16, 3), (31, 2), (32, 2), (33, 2), (64, 2), (65, 2), (255, 2), (256, 2), (257, 3), (1000, 2), (65_537, 1)];
    cx.family("many maps and many keys", shapes.len() as u64 * 4 * 3, |i, w| {
        let mut r = Radix(i);
        let (m, n) = *r.pick(&shapes);
        let how = r.take(4);
        let which = [0, m / 2, m - 1][r.take(3) as usize];
        w.at(|| format!("{m} maps of {n} keys, change {how} in map {which}"));
        w.state(&("many", i));
        let mut maps: Vec<BTreeMap<u32, f64>> = (0..m).map(|j| (0..n).map(|k| (k as u32 * 3, (j * n + k) as f64)).collect()).collect();
        match how {
            1 => {
                maps[which].remove(&(n as u32 / 2 * 3));
            }
            2 => {
                maps[which].insert(n as u32 / 2 * 3 + 1, 0.5);
            }
            3 => {
                maps[which].remove(&(n as u32 / 2 * 3));
                maps[which].insert(n as u32 * 3, 0.5);
            }
            _ => {}
        }
        check(&maps, w);
    });
    cx.bound("all lists of up to 4 maps over every subset of 5 keys, up to 5 maps over 4 keys (thorough), up to 7 (9) maps over 2 keys, two key orders; one key changed at each of 300 (2000) positions of each of three maps");
}
