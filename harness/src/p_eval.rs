//! C08 (evaluate: query sets and aggregation) and C09 (metric names).
use crate::common::*;
use crate::metrics_ref::*;
use elinor::*;
use std::collections::{BTreeMap, BTreeSet};
use std::result::Result;

/// Error-free-ish reference: compensated mean and two-pass population variance.
pub fn mean_var(v: &[f64]) -> (f64, f64) {
    let n = v.len() as f64;
    let mut s = 0.0;
    let mut c = 0.0;
    for &x in v {
        let y = x - c;
        let t = s + y;
        c = (t - s) - y;
        s = t;
    }
    let mean = s / n;
    let mut q = 0.0;
    let mut e = 0.0;
    for &x in v {
        q += (x - mean) * (x - mean);
        e += x - mean;
    }
    (mean, ((q - e * e / n) / n).max(0.0))
}

fn check_eval<K>(t: &TrueRelStore<K>, p: &PredRelStore<K>, m: Metric, want: &Result<BTreeMap<K, f64>, ()>, w: &mut W)
where
    K: Clone + Eq + Ord + std::fmt::Display + std::fmt::Debug,
{
    w.ops(2);
    let direct = metrics::compute_metric(t, p, m);
    let ev = evaluate(t, p, m);
    match want {
        Err(()) => {
            w.check(matches!(direct, Err(ElinorError::MissingEntry(_))), || format!("{m}: compute_metric returned {direct:?} although a ranked query has no judgments"));
            let e = ev.as_ref().map(|e| e.scores().clone());
            w.check(matches!(e, Err(ElinorError::MissingEntry(_))), || format!("{m}: evaluate returned {e:?} although a ranked query has no judgments"));
        }
        Ok(scores) => {
            let ev = match ev {
                Ok(e) => e,
                Err(e) => {
                    w.fail("", format!("{m}: evaluate failed with {e:?}"));
                    return;
                }
            };
            let keys = |b: &BTreeMap<K, f64>| -> Vec<K> { b.keys().cloned().collect() };
            w.check(keys(ev.scores()) == keys(scores), || format!("{m}: scored queries {:?}, ranked queries {:?}", keys(ev.scores()), keys(scores)));
            for (q, v) in scores {
                let got = ev.scores().get(q).copied().unwrap_or(f64::NAN);
                w.check(same(got, *v), || format!("{m}: score of {q} is {got}, expected {v}"));
            }
            match &direct {
                Ok(d) => w.check(d == ev.scores(), || format!("{m}: compute_metric gives {d:?}, evaluate gives {:?}", ev.scores())),
                Err(e) => w.fail("", format!("{m}: compute_metric failed with {e:?}")),
            }
            w.check(ev.metric() == m, || format!("metric() is {} for {m}", ev.metric()));
            let v: Vec<f64> = ev.scores().values().copied().collect();
            let (mean, var) = mean_var(&v);
            let scale = v.iter().fold(0.0_f64, |a, x| a.max(x.abs()));
            w.check((ev.mean() - mean).abs() <= 1e-9 * scale, || format!("{m}: mean() = {}, expected {mean} of {v:?}", ev.mean()));
            // Rounding in the mean itself perturbs the variance by about (eps*scale)^2, and a
            // one-pass update by eps*scale times the standard deviation.
            let slack = 1e-9 * var + (1e-13 * scale).powi(2) + 1e-14 * scale * var.sqrt();
            w.check((ev.variance() - var).abs() <= slack, || format!("{m}: variance() = {}, population variance {var} of {v:?}", ev.variance()));
            w.check(closet(ev.std_dev(), ev.variance().sqrt(), 1e-12), || format!("{m}: std_dev() = {}, variance() = {}", ev.std_dev(), ev.variance()));
            w.outcome(&(m, ev.mean().to_bits()));
        }
    }
    w.trace();
}

/// All pairs of query sets under keys of another kind; document j of query j has the grade j, the others none.
fn key_sets<K>(cx: &mut Cx, ty: &str, ids: Vec<K>)
where
    K: Clone + Eq + Ord + std::fmt::Display + std::fmt::Debug + Sync,
{
    let n = ids.len();
    let all = 1_u64 << n;
    let ids = &ids;
    cx.family(&format!("all pairs of query sets over {n} keys <{ty}>"), all * (all - 1) * 2, |i, w| {
        let mut r = Radix(i);
        let (ts, ps, rot) = (r.take(all), r.take(all - 1) + 1, r.take(2) as usize);
        w.at(|| format!("judged queries {ts:b}, ranked queries {ps:b} of {ids:?}"));
        w.state(&(ty, ts, ps, rot));
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let mut want = BTreeMap::new();
        let mut missing = false;
        for j in 0..n {
            let j = (j * (n - 1) + rot) % n;
            for d in 0..n {
                if ts >> j & 1 == 1 {
                    t.add_record(ids[j].clone(), ids[d].clone(), if d == j { j as u32 + 1 } else { 0 }).expect("fresh pair refused");
                }
                if ps >> j & 1 == 1 && d != (j + 1) % n {
                    p.add_record(ids[j].clone(), ids[d].clone(), (if d == j { -1.0 } else { 1.0 + d as f64 }).into()).expect("fresh pair refused");
                }
            }
            if ps >> j & 1 == 1 {
                missing |= ts >> j & 1 == 0;
                want.insert(ids[j].clone(), j as f64 + 1.0);
            }
        }
        let (t, p) = (t.build(), p.build());
        // The graded document is the last of n - 1, or, with two keys, the only one.
        let last = n as f64 - 1.0;
        for (m, f) in [(Metric::DCG { k: 0 }, 1.0 / (last + 1.0).log2()), (Metric::NDCG { k: 0 }, 0.0), (Metric::RR { k: 0 }, 0.0), (Metric::Hits { k: 0 }, 0.0)] {
            let scores = want
                .iter()
                .map(|(q, g)| {
                    (q.clone(), match m {
                        Metric::DCG { .. } => g * f,
                        Metric::NDCG { .. } => 1.0 / (last + 1.0).log2(),
                        Metric::RR { .. } => 1.0 / last,
                        _ => 1.0,
                    })
                })
                .collect();
            check_eval(&t, &p, m, &if missing { Err(()) } else { Ok(scores) }, w);
        }
    });
}

pub fn c08(cx: &mut Cx) {
    cx.rule = "state = a distinct (judged query set, ranked query set, per-query rankings); evaluate and compute_metric run on each and are compared with the definition".into();
    let th = cx.thorough;
    // All pairs of query sets over five ids, with per-query cases chosen from a menu.
    let ids = ["q1", "q10", "q2", "", "Q1"];
    let menu: Vec<Case> = vec![
        Case { ranked: vec![Some(1)], rest: vec![] },
        Case { ranked: vec![Some(0), Some(2), None], rest: vec![1] },
        Case { ranked: vec![None, None], rest: vec![1, 0] },
        Case { ranked: vec![Some(0)], rest: vec![] },
        Case { ranked: vec![Some(0), None, Some(1), Some(3)], rest: vec![2, 2, 0] },
    ];
    let metrics = all_metrics(0).into_iter().chain([Metric::Precision { k: 2 }, Metric::NDCG { k: 1 }, Metric::AP { k: 3 }]).collect::<Vec<_>>();
    let nassign = if th { 5_u64.pow(4) } else { 5_u64.pow(3) };
    cx.family("all pairs of query sets over 5 ids", 32 * 31 * nassign, |i, w| {
        let mut r = Radix(i);
        let ts = r.take(32);
        let ps = r.take(31) + 1;
        let a = r.take(nassign);
        w.at(|| format!("judged queries {ts:05b}, ranked queries {ps:05b} of {ids:?}, cases {a}"));
        w.state(&("sets", ts, ps, a));
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let (mut dt, mut dp) = (TrueRelStoreBuilder::new(), PredRelStoreBuilder::new());
        let mut want = BTreeMap::new();
        let mut missing = false;
        for (j, id) in ids.iter().enumerate() {
            let c = &menu[((a / 5_u64.pow(j as u32 % if th { 4 } else { 3 })) as usize + j) % 5];
            let (jt, jp) = (ts >> j & 1 == 1, ps >> j & 1 == 1);
            let name = |d: usize| format!("d{d}");
            let nm = Naming { ids: (j % 3) as u8, scores: 0 };
            let q = id.to_string();
            match (jt, jp) {
                (true, true) => add(c, &q, &name, nm, &mut t, &mut p),
                (true, false) => add(c, &q, &name, nm, &mut t, &mut dp),
                (false, true) => add(c, &q, &name, nm, &mut dt, &mut p),
                _ => {}
            }
            if jp {
                want.insert(q, c.clone());
                missing |= !jt;
            }
        }
        let (t, p) = (t.build(), p.build());
        for &m in &metrics {
            let w2 = if missing { Err(()) } else { Ok(want.iter().map(|(q, c)| (q.clone(), reference(c, m))).collect()) };
            check_eval(&t, &p, m, &w2, w);
        }
        w.sample(|| format!("judged {ts:05b} ranked {ps:05b}"));
    });
    key_sets(cx, "Rev", vec![Rev(0), Rev(1), Rev(2), Rev(3), Rev(9)]);
    key_sets(cx, "keys without case", vec![Ci("b"), Ci("A"), Ci("c"), Ci("")]);
    key_sets(cx, "char", vec!['a', 'é', 'A', '\0', '1']);
    key_sets(cx, "i128", vec![0_i128, 1 << 64, -1, i128::MIN, 1 << 32]);
    key_sets(cx, "bool", vec![true, false]);
    key_sets(cx, "&str", vec!["1", "01", "1.0", " 1", ""]);
    // Missing judgments among many queries, at every position.
    let sizes = [1_usize, 2, 7, 33, 100, 257];
    cx.family("one missing query at every position", sizes.iter().map(|s| *s as u64 + 1).sum::<u64>(), |i, w| {
        let mut i = i as usize;
        let mut n = 0;
        for s in sizes {
            if i <= s {
                n = s;
                break;
            }
            i -= s + 1;
        }
        w.at(|| format!("{n} ranked queries, query {i} not judged (if in range)"));
        w.state(&("missing", n, i));
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let mut want = BTreeMap::new();
        for q in 0..n {
            let id = format!("q{q}");
            p.add_record(id.clone(), "d".into(), 1.0.into()).unwrap();
            if q != i {
                t.add_record(id.clone(), "d".into(), (q % 2) as u32).unwrap();
            } else {
                t.add_record(format!("r{q}"), "d".into(), 1).unwrap();
            }
            want.insert(id, (q % 2) as f64);
        }
        let (t, p) = (t.build(), p.build());
        for m in [Metric::Success { k: 0 }, Metric::AP { k: 0 }, Metric::RPrecision] {
            let wv = if i < n { Err(()) } else { Ok(want.clone()) };
            check_eval(&t, &p, m, &wv, w);
        }
    });
    // Aggregation over every number of queries and several score profiles, including large
    // nearly equal scores, where a careless variance formula loses everything.
    let ns: Vec<usize> = if th { (1..=700).chain([1000, 1024, 1025, 2000, 4095, 4096, 4097, 5000, 8193, 10_001, 16_385, 20_000, 32_769, 65_535, 65_536, 65_537, 100_001, 131_073, 300_000]).collect() } else { (1..=130).chain([200, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 2049, 4095, 4096, 4097, 5000, 8193, 10_001, 16_385, 32_769, 65_535, 65_536, 65_537, 100_001]).collect() };
    cx.family("aggregation over n queries", ns.len() as u64 * 10, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(&ns);
        let pat = r.take(10);
        w.at(|| format!("{n} queries, profile {pat}"));
        w.state(&("agg", n, pat));
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let mut want = BTreeMap::new();
        for j in 0..n {
            let q = format!("q{j}");
            let g: u32 = match pat {
                0 => 1,
                1 => (j == n - 1) as u32,
                2 => (j == 0) as u32,
                3 => (j % 2) as u32,
                4 => j as u32,
                5 => 4_000_000_000 + (j % 2) as u32,
                6 => 4_000_000_000 + j as u32,
                7 => (j * j % 101) as u32,
                8 => 0,
                _ => (1_u64 << (j % 32)) as u32,
            };
            t.add_record(q.clone(), "d".into(), g).unwrap();
            p.add_record(q.clone(), "d".into(), 0.5.into()).unwrap();
            want.insert(q, g as f64);
        }
        let (t, p) = (t.build(), p.build());
        check_eval(&t, &p, Metric::DCG { k: 0 }, &Ok(want.clone()), w);
        let bin: BTreeMap<String, f64> = want.iter().map(|(q, v)| (q.clone(), (*v > 0.0) as u32 as f64)).collect();
        check_eval(&t, &p, Metric::Recall { k: 1 }, &Ok(bin), w);
    });
    // All small score vectors through RR (1, 1/2, 1/3, 0): exact mean and variance.
    let maxn = if th { 10 } else { 8 };
    cx.family("all score vectors over {0,1,1/2,1/3}", seq_count(4, 1, maxn), |i, w| {
        let v = seq_at(i, 4, 1, maxn);
        w.at(|| format!("reciprocal ranks {v:?}"));
        w.state(&("rr", &v));
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let mut want = BTreeMap::new();
        for (j, &x) in v.iter().enumerate() {
            let q = format!("{j}");
            for d in 0..3_u64 {
                p.add_record(q.clone(), format!("{d}"), (10.0 - d as f64).into()).unwrap();
                t.add_record(q.clone(), format!("{d}"), (d + 1 == x) as u32).unwrap();
            }
            want.insert(q, if x == 0 { 0.0 } else { 1.0 / x as f64 });
        }
        let (t, p) = (t.build(), p.build());
        check_eval(&t, &p, Metric::RR { k: 0 }, &Ok(want), w);
    });
    cx.assume("evaluation with at least one ranked query; the mean of no queries is left unspecified");
    cx.bound("all 32x31 pairs of query subsets of five ids x case assignments x 16 metrics, and of up to five keys of six other kinds; a missing query at every position of up to 257; every n up to 130 (700) and selected n up to 100001 (300000) with ten score profiles; all score vectors over {0,1,1/2,1/3} up to length 8 (10)");
}

// ---------------------------------------------------------------- C09

pub const NAMES: [&str; 13] = ["hits", "success", "precision", "recall", "f1", "r_precision", "ap", "rr", "bpref", "dcg", "ndcg", "dcg_burges", "ndcg_burges"];

pub fn make(name: &str, k: usize) -> Metric {
    match name {
        "hits" => Metric::Hits { k },
        "success" => Metric::Success { k },
        "precision" => Metric::Precision { k },
        "recall" => Metric::Recall { k },
        "f1" => Metric::F1 { k },
        "r_precision" => Metric::RPrecision,
        "ap" => Metric::AP { k },
        "rr" => Metric::RR { k },
        "bpref" => Metric::Bpref,
        "dcg" => Metric::DCG { k },
        "ndcg" => Metric::NDCG { k },
        "dcg_burges" => Metric::DCGBurges { k },
        "ndcg_burges" => Metric::NDCGBurges { k },
        _ => unreachable!(),
    }
}

/// The documented grammar: name, or name@digits.
fn ref_parse(s: &str) -> Option<Metric> {
    let (name, k) = match s.split_once('@') {
        None => (s, 0),
        Some((n, d)) => {
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return None;
            }
            let mut k: u128 = 0;
            for b in d.bytes() {
                k = k.checked_mul(10)?.checked_add((b - b'0') as u128)?;
            }
            if k > usize::MAX as u128 {
                return None;
            }
            (n, k as usize)
        }
    };
    NAMES.contains(&name).then(|| make(name, k))
}

fn check_text(s: &str, w: &mut W) {
    w.op();
    w.state(&s);
    let got = s.parse::<Metric>();
    let want = ref_parse(s);
    w.outcome(&got.as_ref().ok());
    match (&got, want) {
        (Ok(m), Some(x)) => w.check(*m == x, || format!("{s:?} parses to {m:?}, expected {x:?}")),
        (Err(ElinorError::InvalidFormat(_)), None) => {}
        (g, x) => w.fail("", format!("{s:?} gives {g:?}, expected {x:?} (None: an invalid-format error)")),
    }
    w.trace();
}

pub fn c09(cx: &mut Cx) {
    cx.rule = "state = a distinct text (or metric); each is parsed/printed by the real code and compared with the documented grammar".into();
    let th = cx.thorough;
    let mut ks: Vec<usize> = (0..if th { 3000 } else { 1100 }).collect();
    for b in 0..64 {
        for d in [-1_i128, 0, 1] {
            let v = (1_i128 << b) + d;
            if v >= 0 && v <= usize::MAX as i128 {
                ks.push(v as usize);
            }
        }
    }
    let mut p = 1_usize;
    for _ in 0..19 {
        ks.extend([p - 1, p, p + 1, p.saturating_mul(9)]);
        p *= 10;
    }
    ks.extend([usize::MAX - 1, usize::MAX]);
    ks.sort_unstable();
    ks.dedup();
    cx.family("print and parse every metric", 13 * ks.len() as u64, |i, w| {
        let mut r = Radix(i);
        let name = *r.pick(&NAMES);
        let k = *r.pick(&ks);
        let m = make(name, k);
        w.op();
        w.state(&("metric", m));
        let want = match k_of(m) {
            Some(k) if k > 0 => format!("{name}@{k}"),
            _ => name.to_string(),
        };
        w.at(|| want.clone());
        let got = m.to_string();
        w.check(got == want, || format!("{m:?} prints as {got:?}, expected {want:?}"));
        w.check(format!("{m:#}") == want, || format!("{m:?} prints as {:?} in alternate form", format!("{m:#}")));
        let back = got.parse::<Metric>();
        w.check(back == Ok(m), || format!("{got:?} parses back to {back:?}"));
        check_text(&format!("{name}@{k}"), w);
        w.trace();
    });
    // All short texts over an alphabet of troublemakers.
    let al: Vec<char> = vec!['a', 'p', 'r', '@', '0', '1', '9', '_', ' ', '+', '-', '.', 'A', '\n', 'é', '२'];
    let maxl = if th { 5 } else { 3 };
    cx.family("all short texts", seq_count(al.len() as u64, 0, maxl), |i, w| {
        let s: String = seq_at(i, al.len() as u64, 0, maxl).iter().map(|&c| al[c as usize]).collect();
        w.at(|| format!("{s:?}"));
        check_text(&s, w);
    });
    // Every suffix of up to four characters after every name.
    let al2: Vec<char> = vec!['@', '0', '1', '7', ' ', '-', '_', 'k', '\t', '２'];
    let maxs = if th { 4 } else { 3 };
    cx.family("all short suffixes after each name", 13 * seq_count(al2.len() as u64, 0, maxs), |i, w| {
        let mut r = Radix(i);
        let name = *r.pick(&NAMES);
        let s: String = name.chars().chain(seq_at(r.0, al2.len() as u64, 0, maxs).iter().map(|&c| al2[c as usize])).collect();
        w.at(|| format!("{s:?}"));
        check_text(&s, w);
    });
    // All single-character edits and case changes of valid texts.
    let mut texts = vec![];
    for (i, n) in NAMES.into_iter().enumerate() {
        for (j, suf) in ["", "@1", "@10", "@007", "@18446744073709551615", "@18446744073709551616", "@99999999999999999999999"].into_iter().enumerate() {
            if !th && j > 1 && (i + j) % 5 > 0 {
                continue;
            }
            texts.push(format!("{n}{suf}"));
        }
    }
    let edit: Vec<char> = ('a'..='z').chain('0'..='9').chain("@_- .+#/:;,AHZ\n\t\0é²Ⅷ३".chars()).collect();
    cx.family("all single-character edits of valid texts", texts.len() as u64, |i, w| {
        let s: Vec<char> = texts[i as usize].chars().collect();
        check_text(&texts[i as usize], w);
        for p in 0..=s.len() {
            let mut v: Vec<Vec<char>> = vec![];
            if p < s.len() {
                let mut d = s.clone();
                d.remove(p);
                v.push(d);
                let mut u = s.clone();
                u[p] = u[p].to_ascii_uppercase();
                v.push(u);
                if p + 1 < s.len() {
                    let mut x = s.clone();
                    x.swap(p, p + 1);
                    v.push(x);
                }
            }
            for &c in &edit {
                let mut a = s.clone();
                a.insert(p, c);
                v.push(a);
                if p < s.len() {
                    let mut b = s.clone();
                    b[p] = c;
                    v.push(b);
                }
            }
            for t in v {
                let t: String = t.into_iter().collect();
                w.at(|| format!("{t:?}"));
                check_text(&t, w);
            }
        }
    });
    // Concatenations and separators between names.
    let seps = ["", "_", "@", " ", ",", "-", "@1@", "@@"];
    cx.family("pairs of names", 13 * 13 * seps.len() as u64, |i, w| {
        let mut r = Radix(i);
        let s = format!("{}{}{}", r.pick(&NAMES), r.pick(&seps), r.pick(&NAMES));
        w.at(|| format!("{s:?}"));
        check_text(&s, w);
    });
    let set: BTreeSet<&str> = NAMES.into_iter().collect();
    assert_eq!(set.len(), 13);
    cx.bound("every metric with every k in 0..1100 (3000) and around every power of 2 and 10; all texts up to 3 (5) characters over 16 symbols; all suffixes up to 3 (4) characters over 10 symbols; all single-character edits of 39 (91) valid texts over 60 symbols");
}
