//! C24: every input gets a meaningful result or an error; nothing panics, overflows or hangs.
//! Degenerate and boundary inputs of every entry point of the library, exhaustively over menus.
use crate::common::*;
use crate::metrics_ref::{all_metrics, Case};
use crate::p_anova::{reference, residual, Residual};
use crate::stats_ref::{BAD_LEVELS, LEVELS};
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;
use elinor::*;
use std::collections::BTreeMap;

fn kind(e: &ElinorError) -> &'static str {
    match e {
        ElinorError::DuplicateEntry(_) => "duplicate",
        ElinorError::MissingEntry(_) => "missing",
        ElinorError::InvalidFormat(_) => "format",
        ElinorError::InvalidArgument(_) => "argument",
        ElinorError::Uncomputable(_) => "uncomputable",
    }
}

/// Runs a call: a panic is a violation (a listed one if it has a key); the error kind is returned.
fn call<T>(w: &mut W, what: &dyn Fn() -> String, key: &str, f: impl FnOnce() -> elinor::Result<T>) -> Option<std::result::Result<T, &'static str>> {
    w.op();
    match guard(f) {
        Ok(Ok(t)) => Some(Ok(t)),
        Ok(Err(e)) => {
            w.check(!e.to_string().is_empty(), || format!("{}: the error has no text", what()));
            Some(Err(kind(&e)))
        }
        Err(p) => {
            w.fail(key, format!("{} panics: {p}", what()));
            None
        }
    }
}

fn number(x: f64) -> bool {
    !x.is_nan()
}

// ---------------------------------------------------------------- metrics

fn metrics_of(t: &TrueRelStore<String>, p: &PredRelStore<String>, ms: &[Metric], missing: bool, what: &dyn Fn() -> String, w: &mut W) {
    for &m in ms {
        let what = || format!("{m} of {}", what());
        match call(w, &what, "", || evaluate(t, p, m)) {
            Some(Ok(e)) => {
                w.check(!missing, || format!("{}: a query without judgments is not reported", what()));
                let bounded = !matches!(m, Metric::DCG { .. } | Metric::DCGBurges { .. } | Metric::Hits { .. });
                for (q, v) in e.scores() {
                    w.check(v.is_finite() && *v >= 0.0 && (!bounded || *v <= 1.0 + 1e-9), || format!("{}: score of {q} is {v}", what()));
                }
                // The variance may overflow for enormous gains, but not become NaN.
                w.check(e.mean().is_finite() && number(e.variance()) && e.variance() >= 0.0 && number(e.std_dev()) && e.std_dev() >= 0.0, || format!("{}: mean {}, variance {}, standard deviation {}", what(), e.mean(), e.variance(), e.std_dev()));
                w.outcome(&(m, e.mean().to_bits()));
            }
            Some(Err(k)) => w.check(missing && k == "missing", || format!("{}: refused ({k})", what())),
            None => {}
        }
    }
}

fn stores(cs: &[&Case]) -> (TrueRelStore<String>, PredRelStore<String>) {
    let (mut t, mut p) = (TrueRelStoreBuilder::new(), PredRelStoreBuilder::new());
    for (j, c) in cs.iter().enumerate() {
        let q = format!("q{j}");
        for (i, g) in c.ranked.iter().enumerate() {
            if let Some(g) = g {
                t.add_record(q.clone(), format!("d{i}"), *g).unwrap();
            }
            p.add_record(q.clone(), format!("d{i}"), (-(i as f64)).into()).unwrap();
        }
        for (i, g) in c.rest.iter().enumerate() {
            t.add_record(q.clone(), format!("r{i}"), *g).unwrap();
        }
    }
    (t.build(), p.build())
}

const CUTS: [usize; 9] = [0, 1, 2, 3, 7, 1000, u32::MAX as usize, usize::MAX - 1, usize::MAX];

fn metric_families(cx: &mut Cx) {
    let th = cx.thorough;
    let grades = [None, Some(0), Some(1), Some(2), Some(31), Some(1000)];
    let rests: [&[u32]; 6] = [&[], &[0], &[1], &[0, 0, 1], &[3, 64, 32, 0], &[1, 1, 1, 1]];
    let ml = if th { 5 } else { 4 };
    let all: Vec<Metric> = CUTS.iter().flat_map(|&k| all_metrics(k)).collect();
    let all = &all;
    cx.family("metrics of all degenerate rankings, every cutoff", seq_count(6, 0, ml) * 6, |i, w| {
        let mut r = Radix(i);
        let rest = *r.pick(&rests);
        let v = seq_at(r.0, 6, 0, ml);
        let c = Case { ranked: v.iter().map(|&g| grades[g as usize]).collect(), rest: rest.to_vec() };
        if c.ranked.is_empty() {
            return;
        }
        w.at(|| c.show());
        w.state(&c);
        let missing = c.judged() == 0;
        let (t, p) = stores(&[&c]);
        metrics_of(&t, &p, all, missing, &|| c.show(), w);
        w.trace();
        w.sample(|| c.show());
    });
    // The largest grades, for the gains that are linear in them.
    let top = [Some(u32::MAX), Some(u32::MAX - 1), Some(1 << 31), Some(0), None];
    let lin: Vec<Metric> = CUTS.iter().flat_map(|&k| all_metrics(k)).filter(|m| !matches!(m, Metric::DCGBurges { .. } | Metric::NDCGBurges { .. })).collect();
    let lin = &lin;
    cx.family("metrics of the largest grades", seq_count(5, 1, 4), |i, w| {
        let v = seq_at(i, 5, 1, 4);
        let c = Case { ranked: v.iter().map(|&g| top[g as usize]).collect(), rest: vec![u32::MAX, 7] };
        w.at(|| c.show());
        w.state(&("top", &c));
        let (t, p) = stores(&[&c]);
        metrics_of(&t, &p, lin, false, &|| c.show(), w);
        w.trace();
    });
    // Several queries of different kinds together.
    let menu: Vec<Case> = vec![
        Case { ranked: vec![None], rest: vec![0] },
        Case { ranked: vec![Some(0)], rest: vec![] },
        Case { ranked: vec![Some(1)], rest: vec![] },
        Case { ranked: vec![None, None], rest: vec![1] },
        Case { ranked: vec![Some(0), Some(0)], rest: vec![1, 1] },
        Case { ranked: vec![Some(0), Some(1000), None], rest: vec![0, 0, 0] },
        Case { ranked: vec![], rest: vec![1] },
        Case { ranked: vec![None], rest: vec![] },
    ];
    cx.family("several degenerate queries together", seq_count(8, 1, 3), |i, w| {
        let v = seq_at(i, 8, 1, 3);
        let cs: Vec<&Case> = v.iter().map(|&c| &menu[c as usize]).collect();
        if cs.iter().all(|c| c.ranked.is_empty()) {
            return;
        }
        w.at(|| format!("queries {v:?} of the menu"));
        w.state(&("qs", &v));
        let missing = cs.iter().any(|c| !c.ranked.is_empty() && c.judged() == 0);
        let (t, p) = stores(&cs);
        metrics_of(&t, &p, all, missing, &|| cs.iter().map(|c| c.show()).collect::<Vec<_>>().join("; "), w);
        w.trace();
    });
    // Long rankings and many queries.
    let sizes: Vec<usize> = if th { vec![1, 1000, 3_000, 12_000] } else { vec![1, 1000, 3_000] };
    cx.family("long rankings and many queries", sizes.len() as u64 * 4 * 2, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(&sizes);
        let shape = r.take(4);
        let wide = r.take(2) == 1;
        let g = |j: usize| match shape {
            0 => Some(0),
            1 => Some((j % 3) as u32),
            2 => (j + 1 == n).then_some(5),
            _ => None,
        };
        w.at(|| format!("{n} {} of shape {shape}", if wide { "queries" } else { "documents" }));
        w.state(&("long", n, shape, wide));
        let cs: Vec<Case> = if wide { (0..n).map(|j| Case { ranked: vec![g(j), None], rest: vec![1] }).collect() } else { vec![Case { ranked: (0..n).map(g).collect(), rest: vec![1, 0] }] };
        let (t, p) = stores(&cs.iter().collect::<Vec<_>>());
        metrics_of(&t, &p, &all_metrics(0), false, &|| format!("{n} of shape {shape}"), w);
        metrics_of(&t, &p, &all_metrics(usize::MAX), false, &|| format!("{n} of shape {shape}"), w);
        w.trace();
    });
    // Rankings in which the search goes all the way down, deeper than any stack of frames.
    let deep: &[usize] = if th { &[400_000, 3_000_000] } else { &[400_000] };
    cx.family("very long rankings and judgments", deep.len() as u64 * 3, |i, w| {
        let n = deep[i as usize / 3];
        let shape = i % 3;
        w.at(|| format!("{n} documents of shape {shape}"));
        w.state(&("deep", n, shape));
        let g = |j: usize| match shape {
            0 => None,
            1 => (j + 1 == n).then_some(1),
            _ => Some(0),
        };
        let c = Case { ranked: (0..n).map(g).collect(), rest: if shape == 2 { vec![1; n] } else { vec![1, 0] } };
        let (t, p) = stores(&[&c]);
        metrics_of(&t, &p, &all_metrics(0), false, &|| format!("{n} of shape {shape}"), w);
        metrics_of(&t, &p, &all_metrics(n - 1), false, &|| format!("{n} of shape {shape}"), w);
        w.trace();
    });
    // Scores of every kind, including those that are not numbers, in the ranking.
    let sc = [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324];
    cx.family("rankings by all kinds of scores", seq_count(9, 1, 4), |i, w| {
        let v = seq_at(i, 9, 1, 4);
        w.at(|| format!("scores {v:?} of {sc:?}"));
        w.state(&("sc", &v));
        let what = || format!("scores {v:?} of {sc:?}");
        if let Some(Ok((t, p))) = call(w, &what, "", || {
            let (mut t, mut p) = (TrueRelStoreBuilder::new(), PredRelStoreBuilder::new());
            for (j, &c) in v.iter().enumerate() {
                t.add_record("q".to_string(), format!("d{j}"), (j % 2) as u32)?;
                p.add_record("q".to_string(), format!("d{j}"), sc[c as usize].into())?;
            }
            Ok((t.build(), p.build()))
        }) {
            metrics_of(&t, &p, &all_metrics(2), false, &what, w);
        }
        w.trace();
    });
    // Stores without anything.
    cx.family("empty stores", 1, |_, w| {
        w.at(|| "empty stores".into());
        w.state(&"empty");
        let t = TrueRelStoreBuilder::<String>::new().build();
        let (full, _) = stores(&[&Case { ranked: vec![Some(1)], rest: vec![] }]);
        let (_, ranked) = stores(&[&Case { ranked: vec![None], rest: vec![] }]);
        w.check(t.n_queries() == 0 && t.n_docs() == 0 && t.query_ids().next().is_none() && t.records().is_empty(), || "an empty store is not empty".into());
        w.check(t.get_score("", "").is_none() && t.get_map("q").is_none() && t.get_sorted("q").is_none(), || "an empty store has entries".into());
        w.check(full.get_score("q0", "nope").is_none() && full.get_map("").is_none() && full.get_sorted("nope").is_none(), || "unknown ids are found".into());
        w.check(t.into_records().is_empty(), || "an empty store has records".into());
        let t = TrueRelStoreBuilder::<String>::new().build();
        metrics_of(&t, &ranked, all, true, &|| "a ranked query without any judgments at all".into(), w);
        // No ranked query: no panic (the mean of nothing is not specified).
        let none = PredRelStoreBuilder::<String>::new().build();
        for &m in all {
            call(w, &|| format!("{m} without ranked queries"), "", || evaluate(&full, &none, m).map(|e| e.scores().len()));
            if let Some(r) = call(w, &|| format!("compute_metric {m} without ranked queries"), "", || metrics::compute_metric(&full, &none, m)) {
                w.check(r == Ok(BTreeMap::new()), || format!("compute_metric {m} without ranked queries: {r:?}"));
            }
        }
        w.trace();
    });
}

// ---------------------------------------------------------------- texts

fn text_families(cx: &mut Cx) {
    let th = cx.thorough;
    let pieces = ["", " ", "\t", "a", "1", "-1", "+1", "2147483647", "2147483648", "-2147483649", "1e400", "-1e400", "nan", "inf", "1.5", "0x1", "\u{3000}", "é\u{301}", "\u{0}", "\r", "99999999999999999999999999999999", "1_0", "\u{feff}", "NaN", "-0", "1e-400", ".", "-", "１"];
    let p = pieces.len() as u64;
    let len = if th { 4 } else { 3 };
    cx.family("lines of all pieces in every column", seq_count(p, 0, len) * 3, |i, w| {
        let mut r = Radix(i);
        let form = r.take(3);
        let v = seq_at(r.0, p, 0, len);
        let ps: Vec<&str> = v.iter().map(|&x| pieces[x as usize]).collect();
        let line = match form {
            0 => ps.join(" "),
            1 => format!("q 0 d {}", ps.join(" ")),
            _ => format!("q 0 d 1 {}", ps.join(" ")),
        };
        w.at(|| format!("line {line:?}"));
        w.state(&line);
        let ok = ["format", "duplicate"];
        let what = || format!("line {line:?}");
        for lines in [vec![line.as_str()], vec![line.as_str(), line.as_str()], vec!["q 0 d 1 1", line.as_str()]] {
            if let Some(Err(k)) = call(w, &what, "", || trec::parse_true_rels_in_trec(&lines)) {
                w.check(ok.contains(&k), || format!("{}: judgments refused with {k}", what()));
            }
            if let Some(Err(k)) = call(w, &what, "", || trec::parse_pred_rels_in_trec(&lines)) {
                w.check(ok.contains(&k), || format!("{}: run refused with {k}", what()));
            }
        }
        w.trace();
    });
    // Metric names.
    let chars: Vec<char> = (0_u8..128).map(|b| b as char).chain(['é', '１', '٣', '\u{301}', '\u{10ffff}', 'Ⅷ']).collect();
    let n = chars.len() as u64;
    let pre = ["ap@", "ndcg@1", "", "ap", "bpref", "r_precision@"];
    let few: Vec<char> = "019@_apk+-. \t\nA\0é१\u{301}\u{ff11}".chars().collect();
    let two = seq_count(n, 0, 2);
    let three = if th { (few.len() as u64).pow(3) } else { 0 };
    let npre = if th { pre.len() } else { 2 };
    cx.family("metric names with every short ending", (two + three) * npre as u64, |i, w| {
        let mut r = Radix(i);
        let pre = *r.pick(&pre[..npre]);
        let end: String = if r.0 < two { seq_at(r.0, n, 0, 2).iter().map(|&c| chars[c as usize]).collect() } else { Radix(r.0 - two).vec(few.len() as u64, 3).iter().map(|&c| few[c as usize]).collect() };
        let s = format!("{pre}{end}");
        w.at(|| format!("name {s:?}"));
        w.state(&("name", &s));
        match call(w, &|| format!("metric name {s:?}"), "", || s.parse::<Metric>()) {
            Some(Err(k)) => w.check(k == "format", || format!("metric name {s:?} refused with {k}")),
            Some(Ok(m)) => {
                if let Err(p) = guard(|| m.to_string().parse::<Metric>()) {
                    w.fail("", format!("{m:?}: {p}"));
                }
            }
            None => {}
        }
        w.trace();
    });
    // Texts whose wide characters stand at every byte, wherever they may be cut, counted or quoted.
    let mut offs: Vec<usize> = (0..if th { 1100 } else { 300 }).collect();
    offs.extend([511_usize, 512, 1023, 1024, 2047, 2048, 4095, 4096, 65535, 65536].iter().flat_map(|&b| b - 4..b + 4));
    let wide = ["é", "漢", "😀", "e\u{301}", "\u{a0}"];
    let (offs, wide) = (&offs, &wide);
    cx.family("wide characters at every byte of texts", offs.len() as u64 * wide.len() as u64, |i, w| {
        let mut r = Radix(i);
        let (n, c) = (*r.pick(offs), *r.pick(wide));
        let word = format!("{}{}", "x".repeat(n), c.repeat(3));
        w.at(|| format!("{n} letters and {c:?}"));
        w.state(&("wide", i));
        let ok = ["format", "duplicate"];
        for line in [format!("{word}"), format!("q 0 {word}"), format!("{word} 0 d"), format!("q 0 d {word}"), format!("q 0 d 1 {word}"), format!("q {word} d x y"), format!("{word} 0 d 1 1.5"), format!("q 0 {word} 1 1.5 {word}"), format!("{word} 0 {word} {word} {word} {word}")] {
            let what = || format!("a line with {c:?} after {n} letters, of {} columns", line.split_whitespace().count());
            for lines in [vec![line.as_str()], vec![line.as_str(), line.as_str()]] {
                if let Some(Err(k)) = call(w, &what, "", || trec::parse_true_rels_in_trec(&lines)) {
                    w.check(ok.contains(&k), || format!("{}: judgments refused with {k}", what()));
                }
                if let Some(Err(k)) = call(w, &what, "", || trec::parse_pred_rels_in_trec(&lines)) {
                    w.check(ok.contains(&k), || format!("{}: run refused with {k}", what()));
                }
            }
        }
        for name in [word.clone(), format!("ap@{word}"), format!("{word}@1"), format!("ap{word}"), format!("ap@1{}", c.repeat(n % 400))] {
            match call(w, &|| format!("metric name with {c:?} after {n} letters"), "", || name.parse::<Metric>()) {
                Some(Err(k)) => w.check(k == "format", || format!("metric name refused with {k}")),
                Some(Ok(m)) => w.outcome(&m),
                None => {}
            }
        }
        // Stores and maps name the offending ids in their errors.
        let rec = |d: &str| Record { query_id: word.clone(), doc_id: d.to_string(), score: 1 };
        call(w, &|| format!("records of a query with {c:?} after {n} letters"), "", || TrueRelStore::from_records([rec("d"), rec(&word), rec("d")]));
        let a = BTreeMap::from([(word.clone(), 0.5)]);
        call(w, &|| format!("maps with {c:?} after {n} letters"), "", || elinor::statistical_tests::pairs_from_maps(&a, &BTreeMap::from([("d".to_string(), 0.5)])));
        call(w, &|| format!("maps with {c:?} after {n} letters"), "", || elinor::statistical_tests::tuples_from_maps([&a, &BTreeMap::from([("d".to_string(), 0.5)])]));
        w.trace();
    });
    cx.family("long digits and long names", 4 * 500, |i, w| {
        let mut r = Radix(i);
        let d = *r.pick(&["1", "0", "9", "18446744073709551615"]);
        let s = format!("precision@{}", d.repeat(r.0 as usize + 1));
        w.at(|| format!("name {s:?}"));
        w.state(&("long", &s));
        match call(w, &|| format!("metric name {s:?}"), "", || s.parse::<Metric>()) {
            Some(Err(k)) => w.check(k == "format", || format!("metric name {s:?} refused with {k}")),
            Some(Ok(m)) => w.outcome(&m),
            None => {}
        }
        w.trace();
    });
}

// ---------------------------------------------------------------- maps and paired tests

fn pair_families(cx: &mut Cx) {
    let th = cx.thorough;
    // All tuples of up to three maps over subsets of three keys.
    cx.family("all combinations of up to four maps", seq_count(8, 0, 4), |i, w| {
        let v = seq_at(i, 8, 0, 4);
        let maps: Vec<BTreeMap<String, f64>> = v.iter().map(|&b| (0..3).filter(|k| b >> k & 1 == 1).map(|k| (format!("k{k}"), k as f64)).collect()).collect();
        w.at(|| format!("maps {maps:?}"));
        w.state(&("maps", &v));
        let same = v.windows(2).all(|p| p[0] == p[1]);
        let what = || format!("tuples from {maps:?}");
        match call(w, &what, "", || tuples_from_maps(maps.iter())) {
            Some(Ok(t)) => w.check(same && !v.is_empty() && t.len() == maps[0].len() && t.iter().all(|x| x.len() == maps.len()), || format!("{}: {t:?}", what())),
            Some(Err(k)) => w.check((!same || v.is_empty()) && k == "argument", || format!("{}: {k}", what())),
            None => {}
        }
        if maps.len() == 2 {
            match call(w, &what, "", || pairs_from_maps(&maps[0], &maps[1])) {
                Some(Ok(t)) => w.check(same && t.len() == maps[0].len(), || format!("{}: {t:?}", what())),
                Some(Err(k)) => w.check(!same && k == "argument", || format!("{}: {k}", what())),
                None => {}
            }
        }
        w.trace();
    });
    let vals = [0.0, 1.0, -1.0, 0.1, 0.30000000000000004, 1e-9, 1e9, 1.0 / 3.0];
    let ml = if th { 5 } else { 4 };
    let few = [1.0, 0.05, 1e-12, 5e-324];
    let few = &few;
    let paired = |p: &[(f64, f64)], levels: &[f64], reps: usize, w: &mut W| {
        let d: Vec<f64> = p.iter().map(|x| x.0 - x.1).collect();
        let flat = d.iter().all(|x| *x == d[0]);
        let what = || if p.len() < 12 { format!("pairs {p:?}") } else { format!("{} pairs {:?}...", p.len(), &p[..4]) };
        match call(w, &|| format!("t-test of {}", what()), "", || StudentTTest::from_paired_samples(p.iter().copied())) {
            Some(Ok(t)) => {
                let fin = [t.mean(), t.variance(), t.effect_size(), t.t_stat()];
                w.check(p.len() >= 2 && fin.iter().all(|x| x.is_finite()) && t.variance() >= 0.0 && (0.0..=1.0).contains(&t.p_value()), || format!("t-test of {}: {fin:?}, p-value {}", what(), t.p_value()));
                w.outcome(&t.t_stat().to_bits());
                for &a in levels {
                    if let Some(Ok(m)) = call(w, &|| format!("margin_of_error({a}) of {}", what()), "", || t.margin_of_error(a)) {
                        w.check(m >= 0.0, || format!("margin_of_error({a}) of {} is {m}", what()));
                    }
                    match call(w, &|| format!("confidence_interval({a}) of {}", what()), "", || t.confidence_interval(a)) {
                        Some(Ok((lo, hi))) => w.check(lo <= t.mean() && t.mean() <= hi, || format!("confidence_interval({a}) of {} is ({lo}, {hi}) around {}", what(), t.mean())),
                        Some(Err(k)) => w.fail("", format!("confidence_interval({a}) of {}: refused with {k}", what())),
                        None => {}
                    }
                }
            }
            Some(Err(k)) => {
                let want = if p.len() < 2 { "argument" } else { "uncomputable" };
                w.check(k == want && (p.len() < 2 || flat), || format!("t-test of {}: refused with {k}", what()));
            }
            None => {}
        }
        match call(w, &|| format!("bootstrap of {}", what()), "", || BootstrapTester::new().with_n_resamples(reps).with_random_state(3).test(p.iter().copied())) {
            Some(Ok(b)) => w.check(p.len() >= 2 && (0.0..=1.0).contains(&b.p_value()) && b.n_resamples() == reps.max(1), || format!("bootstrap of {}: p-value {}", what(), b.p_value())),
            Some(Err(k)) => {
                let want = if p.len() < 2 { "argument" } else { "uncomputable" };
                w.check(k == want && (p.len() < 2 || flat), || format!("bootstrap of {}: refused with {k}", what()));
            }
            None => {}
        }
        w.trace();
    };
    cx.family("paired tests: all short lists of awkward differences", seq_count(8, 0, ml) * 3, |i, w| {
        let mut r = Radix(i);
        let reps = *r.pick(&[0_usize, 1, 4]);
        let v = seq_at(r.0, 8, 0, ml);
        let p: Vec<(f64, f64)> = v.iter().enumerate().map(|(j, &c)| if j % 2 == 0 { (vals[c as usize], 0.0) } else { (0.0, -vals[c as usize]) }).collect();
        w.at(|| format!("pairs {p:?}, {reps} resamples"));
        w.state(&("p", &v, reps));
        paired(&p, few, reps, w);
        w.sample(|| format!("{p:?}"));
    });
    let sizes: Vec<usize> = (0..=if th { 300 } else { 60 }).chain([100, 1000, 10_000, 100_000]).collect();
    cx.family("paired tests: sizes and shapes", sizes.len() as u64 * 6, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(&sizes);
        let shape = r.take(6);
        let p: Vec<(f64, f64)> = (0..n)
            .map(|j| match shape {
                0 => (0.1, 0.0),
                1 => (1.0 + j as f64 * 1e-12, 0.0),
                2 => ((j + 1 == n) as u8 as f64, 0.0),
                3 => ((j % 2) as f64, ((j + 1) % 2) as f64),
                4 => (j as f64, 0.5),
                _ => (1e6, 1e6 - if j == 0 { 1e-6 } else { 0.0 }),
            })
            .collect();
        w.at(|| format!("{n} pairs of shape {shape}"));
        w.state(&("pn", n, shape));
        paired(&p, &LEVELS, 2, w);
    });
    cx.family("levels", 40, |i, w| {
        let n = i as usize + 2;
        w.at(|| format!("{n} pairs"));
        w.state(&("lv", n));
        let t = StudentTTest::from_paired_samples((0..n).map(|j| (j as f64, 0.25))).expect("t-test");
        let x: Vec<Vec<f64>> = (0..n).map(|j| vec![j as f64, (3 * j % 7) as f64]).collect();
        let a = TwoWayAnovaWithoutReplication::from_tupled_samples(&x, 2).expect("anova");
        for l in BAD_LEVELS {
            for (f, r) in [
                ("margin_of_error", call(w, &|| format!("level {l}"), "", || t.margin_of_error(l).map(|_| ()))),
                ("confidence_interval", call(w, &|| format!("level {l}"), "", || t.confidence_interval(l).map(|_| ()))),
                ("ANOVA margin_of_error", call(w, &|| format!("level {l}"), "", || a.margin_of_error(l).map(|_| ()))),
            ] {
                w.check(r.is_none() || r == Some(Err("argument")), || format!("{f}({l}): {r:?}"));
            }
        }
        let nan = f64::NAN;
        for (key, f, r) in [
            ("t-nan-level", "margin_of_error", guard(|| t.margin_of_error(nan).map(|_| ()))),
            ("t-nan-level", "confidence_interval", guard(|| t.confidence_interval(nan).map(|_| ()))),
            ("anova-nan-level", "ANOVA margin_of_error", guard(|| a.margin_of_error(nan).map(|_| ()))),
        ] {
            w.op();
            match r {
                Ok(Err(ElinorError::InvalidArgument(_))) => {}
                Ok(r) => w.fail("", format!("{f}(NaN): {r:?}")),
                Err(p) => w.fail(key, format!("{f}(NaN) panics: {p}")),
            }
        }
        // Every valid level down to the smallest number.
        for e in 0..1074 {
            let l = 2_f64.powi(-e.min(1022)) * 2_f64.powi(-(e - e.min(1022)));
            if e > 60 && e % 50 != 0 {
                continue;
            }
            for (f, r) in [("margin_of_error", call(w, &|| format!("level {l}"), "", || t.margin_of_error(l))), ("ANOVA margin_of_error", call(w, &|| format!("ANOVA level {l}"), "", || a.margin_of_error(l)))] {
                w.check(matches!(r, None) || matches!(r, Some(Ok(m)) if m >= 0.0), || format!("{f}({l}): {r:?}"));
            }
        }
        w.trace();
    });
}

// ---------------------------------------------------------------- several systems

fn several(x: &[Vec<f64>], m: usize, w: &mut W) {
    let n = x.len();
    let ragged = x.iter().any(|t| t.len() != m);
    let what = || if n * m < 30 { format!("{m} systems, scores {x:?}") } else { format!("{m} systems, {n} topics {:?}...", &x[0][..m.min(4)]) };
    let zero = !ragged && n >= 2 && m >= 2 && residual(x, &reference(x)) == Residual::Zero;
    let known = |name: &str| {
        if ragged || n < 2 {
            String::new()
        } else if m < 2 {
            format!("{name}-one-system-panic")
        } else if zero {
            format!("{name}-zero-residual-panic")
        } else {
            String::new()
        }
    };
    // Which refusals are right.
    let refusal = |k: &str| if ragged || n < 2 || m < 2 { k == "argument" } else { zero && k == "uncomputable" };
    match call(w, &|| format!("ANOVA of {}", what()), &known("anova"), || TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), m)) {
        Some(Ok(a)) => {
            let f = [a.between_system_variation(), a.between_topic_variation(), a.residual_variation(), a.between_system_variance(), a.between_topic_variance(), a.residual_variance(), a.between_system_f_stat(), a.between_topic_f_stat()];
            let p = [a.between_system_p_value(), a.between_topic_p_value()];
            let fin = |v: &[f64]| v.iter().all(|x| x.is_finite());
            w.check(!ragged && n >= 2 && m >= 2 && fin(&f) && f.iter().all(|x| *x >= 0.0) && p.iter().all(|p| (0.0..=1.0).contains(p)) && fin(&a.system_means()) && fin(&a.topic_means()), || format!("ANOVA of {}: {f:?}, p-values {p:?}, means {:?} {:?}", what(), a.system_means(), a.topic_means()));
            for l in [1.0, 0.05, 1e-12] {
                if let Some(r) = call(w, &|| format!("margin_of_error({l}) of {}", what()), "", || a.margin_of_error(l)) {
                    w.check(matches!(r, Ok(m) if m >= 0.0), || format!("margin_of_error({l}) of {}: {r:?}", what()));
                }
            }
            w.outcome(&f.map(f64::to_bits));
        }
        Some(Err(k)) => w.check(refusal(k), || format!("ANOVA of {}: refused with {k}", what())),
        None => {}
    }
    match call(w, &|| format!("Tukey HSD of {}", what()), &known("tukey"), || TukeyHsdTest::from_tupled_samples(x.iter(), m)) {
        Some(Ok(t)) => {
            let e = t.effect_sizes();
            w.check(!ragged && n >= 2 && m >= 2 && e.len() == m && e.iter().flatten().all(|x| x.is_finite()), || format!("Tukey HSD of {}: effect sizes {e:?}", what()));
        }
        Some(Err(k)) => w.check(refusal(k), || format!("Tukey HSD of {}: refused with {k}", what())),
        None => {}
    }
    for reps in [0, 3] {
        match call(w, &|| format!("randomized Tukey HSD of {}", what()), "", || RandomizedTukeyHsdTester::new(m).with_n_iters(reps).with_random_state(1).test(x.iter())) {
            Some(Ok(t)) => {
                let p = t.p_values();
                w.check(!ragged && n >= 1 && p.len() == m && p.iter().all(|r| r.len() == m) && p.iter().flatten().all(|p| (0.0..=1.0).contains(p)) && t.n_iters() == reps.max(1), || format!("randomized Tukey HSD of {}: p-values {p:?}", what()));
            }
            // One system or none may be refused as well.
            Some(Err(k)) => w.check(k == "argument" && (ragged || n == 0 || m < 2), || format!("randomized Tukey HSD of {}: refused with {k}", what())),
            None => {}
        }
    }
    w.trace();
}

fn table_families(cx: &mut Cx) {
    let th = cx.thorough;
    // All shapes with rows of any length.
    cx.family("all row lengths x numbers of systems", seq_count(5, 0, 4) * 6, |i, w| {
        let mut r = Radix(i);
        let m = r.take(6) as usize;
        let v = seq_at(r.0, 5, 0, 4);
        let x: Vec<Vec<f64>> = v.iter().enumerate().map(|(t, &l)| (0..l as usize).map(|s| ((t * 3 + s * s * (t + 1)) % 5) as f64).collect()).collect();
        w.at(|| format!("{m} systems, rows of lengths {v:?}"));
        w.state(&("rag", m, &v));
        several(&x, m, w);
        w.sample(|| format!("{m} systems, rows {v:?}"));
    });
    let vals = [0.0, 1.0, 0.1, 1e-9, 1e9, -1.0 / 3.0];
    let mut spaces: Vec<(usize, usize, usize)> = vec![(1, 1, 6), (1, 3, 6), (2, 1, 6), (3, 1, 6), (2, 2, 6), (2, 3, 5), (3, 2, 5), (3, 3, 3), (4, 2, 3), (2, 4, 3)];
    if th {
        spaces.extend([(2, 3, 6), (3, 2, 6), (4, 2, 5), (2, 4, 5), (3, 3, 4), (5, 2, 3), (4, 3, 2), (3, 4, 2)]);
    }
    for (n, m, k) in spaces {
        cx.family(&format!("all matrices of {n} topics x {m} systems over {k} awkward values"), (k as u64).pow((n * m) as u32), |i, w| {
            let mut r = Radix(i);
            let x: Vec<Vec<f64>> = (0..n).map(|_| r.vec(k as u64, m).iter().map(|&c| vals[c as usize]).collect()).collect();
            w.at(|| format!("scores {x:?}"));
            w.state(&("m", n, m, k, i));
            several(&x, m, w);
        });
    }
    let dims = [(2_usize, 2_usize), (2, 50), (50, 2), (10, 10), (200, 3), (3, 200), (1000, 2), (2, 300), (100, 20)];
    let shapes = 7_u64;
    cx.family("matrices: sizes and shapes", dims.len() as u64 * shapes, |i, w| {
        let mut r = Radix(i);
        let &(n, m) = r.pick(&dims);
        let shape = r.take(shapes);
        let x: Vec<Vec<f64>> = (0..n)
            .map(|t| {
                (0..m)
                    .map(|s| match shape {
                        0 => 0.1,
                        1 => t as f64 * 0.1,
                        2 => s as f64 * 0.1,
                        3 => (t + s) as f64 * 0.1,
                        4 => (t == 0 && s == 0) as u8 as f64,
                        5 => 1e6 + ((t * 7 + s * 11) % 13) as f64 * 1e-6,
                        _ => ((t * 37 + s * 101) as f64).sqrt().fract(),
                    })
                    .collect()
            })
            .collect();
        w.at(|| format!("{n} topics x {m} systems of shape {shape}"));
        w.state(&("md", n, m, shape));
        several(&x, m, w);
    });
}

pub fn c24(cx: &mut Cx) {
    cx.rule = "state = a distinct degenerate or boundary input; every entry point of the library that takes it is called with overflow checks and debug assertions on, panics are caught, and every reported number is examined".into();
    metric_families(cx);
    text_families(cx);
    pair_families(cx);
    table_families(cx);
    cx.assume("scores are finite and of moderate size (up to 1e9, gains up to 2^1000); a run that ends the process or takes more than 90 s in one case is a violation; results without variation that rounding noise makes computable are C13's, C14's, C17's and C18's findings");
    cx.bound("metrics: all rankings of up to 4 (5) documents over six grades (unjudged, 0, 1, 2, 31, 1000) x six sets of unranked judgments x nine cutoffs up to the largest, largest grades, up to three degenerate queries together, 3000 (12000) documents or queries, 400000 (3000000) documents that do not match; TREC lines of up to 3 (4) awkward pieces in every column; metric names with every ending of up to 2 characters (3 of a smaller alphabet); all tuples of up to four maps over three keys; all difference lists of up to 4 (5) over eight awkward values, all sizes to 60 (300) and up to 100000; all row lengths x numbers of systems; all matrices of the listed shapes over awkward values; invalid and tiny levels");
}
