//! C06 (cutoff, range, monotonicity) and C07 (only the query's own ranking and judgments matter).
use crate::common::*;
use crate::metrics_ref::*;
use elinor::*;

fn score(c: &Case, m: Metric, nm: Naming, w: &mut W) -> Option<f64> {
    let (t, p) = build(c, 0_u32, |d| d as u32, nm);
    value(&t, &p, m, &0, w)
}

fn bounded(m: Metric) -> bool {
    !matches!(m, Metric::Hits { .. } | Metric::DCG { .. } | Metric::DCGBurges { .. })
}

fn with_k(m: Metric, k: usize) -> Metric {
    match m {
        Metric::Hits { .. } => Metric::Hits { k },
        Metric::Success { .. } => Metric::Success { k },
        Metric::Precision { .. } => Metric::Precision { k },
        Metric::Recall { .. } => Metric::Recall { k },
        Metric::F1 { .. } => Metric::F1 { k },
        Metric::AP { .. } => Metric::AP { k },
        Metric::RR { .. } => Metric::RR { k },
        Metric::DCG { .. } => Metric::DCG { k },
        Metric::NDCG { .. } => Metric::NDCG { k },
        Metric::DCGBurges { .. } => Metric::DCGBurges { k },
        Metric::NDCGBurges { .. } => Metric::NDCGBurges { k },
        m => m,
    }
}

/// Truncates the ranking to its first k documents; what is cut and judged stays judged.
fn truncate(c: &Case, k: usize) -> Case {
    let mut d = c.clone();
    for g in d.ranked.drain(k.min(c.ranked.len())..).flatten() {
        d.rest.push(g);
    }
    d
}

fn reversed_tail(c: &Case, k: usize) -> Case {
    let mut d = c.clone();
    let k = k.min(d.ranked.len());
    d.ranked[k..].reverse();
    d
}

fn extended(c: &Case, suffix: &[Option<u32>]) -> Case {
    // Further retrieved documents; a judged one must have been judged before, so take it from `rest`.
    let mut d = c.clone();
    for s in suffix {
        match s {
            None => d.ranked.push(None),
            Some(g) => {
                if let Some(p) = d.rest.iter().position(|r| r == g) {
                    d.rest.remove(p);
                    d.ranked.push(Some(*g));
                }
            }
        }
    }
    d
}

fn relations(c: &Case, ks: &[usize], nm: Naming, w: &mut W) {
    let l = c.ranked.len();
    let eq = |a: f64, b: f64| same(a, b);
    for &k in ks {
        for m in all_metrics(k) {
            if k_of(m).is_none() && k != 0 {
                continue;
            }
            let Some(v) = score(c, m, nm, w) else { continue };
            w.outcome(&(m, v.to_bits()));
            if bounded(m) {
                w.check(v >= 0.0 && v <= 1.0 + 1e-12, || format!("{m} = {v} is outside [0,1]; {}", c.show()));
            } else {
                w.check(v >= 0.0, || format!("{m} = {v} is negative; {}", c.show()));
            }
            if k_of(m).is_some() && k > 0 {
                for d in [truncate(c, k), reversed_tail(c, k), extended(c, &[None, Some(1), Some(0), Some(2)])] {
                    // An extension only leaves the top k alone when the ranking already fills it.
                    if (d.ranked.len() > l && l < k) || d.ranked == c.ranked || d.ranked.is_empty() {
                        continue;
                    }
                    if let Some(u) = score(&d, m, nm, w) {
                        w.check(eq(u, v), || format!("{m} is {v} for {} but {u} for {}, which has the same top {k}", c.show(), d.show()));
                    }
                }
            }
            if k_of(m).is_some() && k == 0 {
                let mut same_as = vec![];
                if matches!(m, Metric::NDCG { .. } | Metric::NDCGBurges { .. }) {
                    same_as.extend([l.max(c.judged()), l.max(c.judged()) + 3]);
                } else {
                    same_as.push(l);
                }
                for k2 in same_as {
                    let m2 = with_k(m, k2);
                    if let Some(u) = score(c, m2, nm, w) {
                        w.check(eq(u, v), || format!("{m} = {v} but {m2} = {u}; {}", c.show()));
                    }
                }
            }
            // Promotion of a better judged document past its upper neighbour.
            for i in 0..l.saturating_sub(1) {
                let (a, b) = (c.ranked[i], c.ranked[i + 1]);
                let better = match (a, b) {
                    (Some(a), Some(b)) => b > a,
                    (None, Some(b)) => b >= 1,
                    _ => false,
                };
                if better {
                    let mut d = c.clone();
                    d.ranked.swap(i, i + 1);
                    if let Some(u) = score(&d, m, nm, w) {
                        w.check(u >= v - 1e-12 * v.abs().max(1.0), || format!("{m} drops from {v} to {u} when ranks {} and {} of {} are swapped", i + 1, i + 2, c.show()));
                    }
                }
            }
        }
    }
    w.trace();
}

pub fn c06(cx: &mut Cx) {
    cx.rule = "state = a distinct (graded ranking, unranked judged grades); transitions = metric evaluations, including those of every truncation, extension and adjacent swap".into();
    let th = cx.thorough;
    let sp = Space { alpha: vec![None, Some(0), Some(1), Some(2)], maxlen: if th { 6 } else { 5 }, rests: multisets(&[0, 1, 2], &[1, 1, 1]) };
    cx.family("all small rankings, all ks, all neighbours", sp.n(), |i, w| {
        let c = sp.at(i);
        if c.judged() == 0 {
            return;
        }
        w.at(|| c.show());
        w.state(&c);
        let nm = namings(i, false)[(i / 12 % 2) as usize];
        let mut ks: Vec<usize> = (0..=c.ranked.len().max(c.judged()) + 1).collect();
        ks.push(usize::MAX);
        relations(&c, &ks, nm, w);
        w.sample(|| c.show());
    });
    let sp2 = Space { alpha: vec![None, Some(0), Some(1)], maxlen: if th { 8 } else { 7 }, rests: vec![vec![], vec![1], vec![0, 0, 1, 1, 1]] };
    cx.family("binary rankings, selected ks, all neighbours", sp2.n(), |i, w| {
        let c = sp2.at(i);
        if c.judged() == 0 {
            return;
        }
        w.at(|| c.show());
        w.state(&c);
        let l = c.ranked.len();
        relations(&c, &[0, 1, l / 2 + 1, l, l + 1], Naming { ids: (i % 3) as u8, scores: 0 }, w);
    });
    // Ideal rankings.
    let top = if th { 5 } else { 4 };
    let ms = multisets(&[0, 1, 2, 3], &[top, top, 2, 2]);
    cx.family("ideal rankings", ms.len() as u64 * 8, |i, w| {
        let mut r = Radix(i);
        let mut g = r.pick(&ms).clone();
        let unj = r.take(4) as usize;
        let shuffled = r.take(2) == 1;
        if g.is_empty() {
            return;
        }
        g.sort_unstable_by(|a, b| b.cmp(a));
        let mut ranked: Vec<Option<u32>> = g.iter().map(|&x| Some(x)).collect();
        ranked.extend(vec![None; unj]);
        let ideal = Case { ranked: ranked.clone(), rest: vec![] };
        w.at(|| ideal.show());
        w.state(&ideal);
        let nm = Naming { ids: (i % 3) as u8, scores: (i % 2) as u8 };
        for k in (0..=ranked.len() + 1).chain([20, usize::MAX]) {
            for m in [Metric::NDCG { k }, Metric::NDCGBurges { k }] {
                if let Some(v) = score(&ideal, m, nm, w) {
                    w.check(same(v, 1.0), || format!("{m} = {v} for an ideal ranking {}", ideal.show()));
                }
            }
        }
        // All relevant first in any order of grade, the rest after or unranked.
        let nrel = ideal.n_rel();
        if nrel > 0 {
            let mut c = ideal.clone();
            if shuffled {
                c.ranked[..nrel].reverse();
                c.rest = c.ranked.drain(nrel..).flatten().collect();
            }
            for m in [Metric::AP { k: 0 }, Metric::Bpref, Metric::RPrecision, Metric::RR { k: 0 }, Metric::AP { k: nrel }, Metric::Success { k: 1 }, Metric::Recall { k: nrel }, Metric::Precision { k: nrel }, Metric::F1 { k: nrel }] {
                if let Some(v) = score(&c, m, nm, w) {
                    w.check(same(v, 1.0), || format!("{m} = {v} although all relevant documents come first: {}", c.show()));
                }
            }
        }
        w.trace();
    });
    // Long rankings: locality, range and promotion at every position.
    let lens: Vec<usize> = if th { vec![12, 20, 21, 33, 50, 64, 65, 100, 129, 200] } else { vec![12, 20, 21, 33, 64, 65, 129] };
    cx.family("long rankings", lens.len() as u64 * 12, |i, w| {
        let mut r = Radix(i);
        let l = *r.pick(&lens);
        let pat = r.take(12);
        let mut g = Lcg(i);
        let c = Case {
            ranked: (0..l)
                .map(|j| match pat {
                    0 => Some((j % 2) as u32),
                    1 => Some((j == l - 1) as u32),
                    2 => Some((j % 5 == 4) as u32 * 2),
                    3 => if j % 3 == 0 { None } else { Some((j % 4) as u32) },
                    4 => Some(j as u32 % 7),
                    5 => if j < l / 2 { None } else { Some(1) },
                    _ => [None, Some(0), Some(1), Some(2), Some(0), None][g.below(6) as usize],
                })
                .collect(),
            rest: (0..(pat as usize * 3) % 10).map(|_| g.below(3) as u32).collect(),
        };
        if c.judged() == 0 {
            return;
        }
        w.at(|| c.show());
        w.state(&c);
        let ks = [0, 1, 5, 10, 20, l / 2, l - 1, l, l + 1, 1000];
        relations(&c, &ks, Naming { ids: (i % 3) as u8, scores: (i % 2) as u8 }, w);
    });
    // A document that rises through a very long ranking, past every boundary a table, a buffer or a pool depth may have.
    let deep: Vec<usize> = if th { vec![300, 1030, 1200, 2100, 5000, 10_050] } else { vec![300, 1030, 1200, 2100] };
    let around = [10_usize, 20, 30, 50, 64, 100, 127, 128, 200, 250, 255, 256, 300, 499, 500, 511, 512, 750, 999, 1000, 1001, 1023, 1024, 1100, 1500, 1999, 2000, 2047, 2048, 3000, 4095, 4096, 4999, 9999, 10_000];
    cx.family("one document rising through a very long ranking", deep.len() as u64 * around.len() as u64 * 4 * 7, |i, w| {
        let mut r = Radix(i);
        let l = *r.pick(&deep);
        let at = *r.pick(&around);
        let fill = [None, Some(0), Some(1), Some(2)][r.take(4) as usize];
        if at + 3 > l || at * 5 < l {
            return;
        }
        let k = *r.pick(&[0, at, at + 1, at + 2, at + 60, l, usize::MAX]);
        w.at(|| format!("{l} documents of grade {fill:?} (None = unjudged), one of grade 3 around rank {at}, cutoff {k}"));
        w.state(&("deep", l, at, fill, k));
        {
            let mut last: Option<Vec<f64>> = None;
            // From rank at+3 up to rank at-1 (counted from one).
            for pos in [at + 2, at + 1, at, at - 1, at - 2] {
                let c = Case { ranked: (0..l).map(|j| if j == pos { Some(3) } else { fill }).collect(), rest: vec![] };
                let (t, p) = build(&c, 0_u32, |d| d as u32, namings(i, false)[(i % 2) as usize]);
                let inside = k == 0 || pos < k;
                let mut now = vec![];
                for m in all_metrics(k) {
                    if k_of(m).is_none() {
                        continue;
                    }
                    let v = value(&t, &p, m, &0, w).unwrap_or(f64::NAN);
                    if fill.unwrap_or(0) == 0 {
                        w.check((v > 0.0) == inside, || format!("{m} = {v} with the only relevant document at rank {} of {l}", pos + 1));
                    }
                    w.check(v.is_finite() && v >= 0.0 && (!bounded(m) || v <= 1.0 + 1e-12), || format!("{m} = {v}"));
                    now.push(v);
                }
                if let Some(last) = &last {
                    for ((m, a), b) in all_metrics(k).iter().filter(|m| k_of(**m).is_some()).zip(last).zip(&now) {
                        let ranked = matches!(m, Metric::DCG { .. } | Metric::NDCG { .. } | Metric::DCGBurges { .. } | Metric::NDCGBurges { .. }) || (matches!(m, Metric::AP { .. } | Metric::RR { .. }) && fill.unwrap_or(0) == 0);
                        let tol = 1e-12 * a.abs();
                        w.check(*b >= *a - tol && (!ranked || !inside || *b > *a), || format!("{m} goes from {a} to {b} when the document rises to rank {} of {l}", pos + 1));
                    }
                }
                last = Some(now);
            }
        }
        w.trace();
    });
    cx.bound("one document rising by single ranks past 35 boundaries of rankings of 300 to 2100 (10050) documents, over four kinds of other documents");
    cx.bound("all rankings over {unjudged,0,1,2} up to length 5 (6) x 8 unranked sets at every k with every truncation, tail reversal, extension and adjacent swap; all ideal rankings of up to 12 judged documents; 12 patterns at lengths up to 129 (200)");
}

// ---------------------------------------------------------------- C07

fn all_scores(t: &TrueRelStore<String>, p: &PredRelStore<String>, q: &str, ks: &[usize], w: &mut W) -> Vec<(Metric, f64)> {
    let mut v = vec![];
    for &k in ks {
        for m in all_metrics(k) {
            if k_of(m).is_some() || k == 0 {
                w.op();
                match metrics::compute_metric(t, p, m) {
                    Ok(r) => v.push((m, r.get(q).copied().unwrap_or(f64::NEG_INFINITY))),
                    Err(e) => w.fail("", format!("{m}: {e:?}")),
                }
            }
        }
    }
    v
}

fn binary_metric(m: Metric) -> bool {
    !matches!(m, Metric::DCG { .. } | Metric::NDCG { .. } | Metric::DCGBurges { .. } | Metric::NDCGBurges { .. })
}

fn variants(c: &Case, w: &mut W) {
    let ks = [0, 1, 2, c.ranked.len(), c.ranked.len() + 1];
    let base = {
        let (t, p) = build(c, "m".to_string(), |d| format!("d{:04}", d), Naming { ids: 0, scores: 0 });
        all_scores(&t, &p, "m", &ks, w)
    };
    let cmp = |what: &str, got: Vec<(Metric, f64)>, all: bool, w: &mut W| {
        for ((m, a), (_, b)) in base.iter().zip(&got) {
            if all || binary_metric(*m) {
                w.check(same(*b, *a), || format!("{m} is {a}, but {b} {what}; {}", c.show()));
            }
        }
        w.trace();
    };
    for scores in 0..8_u8 {
        for ids in 0..3_u8 {
            if ![0, 1, 2, 4].contains(&scores) && ids != 1 {
                continue; // tied: only ids along the rank order keep the ranking
            }
            let (t, p) = build(c, "m".to_string(), |d| format!("d{:04}", d), Naming { ids, scores });
            let got = all_scores(&t, &p, "m", &ks, w);
            cmp(&format!("with score scheme {scores} and id scheme {ids}"), got, true, w);
        }
    }
    // Another key type and other names in the same order.
    {
        let (t, p) = build(c, 7_u32, |d| d as u32 * 1000 + 1, Naming { ids: 0, scores: 0 });
        let mut got = vec![];
        for (m, _) in &base {
            got.push((*m, value(&t, &p, *m, &7, w).unwrap_or(f64::NEG_INFINITY)));
        }
        cmp("with integer ids", got, true, w);
        let (t, p) = build(c, "é\u{1F600}".to_string(), |d| format!("{}{:05}\u{7f}", "z".repeat(20), d * 3), Naming { ids: 0, scores: 0 });
        let got = all_scores(&t, &p, "é\u{1F600}", &ks, w);
        cmp("with other ids in the same order", got, true, w);
    }
    // Other queries around it, ranked and judged on the same documents in other ways.
    for others in 0..4_u8 {
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let name = |d: usize| format!("d{:04}", d);
        let mut o1 = c.clone();
        o1.ranked.reverse();
        o1.rest.push(1);
        let o2 = Case { ranked: vec![Some(2), None, Some(0)], rest: vec![1, 1, 0] };
        if others & 1 == 1 {
            add(&o1, &"a".to_string(), &name, Naming { ids: 1, scores: 2 }, &mut t, &mut p);
        }
        add(c, &"m".to_string(), &name, Naming { ids: 0, scores: 0 }, &mut t, &mut p);
        if others & 2 == 2 {
            add(&o2, &"z".to_string(), &name, Naming { ids: 2, scores: 1 }, &mut t, &mut p);
        } else {
            // judged only
            t.add_record("z".to_string(), "d0000".to_string(), 3).unwrap();
        }
        let (t, p) = (t.build(), p.build());
        let got = all_scores(&t, &p, "m", &ks, w);
        cmp(&format!("next to other queries (variant {others})"), got, true, w);
    }
    // Re-grading within the relevant side.
    for f in 0..3_u8 {
        let map = |g: u32| if g == 0 { 0 } else { [1, 9, u32::MAX - g][f as usize] };
        let d = Case { ranked: c.ranked.iter().map(|g| g.map(map)).collect(), rest: c.rest.iter().map(|&g| map(g)).collect() };
        let (t, p) = build(&d, "m".to_string(), |d| format!("d{:04}", d), Naming { ids: 0, scores: 0 });
        let got = all_scores(&t, &p, "m", &ks, w);
        cmp(&format!("after regrading to {}", d.show()), got, false, w);
    }
}

pub fn c07(cx: &mut Cx) {
    cx.rule = "state = a distinct (graded ranking, unranked judged grades); each is realised by every score/id/key-type/neighbouring-query scheme and all scores must agree".into();
    let th = cx.thorough;
    let sp = Space { alpha: vec![None, Some(0), Some(1), Some(3)], maxlen: if th { 7 } else { 6 }, rests: multisets(&[0, 1, 2], &[1, 1, 1]) };
    cx.family("all small rankings x realisations", sp.n(), |i, w| {
        let c = sp.at(i);
        if c.judged() == 0 {
            return;
        }
        w.at(|| c.show());
        w.state(&c);
        variants(&c, w);
        w.sample(|| c.show());
    });
    // All pairs of small queries in one store, judged and ranked on the same documents.
    let sp = Space { alpha: vec![None, Some(0), Some(1), Some(2)], maxlen: 3, rests: multisets(&[0, 1, 2], &[1, 1, 2]) };
    let cs: Vec<Case> = (0..sp.n()).map(|i| sp.at(i)).filter(|c| c.judged() > 0).collect();
    let ks = [0, 1, 2, 5];
    let ms: Vec<Metric> = ks.iter().flat_map(|&k| all_metrics(k).into_iter().filter(move |&m| k == 0 || k_of(m).is_some())).collect();
    let name = |d: usize| format!("d{d}");
    let nm = Naming { ids: 1, scores: 0 };
    let alone: Vec<Vec<f64>> = cs
        .iter()
        .map(|c| {
            let (t, p) = build(c, "m".to_string(), name, nm);
            ms.iter().map(|&m| value(&t, &p, m, &"m".to_string(), &mut W::default()).unwrap_or(f64::NEG_INFINITY)).collect()
        })
        .collect();
    let (ms, cs, alone) = (&ms, &cs, &alone);
    let n = cs.len() as u64;
    cx.family("all pairs of small queries in one store", n * n, |i, w| {
        let (a, b) = ((i % n) as usize, (i / n) as usize);
        w.at(|| format!("first query: {}; second query: {}", cs[a].show(), cs[b].show()));
        w.state(&("pair", a, b));
        let (mut t, mut p) = (TrueRelStoreBuilder::new(), PredRelStoreBuilder::new());
        add(&cs[a], &"a".to_string(), &name, nm, &mut t, &mut p);
        add(&cs[b], &"b".to_string(), &name, nm, &mut t, &mut p);
        let (t, p) = (t.build(), p.build());
        for (j, &m) in ms.iter().enumerate() {
            w.op();
            match metrics::compute_metric(&t, &p, m) {
                Ok(r) => {
                    for (q, c) in [("a", a), ("b", b)] {
                        let (v, want) = (r.get(q).copied().unwrap_or(f64::NAN), alone[c][j]);
                        w.check(same(v, want), || format!("{m} of query {q} is {v}, but {want} when it is alone"));
                    }
                }
                Err(e) => w.fail("", format!("{m}: {e:?}")),
            }
        }
        w.trace();
    });
    cx.bound("all ordered pairs of queries with up to 3 ranked documents over {unjudged,0,1,2} and 12 unranked sets in one store, each scored as when alone");
    let lens = [9_usize, 16, 17, 21, 32, 33, 65, 100, 130];
    cx.family("long rankings x realisations", lens.len() as u64 * 8, |i, w| {
        let mut r = Radix(i);
        let l = *r.pick(&lens);
        let mut g = Lcg(i);
        let c = Case {
            ranked: (0..l).map(|_| [None, Some(0), Some(1), Some(2), Some(0), Some(0)][g.below(6) as usize]).collect(),
            rest: (0..1 + i % 6).map(|_| g.below(3) as u32).collect(),
        };
        w.at(|| c.show());
        w.state(&c);
        variants(&c, w);
    });
    // Documents and queries under every kind of name, the query's own among them.
    let odd: Vec<String> = ["q", "Q", "", " ", "q ", "0", "00", "-1", "1", "true", "null", "NaN", "inf", "Q0", "iter", "run", "_", "-", "#", "q1", "q\0", "\0", "\t", "\n", "\u{feff}", "\u{feff}q", "é", "e\u{301}", "ß", "SS", "\u{10ffff}", "all", "total", "mean", "doc", "query", "d", "d0", "d10", "d2"]
        .iter()
        .map(|s| s.to_string())
        .chain(["x".repeat(300), "q".repeat(70000)])
        .collect();
    let sp = Space { alpha: vec![None, Some(0), Some(1), Some(2)], maxlen: 3, rests: multisets(&[0, 1], &[1, 1]) };
    let no = odd.len() as u64;
    cx.family("queries and documents under every kind of name", sp.n() * no * 3, |i, w| {
        let mut r = Radix(i);
        let (at, q) = (r.take(no) as usize, r.take(3) as usize);
        let c = sp.at(r.0);
        if c.judged() == 0 || (odd[at].len() > 1000 && c.ranked.len() != 2) {
            return;
        }
        // neighbours in the list, so that each name meets each rank
        let id = |d: usize| odd[(at + d) % odd.len()].clone();
        let q = ["m".to_string(), id(0), id(c.ranked.len())][q].clone();
        w.at(|| format!("query {:?}, documents {:?}..; {}", &q.chars().take(20).collect::<String>(), odd[at].chars().take(20).collect::<String>(), c.show()));
        w.state(&("names", at, &q, &c));
        let ks = [0, 1, 2];
        let (t, p) = build(&c, "m".to_string(), |d| format!("d{d:04}"), Naming { ids: 0, scores: 0 });
        let base = all_scores(&t, &p, "m", &ks, w);
        for ids in 0..2 {
            let (t, p) = build(&c, q.clone(), id, Naming { ids, scores: 0 });
            for ((m, a), (_, b)) in base.iter().zip(all_scores(&t, &p, &q, &ks, w)) {
                w.check(same(*a, b), || format!("{m} is {a} under plain names, but {b} under these"));
            }
        }
        w.trace();
    });
    cx.family("queries and documents numbered alike", sp.n() * 6, |i, w| {
        let mut r = Radix(i);
        let q = [0_u32, 1, 2, 3, 7, u32::MAX][r.take(6) as usize];
        let c = sp.at(r.0);
        if c.judged() == 0 {
            return;
        }
        w.at(|| format!("query {q}, documents from 0 (or down from the largest); {}", c.show()));
        w.state(&("numbers", q, &c));
        let ks = [0, 1, 2];
        let (t, p) = build(&c, "m".to_string(), |d| format!("d{d:04}"), Naming { ids: 0, scores: 0 });
        let base = all_scores(&t, &p, "m", &ks, w);
        for down in [false, true] {
            let (t, p) = build(&c, q, |d| if down { u32::MAX - d as u32 } else { d as u32 }, Naming { ids: 1, scores: 0 });
            for (m, a) in &base {
                let b = value(&t, &p, *m, &q, w).unwrap_or(f64::NEG_INFINITY);
                w.check(same(*a, b), || format!("{m} is {a} under plain names, but {b} under these"));
            }
        }
        w.trace();
    });
    // Every assignment of tied scores: the ranking is decided by (score desc, id asc) alone.
    let n = 5;
    cx.family("every tie structure: equal to the same ranking without ties", 4_u64.pow(5) * 32, |i, w| {
        let mut r = Radix(i);
        let sc = r.vec(4, n);
        let rel = r.take(32);
        let grade = |d: usize| (rel >> d & 1) as u32;
        w.at(|| format!("scores {sc:?} of d0..d4, relevant set {rel:05b}"));
        w.state(&("tie", &sc, rel));
        let vals = [-0.0, 0.0, 2.5, 7.0]; // -0.0 and 0.0 are the same score
        let tied = |d: usize| vals[sc[d] as usize];
        let mut order2: Vec<usize> = (0..n).collect();
        for a in 1..n {
            let mut b = a;
            while b > 0 && tied(order2[b]) > tied(order2[b - 1]) {
                order2.swap(b, b - 1);
                b -= 1;
            }
        }
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let mut p2 = PredRelStoreBuilder::new();
        for d in 0..n {
            let id = format!("d{d}");
            t.add_record("q".to_string(), id.clone(), grade(d)).unwrap();
            p.add_record("q".to_string(), id.clone(), tied(d).into()).unwrap();
            let rank = order2.iter().position(|&x| x == d).unwrap();
            p2.add_record("q".to_string(), id, (-(rank as f64)).into()).unwrap();
        }
        let (t, p, p2) = (t.build(), p.build(), p2.build());
        let ks = [0, 1, 2, 3];
        let a = all_scores(&t, &p, "q", &ks, w);
        let b = all_scores(&t, &p2, "q", &ks, w);
        for ((m, x), (_, y)) in a.iter().zip(&b) {
            w.check(same(*x, *y), || format!("{m} is {x} with tied scores but {y} when the same ranking {order2:?} is given without ties"));
        }
        w.trace();
    });
    cx.bound("all rankings over {unjudged,0,1,3} up to length 6 (7) x 8 unranked sets, each in 16 score/id schemes, 3 key spaces, 4 query contexts and 3 regradings; every tie structure of 5 documents x every relevant set; all rankings of up to 3 documents under 42 kinds of names, the query named as a document too");
}
