//! C03-C05: metric values against their definitions.
use crate::common::*;
use crate::metrics_ref::*;
use elinor::*;
use std::fmt::{Debug, Display};

fn compare<K>(c: &Case, t: &TrueRelStore<K>, p: &PredRelStore<K>, ms: &[Metric], q: &K, w: &mut W)
where
    K: Clone + Eq + Ord + Display + Debug,
{
    for &m in ms {
        let Some(got) = value(t, p, m, q, w) else { continue };
        let want = reference(c, m);
        w.outcome(&(m, got.to_bits()));
        w.check(same(got, want), || format!("{m} = {got}, by definition {want}; {}", c.show()));
    }
    w.trace();
}

fn select(ks: &[usize], sel: fn(Metric) -> bool) -> Vec<Metric> {
    let mut v = vec![];
    for &k in ks {
        for m in all_metrics(k) {
            if sel(m) && (k_of(m).is_some() || k == 0) {
                v.push(m);
            }
        }
    }
    v
}

fn small<K>(cx: &mut Cx, ty: &str, sp: &Space, sel: fn(Metric) -> bool, name: impl Fn(usize) -> K + Sync, q: K)
where
    K: Clone + Eq + Ord + Display + Debug + Sync,
{
    let fam = format!("all rankings over {} symbols up to length {} x {} unranked sets <{ty}>", sp.alpha.len(), sp.maxlen, sp.rests.len());
    let every = cx.thorough;
    cx.family(&fam, sp.n(), |i, w| {
        let c = sp.at(i);
        if c.judged() == 0 {
            return;
        }
        w.state(&(ty, &c));
        let ms = select(&ks_for(c.ranked.len(), c.judged()), sel);
        for mut nm in namings(i, every && c.ranked.len() <= 4) {
            if ty == "Rev" && [3, 5, 6, 7].contains(&nm.scores) {
                nm.ids = 0; // tied: the order of these ids is reversed
            }
            w.at(|| format!("{} naming {nm:?}", c.show()));
            let (t, p) = build(&c, q.clone(), &name, nm);
            compare(&c, &t, &p, &ms, &q, w);
        }
        w.sample(|| c.show());
    });
}

/// Structured long rankings: every position of a single relevant document, prefixes, suffixes, periods.
pub fn long_case(l: usize, pat: u64, pos: usize, g: u32, rest: &[u32], fill: Option<u32>) -> Case {
    let on = |i: usize| match pat {
        0 => i == pos,
        1 => i < pos,
        2 => i >= pos,
        3 => i % 2 == pos % 2,
        4 => i % (pos + 2) == 0,
        5 => i == pos || i == 0,
        6 => i == pos || i + 1 == l,
        _ => i != pos,
    };
    Case {
        ranked: (0..l)
            .map(|i| {
                if on(i) {
                    Some(g + if pat == 4 { (i % 3) as u32 } else { 0 })
                } else if pat >= 5 && i % 3 == 1 {
                    if fill.is_none() { Some(0) } else { None }
                } else {
                    fill
                }
            })
            .collect(),
        rest: rest.to_vec(),
    }
}

fn long(cx: &mut Cx, sel: fn(Metric) -> bool, grades: &'static [u32]) {
    let lens: Vec<usize> = if cx.thorough { (7..=70).chain([100, 127, 128, 129, 130, 200, 256, 257]).collect() } else { vec![7, 8, 9, 10, 11, 12, 15, 16, 17, 19, 20, 21, 22, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 101, 128, 129] };
    let rests: Vec<Vec<u32>> = vec![vec![], vec![1], vec![0, 0], vec![2, 1, 0, 3, 1], vec![1; 40], vec![0; 150]];
    let mut index: Vec<(usize, u64, usize)> = vec![];
    for &l in &lens {
        for pat in 0..8 {
            let ps: Vec<usize> = match pat {
                3 => vec![0, 1],
                4 => vec![0, 1, 3, 8],
                0 | 1 => (0..l).collect(),
                _ => (0..l).filter(|p| cx.thorough || p % 3 == 0 || *p < 4 || *p + 4 > l).collect(),
            };
            for p in ps {
                index.push((l, pat, p));
            }
        }
    }
    cx.family("structured rankings of length 7 to 257", index.len() as u64 * rests.len() as u64 * 2, |i, w| {
        let mut r = Radix(i);
        let (l, pat, pos) = *r.pick(&index);
        let rest = r.pick(&rests).clone();
        let fill = if r.take(2) == 0 { Some(0) } else { None };
        let g = grades[(i % grades.len() as u64) as usize];
        let c = long_case(l, pat, pos, g, &rest, fill);
        if c.judged() == 0 {
            return;
        }
        w.at(|| format!("length {l} pattern {pat} position {pos} rest {rest:?} fill {fill:?} grade {g}"));
        w.state(&c);
        let mut ks = vec![0, 1, 2, 3, 5, 10, 15, 20, 30, 50, 64, 100, 128, 200, 1000];
        ks.extend([pos, pos + 1, pos + 2, l - 1, l, l + 1, c.n_rel(), c.judged()]);
        ks.sort_unstable();
        ks.dedup();
        for nm in namings(i, false) {
            // Ids of one width, so that their order is that of the numbers.
            let (t, p) = build(&c, "q".to_string(), |d| format!("d{d:04}"), nm);
            compare(&c, &t, &p, &select(&ks, sel), &"q".to_string(), w);
        }
    });
    // TREC-sized runs.
    let big: Vec<(usize, usize)> = vec![(1000, 0), (1000, 100), (1500, 1000), (2100, 50)];
    cx.family("structured rankings of length 1000 to 2100", big.len() as u64 * 6, |i, w| {
        let mut r = Radix(i);
        let (l, nrest) = *r.pick(&big);
        let pat = r.take(6);
        let c = Case {
            ranked: (0..l)
                .map(|j| match pat {
                    0 => Some((j == l - 1) as u32),
                    1 => Some((j % 10 == 9) as u32 * 2),
                    2 => if j % 3 == 0 { None } else { Some((j % 5 == 0) as u32) },
                    3 => Some(1),
                    4 => Some((j >= 500) as u32),
                    _ => Some((j % 4) as u32),
                })
                .collect(),
            rest: (0..nrest).map(|j| (j % 2) as u32).collect(),
        };
        w.at(|| format!("length {l}, {nrest} unranked, pattern {pat}"));
        w.state(&("big", i));
        for nm in namings(i, false) {
            let (t, p) = build(&c, 1_u32, |d| d as u32, nm);
            compare(&c, &t, &p, &select(&[0, 10, 100, 500, 999, 1000, 1001, 1024, 2000], sel), &1, w);
        }
    });
    // Rankings and judgments past the 16-bit limit.
    let huge: Vec<(usize, usize)> = vec![(65_534, 3), (65_535, 0), (65_536, 0), (65_537, 70_000), (70_001, 2), (10, 66_000), (131_073, 0)];
    cx.family("rankings and judgments past the 16-bit limit", huge.len() as u64 * 6, |i, w| {
        let mut r = Radix(i);
        let (l, nrest) = *r.pick(&huge);
        let pat = r.take(6);
        let g = grades[0].max(2);
        let c = Case {
            ranked: (0..l)
                .map(|j| match pat {
                    0 => Some((j + 1 == l) as u32 * g),
                    1 => Some((j > l / 2) as u32),
                    2 => if j % 3 == 0 { None } else { Some((j % 5 == 0) as u32) },
                    3 => Some(1),
                    4 => Some(if j < 65_536 { 0 } else { g }),
                    _ => Some((j % 1009 == 1008 || j + 2 == l) as u32),
                })
                .collect(),
            rest: (0..nrest).map(|j| if pat == 1 { 0 } else { (j % 2) as u32 }).collect(),
        };
        if c.judged() == 0 {
            return;
        }
        w.at(|| format!("length {l}, {nrest} unranked, pattern {pat}"));
        w.state(&("huge", i));
        let nm = Naming { ids: (i % 3) as u8, scores: [0, 1, 2][(i / 3 % 3) as usize] };
        let (t, p) = build(&c, 1_u32, |d| d as u32, nm);
        for m in select(&[0, 10, 65_535, 65_536, 65_537, l, l + 1], sel) {
            // Average precision recounts the ranking at every relevant document.
            if let Metric::AP { k } = m {
                let k = if k == 0 { l } else { k };
                let cost: u64 = c.ranked.iter().take(k).enumerate().filter(|(_, g)| g.unwrap_or(0) > 0).map(|(j, _)| j as u64).sum();
                if cost > 10_000_000 {
                    continue;
                }
            }
            let Some(got) = value(&t, &p, m, &1, w) else { continue };
            let want = reference(&c, m);
            w.check(same(got, want), || format!("{m} = {got}, by definition {want}"));
        }
        w.trace();
    });
    // Many queries at once: each query's value must be its own.
    let many: Vec<usize> = vec![2, 3, 10, 33, 65, 130, 300];
    cx.family("many queries in one store", many.len() as u64 * 4, |i, w| {
        let mut r = Radix(i);
        let nq = *r.pick(&many);
        let var = r.take(4);
        w.at(|| format!("{nq} queries, variant {var}"));
        w.state(&("many", i));
        let mut t = TrueRelStoreBuilder::new();
        let mut p = PredRelStoreBuilder::new();
        let mut cases = vec![];
        let mut g = Lcg(i);
        for q in 0..nq {
            let l = 1 + (q * 5 + var as usize) % 13;
            let c = Case {
                ranked: (0..l).map(|_| [None, Some(0), Some(1), Some(2)][g.below(4) as usize]).collect(),
                rest: (0..1 + q % 4).map(|_| g.below(3) as u32).collect(),
            };
            add(&c, &format!("q{q}"), &|d| format!("d{d}"), Naming { ids: (q % 3) as u8, scores: (q % 3) as u8 }, &mut t, &mut p);
            cases.push(c);
        }
        let (t, p) = (t.build(), p.build());
        for m in select(&[0, 1, 3, 10, 1000], sel) {
            w.op();
            match metrics::compute_metric(&t, &p, m) {
                Ok(r) => {
                    w.check(r.len() == nq, || format!("{m}: {} scores", r.len()));
                    for (q, c) in cases.iter().enumerate() {
                        let got = r.get(&format!("q{q}")).copied().unwrap_or(f64::NAN);
                        let want = reference(c, m);
                        w.check(same(got, want), || format!("{m} of q{q} = {got}, by definition {want}; {}", c.show()));
                    }
                }
                Err(e) => w.fail("", format!("{m}: {e:?}")),
            }
        }
        w.trace();
    });
}

fn is_set(m: Metric) -> bool {
    matches!(m, Metric::Hits { .. } | Metric::Success { .. } | Metric::Precision { .. } | Metric::Recall { .. } | Metric::F1 { .. } | Metric::RPrecision)
}
fn is_order(m: Metric) -> bool {
    matches!(m, Metric::AP { .. } | Metric::RR { .. } | Metric::Bpref)
}
fn is_dcg(m: Metric) -> bool {
    matches!(m, Metric::DCG { .. } | Metric::NDCG { .. } | Metric::DCGBurges { .. } | Metric::NDCGBurges { .. })
}

fn binary(cx: &mut Cx, sel: fn(Metric) -> bool) {
    let th = cx.thorough;
    let a3 = vec![None, Some(0), Some(1)];
    let a5 = vec![None, Some(0), Some(1), Some(2)];
    let sp = Space { alpha: a3.clone(), maxlen: if th { 9 } else { 7 }, rests: multisets(&[0, 1], &[2, 3]) };
    small(cx, "u32", &sp, sel, |d| d as u32, 0_u32);
    let sp = Space { alpha: a5, maxlen: if th { 6 } else { 5 }, rests: multisets(&[0, 1, 2], &[2, 1, 1]) };
    small(cx, "String", &sp, sel, |d| format!("d{d}"), "q".to_string());
    let sp = Space { alpha: a3.clone(), maxlen: 4, rests: multisets(&[0, 1], &[4, 6]) };
    small(cx, "Rev", &sp, sel, |d| Rev(d as u32), Rev(3));
    small(cx, "keys without case", &sp, sel, |d| Ci(["a", "B", "c", "D", "e", "F", "g", "H", "i", "J", "k", "L", "m", "N", "o", "P"][d]), Ci("Q"));
    small(cx, "char", &sp, sel, |d| char::from_u32('a' as u32 + d as u32).unwrap(), 'q');
    // Which grades count as relevant: everything from 1 up, however large.
    let big = vec![None, Some(0), Some(1), Some(3), Some(255), Some(256), Some(65536), Some(i32::MAX as u32), Some(1 << 31), Some(u32::MAX)];
    let sp = Space { alpha: big, maxlen: 3, rests: vec![vec![], vec![u32::MAX], vec![0, 1 << 31], vec![256, 2]] };
    small(cx, "u32 big grades", &sp, sel, |d| d as u32, 9_u32);
    long(cx, sel, &[1, 2, 1 << 31, 256]);
    cx.bound("all rankings over {unjudged, 0, 1} up to length 7 (thorough 9) x 12 unranked judged multisets, over {unjudged,0,1,2} up to 5 (6), boundary grades up to 2^32-1, every k from 0 past both lengths and 2^31..2^64-1");
    cx.bound("structured rankings up to length 257 with every position of a distinguished document, and 1000-2100 documents");
}

pub fn c03(cx: &mut Cx) {
    cx.rule = "state = a distinct (graded ranking, unranked judged grades); every metric at every k is computed by the real library and compared with the definition".into();
    binary(cx, is_set);
}

pub fn c04(cx: &mut Cx) {
    cx.rule = "state = a distinct (graded ranking, unranked judged grades); every metric at every k is computed by the real library and compared with the definition".into();
    binary(cx, is_order);
}

pub fn c05(cx: &mut Cx) {
    cx.rule = "state = a distinct (graded ranking, unranked judged grades); every metric at every k is computed by the real library and compared with the definition".into();
    let th = cx.thorough;
    let sp = Space { alpha: vec![None, Some(0), Some(1), Some(2), Some(5)], maxlen: if th { 6 } else { 5 }, rests: multisets(&[0, 1, 3], &[1, 2, 1]) };
    small(cx, "u32", &sp, is_dcg, |d| d as u32, 0_u32);
    let sp = Space { alpha: vec![Some(0), Some(1), Some(2), Some(3)], maxlen: if th { 7 } else { 6 }, rests: vec![vec![], vec![3], vec![1, 2]] };
    small(cx, "String", &sp, is_dcg, |d| format!("d{d}"), "q".to_string());
    let sp = Space { alpha: vec![None, Some(0), Some(2)], maxlen: 4, rests: multisets(&[0, 1, 2, 3], &[1, 2, 2, 1]) };
    small(cx, "Rev", &sp, is_dcg, |d| Rev(d as u32), Rev(1));
    small(cx, "keys without case", &sp, is_dcg, |d| Ci(["a", "B", "c", "D", "e", "F", "g", "H", "i", "J", "k", "L", "m", "N", "o", "P"][d]), Ci("Q"));
    small(cx, "char", &sp, is_dcg, |d| char::from_u32('a' as u32 + d as u32).unwrap(), 'q');
    // Large grades.
    fn jarvelin(m: Metric) -> bool {
        matches!(m, Metric::DCG { .. } | Metric::NDCG { .. })
    }
    let big = vec![None, Some(0), Some(1), Some(127), Some(128), Some(255), Some(256), Some(65535), Some(65536), Some(i32::MAX as u32), Some(1 << 31), Some(u32::MAX)];
    let sp = Space { alpha: big, maxlen: if th { 4 } else { 3 }, rests: vec![vec![], vec![u32::MAX], vec![0, 1 << 31], vec![300, 2]] };
    small(cx, "u32 large grades", &sp, jarvelin, |d| d as u32, 9_u32);
    let big = vec![None, Some(0), Some(1), Some(4), Some(8), Some(16), Some(31), Some(32), Some(33), Some(63), Some(64), Some(65), Some(127), Some(128), Some(1000)];
    let sp = Space { alpha: big, maxlen: 3, rests: vec![vec![], vec![64], vec![0, 31], vec![500, 2]] };
    small(cx, "u32 large gains", &sp, is_dcg, |d| d as u32, 9_u32);
    // Every grade from 0 to 1023, alone.
    cx.family("every grade 0..1023", 1024, |i, w| {
        let c = Case { ranked: vec![Some(0), Some(i as u32)], rest: vec![] };
        w.at(|| c.show());
        w.state(&c);
        let (t, p) = build(&c, 1_u32, |d| d as u32, Naming { ids: 0, scores: 0 });
        compare(&c, &t, &p, &select(&[0, 1, 2], is_dcg), &1, w);
    });
    // Two neighbouring grades around every power of two, in both orders, with and without a third:
    // nothing about a grade may be lost on its way into the gain or into the ideal ranking.
    let mut near = vec![];
    for j in 1..32_u32 {
        for a in -2_i64..=2 {
            for b in -2_i64..=2 {
                near.push((((1_i64 << j) + a) as u32, ((1_i64 << j) + b) as u32));
            }
        }
    }
    for a in 0..4_u32 {
        for b in 0..4_u32 {
            near.push((u32::MAX - a, u32::MAX - b));
            near.push((i32::MAX as u32 - a, i32::MAX as u32 + b));
        }
    }
    let near = &near;
    cx.family("neighbouring grades around every power of two", near.len() as u64 * 5, |i, w| {
        let mut r = Radix(i);
        let (a, b) = *r.pick(near);
        let c = match r.take(5) {
            0 => Case { ranked: vec![Some(a), Some(b)], rest: vec![] },
            1 => Case { ranked: vec![Some(a)], rest: vec![b] },
            2 => Case { ranked: vec![None, Some(a), Some(b)], rest: vec![a, b] },
            3 => Case { ranked: vec![Some(a), Some(a), Some(b), Some(b)], rest: vec![] },
            _ => Case { ranked: vec![Some(0), Some(b)], rest: vec![a, 0] },
        };
        w.at(|| c.show());
        w.state(&c);
        // below 2^10 both gains are finite; the differences there are large
        let ms = select(&[0, 1, 2, 3], if a.max(b) < 1000 { is_dcg } else { jarvelin });
        for nm in namings(i, false) {
            let (t, p) = build(&c, 1_u32, |d| d as u32, nm);
            for &m in &ms {
                let Some(got) = value(&t, &p, m, &1, w) else { continue };
                let want = reference(&c, m);
                w.check(same(got, want) && closet(got, want, 1e-13), || format!("{m} = {got}, by definition {want}; {}", c.show()));
            }
            w.trace();
        }
    });
    // A gain too large to represent must never come out as an ordinary number.
    let over = [1024_u32, 2000, i32::MAX as u32 - 1, i32::MAX as u32, 1 << 31, (1 << 31) + 1, u32::MAX];
    cx.family("gains beyond the floating-point range", over.len() as u64, |i, w| {
        let g = over[i as usize];
        let c = Case { ranked: vec![Some(g), Some(1)], rest: vec![] };
        w.at(|| c.show());
        w.state(&c);
        let (t, p) = build(&c, 1_u32, |d| d as u32, Naming { ids: 0, scores: 0 });
        if let Some(v) = value(&t, &p, Metric::DCGBurges { k: 0 }, &1, w) {
            w.check(v == f64::INFINITY, || format!("dcg_burges = {v} for a gain of 2^{g}-1"));
        }
        w.trace();
    });
    long(cx, is_dcg, &[1, 2, 3, 10]);
    cx.bound("all rankings over {unjudged,0,1,2,5} up to length 5 (thorough 6) x 12 unranked multisets; grades at every 8/16/31/32-bit boundary up to length 3; every grade 0..1023; every k from 0 past both lengths and 2^31..2^64-1");
}
