//! Reference semantics of the metrics: a ranking is a list of grades (None = unjudged)
//! in rank order plus the grades of judged documents that were not ranked.

use crate::common::*;
use elinor::*;
use std::fmt::{Debug, Display};

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Case {
    pub ranked: Vec<Option<u32>>,
    pub rest: Vec<u32>,
}

impl Case {
    pub fn judged(&self) -> usize {
        self.ranked.iter().flatten().count() + self.rest.len()
    }
    pub fn grades(&self) -> Vec<u32> {
        self.ranked.iter().flatten().chain(self.rest.iter()).copied().collect()
    }
    pub fn n_rel(&self) -> usize {
        self.grades().iter().filter(|&&g| g >= 1).count()
    }
    pub fn show(&self) -> String {
        let r: Vec<String> = self.ranked.iter().map(|g| g.map_or("?".into(), |g| g.to_string())).collect();
        format!("ranking (grades by rank, ?=unjudged) [{}], judged but not ranked {:?}", r.join(" "), self.rest)
    }
}

pub fn all_metrics(k: usize) -> Vec<Metric> {
    vec![
        Metric::Hits { k },
        Metric::Success { k },
        Metric::Precision { k },
        Metric::Recall { k },
        Metric::F1 { k },
        Metric::AP { k },
        Metric::RR { k },
        Metric::DCG { k },
        Metric::NDCG { k },
        Metric::DCGBurges { k },
        Metric::NDCGBurges { k },
        Metric::RPrecision,
        Metric::Bpref,
    ]
}

pub fn k_of(m: Metric) -> Option<usize> {
    match m {
        Metric::Hits { k }
        | Metric::Success { k }
        | Metric::Precision { k }
        | Metric::Recall { k }
        | Metric::F1 { k }
        | Metric::AP { k }
        | Metric::RR { k }
        | Metric::DCG { k }
        | Metric::NDCG { k }
        | Metric::DCGBurges { k }
        | Metric::NDCGBurges { k } => Some(k),
        _ => None,
    }
}

fn dcg(grades: impl Iterator<Item = u32>, k: usize, burges: bool) -> f64 {
    let mut s = 0.0;
    for (i, g) in grades.enumerate() {
        if k != 0 && i >= k {
            break;
        }
        let gain = if burges { (g as f64).exp2() - 1.0 } else { g as f64 };
        s += gain / ((i as f64 + 2.0).ln() / std::f64::consts::LN_2);
    }
    s
}

fn ratio(a: f64, b: f64) -> f64 {
    if b == 0.0 {
        0.0
    } else {
        a / b
    }
}

pub fn reference(c: &Case, m: Metric) -> f64 {
    let l = c.ranked.len();
    let top = |k: usize| if k == 0 { l } else { k.min(l) };
    let rel = |i: usize| c.ranked[i].map_or(false, |g| g >= 1);
    let hits = |k: usize| (0..top(k)).filter(|&i| rel(i)).count() as f64;
    let n_rel = c.n_rel() as f64;
    let n_non = c.judged() as f64 - n_rel;
    let denom = |k: usize| if k == 0 { l as f64 } else { k as f64 };
    match m {
        Metric::Hits { k } => hits(k),
        Metric::Success { k } => (hits(k) > 0.0) as u32 as f64,
        Metric::Precision { k } => ratio(hits(k), denom(k)),
        Metric::Recall { k } => ratio(hits(k), n_rel),
        Metric::F1 { k } => {
            // 2PR/(P+R) with P = h/d and R = h/r is 2h/(d+r).
            if n_rel == 0.0 {
                0.0
            } else {
                ratio(2.0 * hits(k), denom(k) + n_rel)
            }
        }
        Metric::RPrecision => ratio((0..l.min(n_rel as usize)).filter(|&i| rel(i)).count() as f64, n_rel),
        Metric::AP { k } => {
            let mut h = 0.0;
            let mut s = 0.0;
            for i in 0..top(k) {
                if rel(i) {
                    h += 1.0;
                    s += h / (i as f64 + 1.0);
                }
            }
            ratio(s, n_rel)
        }
        Metric::RR { k } => (0..top(k)).find(|&i| rel(i)).map_or(0.0, |i| 1.0 / (i as f64 + 1.0)),
        Metric::Bpref => {
            let mut above = 0.0_f64;
            let mut s = 0.0;
            for g in c.ranked.iter().flatten() {
                if *g >= 1 {
                    s += if above == 0.0 { 1.0 } else { 1.0 - above.min(n_rel) / n_non.min(n_rel) };
                } else {
                    above += 1.0;
                }
            }
            ratio(s, n_rel)
        }
        Metric::DCG { k } => dcg(c.ranked.iter().map(|g| g.unwrap_or(0)), k, false),
        Metric::DCGBurges { k } => dcg(c.ranked.iter().map(|g| g.unwrap_or(0)), k, true),
        Metric::NDCG { k } | Metric::NDCGBurges { k } => {
            let burges = matches!(m, Metric::NDCGBurges { .. });
            let mut g = c.grades();
            g.sort_unstable_by(|a, b| b.cmp(a));
            // With k = 0 the ideal ranking is the whole list of judged documents.
            let ideal = dcg(g.into_iter(), k, burges);
            if ideal == 0.0 {
                1.0
            } else {
                dcg(c.ranked.iter().map(|g| g.unwrap_or(0)), k, burges) / ideal
            }
        }
    }
}

/// How abstract documents get concrete ids and scores.
#[derive(Clone, Copy, Debug)]
pub struct Naming {
    /// 0: ids against rank order, 1: along it, 2: scrambled
    pub ids: u8,
    /// 0: evenly spaced, 1: neighbouring numbers, 2: negative, 4: large; tied (ids must be 1): 3 all, 5 and 6 pairs, 7 triples
    pub scores: u8,
}

/// The realisations of case i: one without ties and one with (all of them when `every`).
pub fn namings(i: u64, every: bool) -> Vec<Naming> {
    let tied = [3, 5, 6, 7].map(|scores| Naming { ids: 1, scores });
    if every {
        let mut v: Vec<Naming> = tied.to_vec();
        for ids in 0..3 {
            for scores in [0, 1, 2, 4] {
                v.push(Naming { ids, scores });
            }
        }
        return v;
    }
    vec![Naming { ids: (i % 3) as u8, scores: [0, 1, 2, 4][(i / 3 % 4) as usize] }, tied[(i % 4) as usize]]
}

pub fn doc_index(i: usize, n: usize, ids: u8) -> usize {
    match ids {
        0 => n - 1 - i,
        1 => i,
        _ => {
            // multiply by something coprime to n
            let mut m = 7 % n.max(1);
            while n > 1 && gcd(m.max(1), n) != 1 {
                m += 1;
            }
            (i * m.max(1) + n / 2) % n
        }
    }
}
pub fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn score_at(i: usize, l: usize, scores: u8) -> f64 {
    let r = (l - i) as f64;
    match scores {
        0 => r,
        1 => {
            // strictly decreasing over i, spanning magnitudes and sign, ULP-close neighbours
            let base = 1.0_f64;
            f64::from_bits(base.to_bits() + (l - i) as u64)
        }
        2 => -(i as f64) - 0.5,
        3 => 0.25,
        // ties of two or three neighbours
        5 => ((l - i) / 2) as f64,
        6 => ((l - i + 1) / 2) as f64 * 1e-3,
        7 => -((i / 3) as f64),
        _ => (r - l as f64 / 2.0) * 1e12,
    }
}

pub fn build<K>(c: &Case, q: K, name: impl Fn(usize) -> K, nm: Naming) -> (TrueRelStore<K>, PredRelStore<K>)
where
    K: Clone + Eq + Ord + Display,
{
    let mut t = TrueRelStoreBuilder::new();
    let mut p = PredRelStoreBuilder::new();
    add(c, &q, &name, nm, &mut t, &mut p);
    (t.build(), p.build())
}

pub fn add<K>(
    c: &Case,
    q: &K,
    name: &impl Fn(usize) -> K,
    nm: Naming,
    t: &mut TrueRelStoreBuilder<K>,
    p: &mut PredRelStoreBuilder<K>,
) where
    K: Clone + Eq + Ord + Display,
{
    let l = c.ranked.len();
    let n = l + c.rest.len();
    // An insertion order that coincides neither with rank order nor with id order.
    for j in 0..l {
        let i = doc_index(j, l, if nm.ids == 1 { 0 } else { 2 });
        p.add_record(q.clone(), name(doc_index(i, n, nm.ids)), score_at(i, l, nm.scores).into()).expect("fresh pair refused");
    }
    for (j, g) in c.rest.iter().enumerate() {
        t.add_record(q.clone(), name(doc_index(l + j, n, nm.ids)), *g).expect("fresh pair refused");
    }
    for i in (0..l).rev() {
        if let Some(g) = c.ranked[i] {
            t.add_record(q.clone(), name(doc_index(i, n, nm.ids)), g).expect("fresh pair refused");
        }
    }
}

pub fn value<K>(t: &TrueRelStore<K>, p: &PredRelStore<K>, m: Metric, q: &K, w: &mut W) -> Option<f64>
where
    K: Clone + Eq + Ord + Display + Debug,
{
    w.op();
    match metrics::compute_metric(t, p, m) {
        Ok(r) => {
            if r.len() != p.n_queries() {
                w.fail("", format!("{m}: {} scores for {} ranked queries", r.len(), p.n_queries()));
            }
            match r.get(q) {
                Some(v) => Some(*v),
                None => {
                    w.fail("", format!("{m}: no score for query {q}"));
                    None
                }
            }
        }
        Err(e) => {
            w.fail("", format!("{m}: unexpected error {e:?}"));
            None
        }
    }
}

pub fn same(got: f64, want: f64) -> bool {
    got == want || (got.is_finite() && want.is_finite() && (got - want).abs() <= 1e-9 * want.abs().max(got.abs())) || (want == 0.0 && got.abs() < 1e-15)
}

pub const BIG_KS: [usize; 5] = [1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX];

pub fn ks_for(l: usize, judged: usize) -> Vec<usize> {
    let mut ks: Vec<usize> = (0..=l.max(judged) + 2).collect();
    ks.push(100);
    ks.extend(BIG_KS);
    ks
}

/// All rankings over an alphabet x all multisets of unranked judged grades.
pub struct Space {
    pub alpha: Vec<Option<u32>>,
    pub maxlen: usize,
    pub rests: Vec<Vec<u32>>,
}
impl Space {
    pub fn n(&self) -> u64 {
        seq_count(self.alpha.len() as u64, 1, self.maxlen) * self.rests.len() as u64
    }
    pub fn at(&self, i: u64) -> Case {
        let mut r = Radix(i);
        let rest = r.pick(&self.rests).clone();
        let seq = seq_at(r.0, self.alpha.len() as u64, 1, self.maxlen);
        Case { ranked: seq.iter().map(|&x| self.alpha[x as usize]).collect(), rest }
    }
}

/// All multisets with up to `max[g]` copies of grade g.
pub fn multisets(grades: &[u32], max: &[u64]) -> Vec<Vec<u32>> {
    let n: u64 = max.iter().map(|m| m + 1).product();
    (0..n)
        .map(|i| {
            let mut r = Radix(i);
            let mut v = vec![];
            for (g, m) in grades.iter().zip(max) {
                for _ in 0..r.take(m + 1) {
                    v.push(*g);
                }
            }
            v
        })
        .collect()
}

