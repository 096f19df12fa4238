//! C01 (store fidelity) and C02 (ranking order).
use crate::common::*;
use elinor::relevance::{RelevanceStore, RelevanceStoreBuilder};
use elinor::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};

type Model<K, T> = BTreeMap<K, BTreeMap<K, T>>;

pub fn ranked<K: Clone + Ord, T: Clone + Ord>(m: &BTreeMap<K, T>) -> Vec<(K, T)> {
    // Selection by repeated maximum: deliberately not a library sort with the same comparator.
    let mut rest: Vec<(K, T)> = m.iter().map(|(k, t)| (k.clone(), t.clone())).collect();
    let mut out = vec![];
    if rest.len() > 300 {
        // Group by score, then order groups and ids separately.
        let mut groups: BTreeMap<T, Vec<K>> = BTreeMap::new();
        for (k, t) in rest {
            groups.entry(t).or_default().push(k);
        }
        for (t, mut ks) in groups.into_iter().rev() {
            ks.sort();
            out.extend(ks.into_iter().map(|k| (k, t.clone())));
        }
        return out;
    }
    while !rest.is_empty() {
        let mut b = 0;
        for i in 1..rest.len() {
            if rest[i].1 > rest[b].1 || (rest[i].1 == rest[b].1 && rest[i].0 < rest[b].0) {
                b = i;
            }
        }
        out.push(rest.remove(b));
    }
    out
}

pub fn check_store<K, T>(s: &RelevanceStore<K, T>, m: &Model<K, T>, qs: &[K], ds: &[K], w: &mut W) -> bool
where
    K: Clone + Eq + Ord + Display + Debug,
    T: Clone + Ord + Debug,
{
    let before = w.fails.len();
    let nd: usize = m.values().map(|d| d.len()).sum();
    w.ops(4);
    w.check(s.n_queries() == m.len(), || format!("n_queries() = {}, expected {}", s.n_queries(), m.len()));
    w.check(s.n_docs() == nd, || format!("n_docs() = {}, expected {nd}", s.n_docs()));
    let ids: Vec<&K> = s.query_ids().collect();
    let idset: BTreeSet<&K> = ids.iter().copied().collect();
    w.check(ids.len() == m.len() && idset == m.keys().collect(), || format!("query_ids() = {ids:?}, expected {:?}", m.keys()));
    let mut want_rec = vec![];
    for q in qs {
        let mq = m.get(q);
        w.ops(2);
        w.check(s.get_map(q) == mq, || format!("get_map({q:?}) = {:?}, expected {mq:?}", s.get_map(q)));
        let got: Option<Vec<(K, T)>> = s.get_sorted(q).map(|v| v.iter().map(|r| (r.doc_id.clone(), r.score.clone())).collect());
        let want = mq.map(ranked);
        w.check(got == want, || format!("get_sorted({q:?}) = {got:?}, expected {want:?}"));
        for d in ds {
            w.op();
            let want = mq.and_then(|x| x.get(d));
            w.check(s.get_score(q, d) == want, || format!("get_score({q:?}, {d:?}) = {:?}, expected {want:?}", s.get_score(q, d)));
        }
        for (d, t) in want.into_iter().flatten() {
            want_rec.push(Record { query_id: q.clone(), doc_id: d, score: t });
        }
    }
    let recs = s.records();
    check_records(&recs, m, w);
    w.fails.len() == before
}

fn check_records<K, T>(recs: &[Record<K, T>], m: &Model<K, T>, w: &mut W)
where
    K: Clone + Eq + Ord + Display + Debug,
    T: Clone + Ord + Debug,
{
    w.op();
    let nd: usize = m.values().map(|d| d.len()).sum();
    let mut seen: BTreeMap<K, Vec<(K, T)>> = BTreeMap::new();
    for r in recs {
        seen.entry(r.query_id.clone()).or_default().push((r.doc_id.clone(), r.score.clone()));
    }
    let want: BTreeMap<K, Vec<(K, T)>> = m.iter().map(|(q, d)| (q.clone(), ranked(d))).collect();
    w.check(recs.len() == nd && seen == want, || {
        if recs.len() > 40 {
            format!("exported records differ from the accepted ones ({} records, expected {nd})", recs.len())
        } else {
            format!("exported records are {recs:?}, expected (per query, ranked) {want:?}")
        }
    });
}

fn history<K, T>(ops: &[(K, K, T)], qs: &[K], ds: &[K], w: &mut W)
where
    K: Clone + Eq + Ord + Display + Debug,
    T: Clone + Ord + Debug,
{
    w.at(|| format!("insertions (query, doc, score): {ops:?}"));
    let mut b: RelevanceStoreBuilder<K, T> = if ops.len() % 2 == 0 { RelevanceStoreBuilder::new() } else { Default::default() };
    let mut m: Model<K, T> = BTreeMap::new();
    let mut dup = false;
    for (q, d, s) in ops {
        w.op();
        let r = b.add_record(q.clone(), d.clone(), s.clone());
        let fresh = !m.get(q).map_or(false, |x| x.contains_key(d));
        let ok = if fresh { r.is_ok() } else { matches!(r, Err(ElinorError::DuplicateEntry(_))) };
        w.check(ok, || format!("add_record({q:?}, {d:?}, {s:?}) returned {r:?} although the pair was {}", if fresh { "new" } else { "already stored" }));
        if fresh {
            m.entry(q.clone()).or_default().insert(d.clone(), s.clone());
        } else {
            dup = true;
        }
    }
    let st = b.build();
    check_store(&st, &m, qs, ds, w);
    // from_records stops at the first duplicate.
    let recs = |o: &[(K, K, T)]| -> Vec<Record<K, T>> {
        o.iter().map(|(q, d, s)| Record { query_id: q.clone(), doc_id: d.clone(), score: s.clone() }).collect()
    };
    w.op();
    match RelevanceStore::from_records(handed(recs(ops), ops.len() as u64 * 5 + ops.iter().filter(|o| o.0 == ops[0].0).count() as u64)) {
        Ok(s2) => {
            w.check(!dup, || "from_records accepted a repeated pair".into());
            if !dup {
                check_store(&s2, &m, qs, ds, w);
            }
        }
        Err(e) => w.check(dup && matches!(e, ElinorError::DuplicateEntry(_)), || format!("from_records failed with {e:?}")),
    }
    // Export and import again, in exported and in reversed order, borrowed and consuming.
    let mut r1 = st.records();
    let r2 = st.into_records();
    w.check(r1 == r2, || format!("records() = {r1:?} but into_records() = {r2:?}"));
    check_records(&r2, &m, w);
    r1.reverse();
    for (way, r) in [r1, r2].into_iter().enumerate() {
        w.op();
        match RelevanceStore::from_records(handed(r, (ops.len() + way * 3) as u64)) {
            Ok(s) => {
                check_store(&s, &m, qs, ds, w);
            }
            Err(e) => w.check(false, || format!("importing exported records failed: {e:?}")),
        }
    }
    w.trace();
}

fn histories<K>(cx: &mut Cx, tyname: &str, qs: Vec<K>, ds: Vec<K>, depth: usize, nscores: u64)
where
    K: Clone + Eq + Ord + Display + Debug + Sync,
{
    let nops = qs.len() as u64 * ds.len() as u64 * nscores;
    let n = seq_count(nops, 0, depth);
    let name = format!("histories<{tyname}> {}q x {}d x {nscores}s, up to {depth} insertions", qs.len(), ds.len());
    cx.family(&name, n, |i, w| {
        let seq = seq_at(i, nops, 0, depth);
        w.state(&(tyname, qs.len(), ds.len(), &seq));
        let dec = |x: u64| {
            let mut r = Radix(x);
            let q = r.pick(&qs).clone();
            let d = r.pick(&ds).clone();
            (q, d, r.take(nscores))
        };
        let ops: Vec<(K, K, u64)> = seq.iter().map(|&x| dec(x)).collect();
        let t: Vec<(K, K, u32)> = ops.iter().map(|(q, d, s)| (q.clone(), d.clone(), *s as u32)).collect();
        history(&t, &qs, &ds, w);
        let p: Vec<(K, K, PredScore)> = ops.iter().map(|(q, d, s)| (q.clone(), d.clone(), [0.5, -0.0, f64::INFINITY][*s as usize].into())).collect();
        history(&p, &qs, &ds, w);
        // Any ordered type may be a score.
        if seq.len() < depth {
            let t: Vec<(K, K, std::cmp::Reverse<&str>)> = ops.iter().map(|(q, d, s)| (q.clone(), d.clone(), std::cmp::Reverse(["b", "", "a"][*s as usize]))).collect();
            history(&t, &qs, &ds, w);
            let t: Vec<(K, K, Ci)> = ops.iter().map(|(q, d, s)| (q.clone(), d.clone(), Ci(["b", "B", "a"][*s as usize]))).collect();
            history(&t, &qs, &ds, w);
        }
        w.sample(|| format!("{t:?}"));
    });
}

pub fn c01(cx: &mut Cx) {
    cx.rule = "state = a distinct insertion sequence; every history runs on the real builder and the built store is compared lookup by lookup with a map".into();
    let th = cx.thorough;
    histories::<String>(cx, "String", vec!["a".into(), "b".into()], vec!["x".into(), "y".into()], if th { 7 } else { 6 }, 2);
    histories::<String>(cx, "String", vec!["q".into()], vec!["d2".into(), "d10".into(), "".into(), "D2".into()], if th { 7 } else { 6 }, 2);
    histories::<u32>(cx, "u32", vec![0, u32::MAX, 7], vec![0, 7, u32::MAX], if th { 5 } else { 4 }, 2);
    histories::<u32>(cx, "u32", vec![3, 2, 1], vec![0, 1, 2], 4, 3);
    histories::<char>(cx, "char", vec!['a', 'é'], vec!['a', 'z'], if th { 6 } else { 5 }, 3);
    histories::<i64>(cx, "i64", vec![-1, 1], vec![-1, 0, i64::MIN], if th { 7 } else { 6 }, 1);
    histories::<&'static str>(cx, "&str", vec!["1", "01"], vec!["1", "01", "1 "], if th { 7 } else { 6 }, 1);
    histories::<Rev>(cx, "Rev", vec![Rev(0), Rev(1), Rev(9)], vec![Rev(0), Rev(1)], if th { 6 } else { 5 }, 2);
    histories::<Ci>(cx, "keys without case", vec![Ci("a"), Ci("A"), Ci("b")], vec![Ci("a"), Ci("x"), Ci("X")], if th { 5 } else { 4 }, 2);
    histories::<i128>(cx, "i128", vec![0, 1 << 64, i128::MIN], vec![0, 1 << 64, -1], if th { 5 } else { 4 }, 1);
    histories::<bool>(cx, "bool", vec![false, true], vec![true, false], if th { 7 } else { 5 }, 2);
    histories::<std::sync::Arc<str>>(cx, "Arc<str>", vec!["a".into(), "".into()], vec!["a".into(), "".into(), "b".into()], if th { 6 } else { 4 }, 2);
    cx.bound("every insertion sequence up to length 4-6 (4-7) over 1-3 queries x 2-4 documents x 1-3 scores, eleven key types");
    cx.bound("four pairs of ids that read alike when joined by any of 140 separators, in all orders; three small numbers of 11 that read alike when joined");

    // Borrowed lookups with unsized key forms.
    cx.family("borrowed lookups", 64, |i, w| {
        let mut b = TrueRelStoreBuilder::<String>::new();
        let mut want = BTreeMap::new();
        for (j, (q, d)) in [("q1", "d1"), ("q1", "d2"), ("q2", "d1"), ("q2", "d3"), ("", "d1"), ("q1", "")].iter().enumerate() {
            if i >> j & 1 == 1 {
                w.op();
                b.add_record(q.to_string(), d.to_string(), j as u32).unwrap();
                want.insert((*q, *d), j as u32);
            }
        }
        let s = b.build();
        for q in ["q1", "q2", "q3", "", "Q1", "d1"] {
            for d in ["d1", "d2", "d3", "", "q1"] {
                w.op();
                w.check(s.get_score(q, d) == want.get(&(q, d)), || format!("get_score({q:?},{d:?})"));
                w.check(s.get_map(q).map(|m| m.get(d)) == want.keys().any(|k| k.0 == q).then(|| want.get(&(q, d))), || format!("get_map({q:?})[{d:?}]"));
            }
        }
        w.trace();
        w.state(&("borrow", i));
    });

    // Different pairs of ids that read alike when printed one after the other.
    let mut seps: Vec<String> = (0..128_u32).map(|c| char::from_u32(c).unwrap().to_string()).collect();
    for s in ["", "\u{a0}", "\u{1f}\u{1e}", "\u{feff}", "\u{ffff}", "\u{200b}", "::", "->", ", ", "\", \"", "\r\n", "é"] {
        seps.push(s.to_string());
    }
    cx.family("pairs that read alike when joined", seps.len() as u64 * 24, |i, w| {
        let mut r = Radix(i);
        let s = r.pick(&seps).clone();
        let order = perm_at(r.take(24), 4);
        let p = |q: &str, d: &str| (q.to_string(), d.to_string());
        let pairs = [p(&format!("a{s}b"), "c"), p("a", &format!("b{s}c")), p("a", "b"), p(&format!("a{s}b{s}c"), "")];
        let mut ops: Vec<(String, String, u64)> = order.iter().enumerate().map(|(n, &j)| (pairs[j].0.clone(), pairs[j].1.clone(), n as u64)).collect();
        ops.push((pairs[order[0]].0.clone(), pairs[order[0]].1.clone(), 9));
        w.state(&("joined", &ops));
        let qs: Vec<String> = pairs.iter().map(|x| x.0.clone()).collect::<BTreeSet<_>>().into_iter().collect();
        let ds: Vec<String> = pairs.iter().map(|x| x.1.clone()).collect();
        history(&ops, &qs, &ds, w);
    });
    cx.family("numbers that read alike when joined", 11 * 11 * 11, |i, w| {
        let ids = [0_u32, 1, 2, 10, 11, 12, 21, 101, 110, 111, 1110];
        let mut r = Radix(i);
        let (a, b, c) = (*r.pick(&ids), *r.pick(&ids), *r.pick(&ids));
        let ops = [(a, b, 1_u64), (b, a, 2), (b, c, 3), (c, b, 4), (a, c, 5), (11, 1, 6), (1, 11, 7), (a, b, 8)];
        w.state(&("numbers", a, b, c));
        history(&ops, &ids, &ids, w);
    });
    // Sizes beyond any small threshold: many queries, many documents, duplicates sprinkled in.
    let sizes: Vec<(usize, usize)> = vec![(1, 17), (1, 33), (1, 65), (1, 129), (1, 257), (1, 1025), (1, 5000), (33, 3), (65, 2), (129, 2), (300, 5), (1030, 2), (20, 100), (5, 300)];
    cx.family("large stores", sizes.len() as u64 * 4, |i, w| {
        let mut r = Radix(i);
        let (nq, nd) = *r.pick(&sizes);
        let var = r.take(4);
        w.at(|| format!("{nq} queries x {nd} documents, variant {var}"));
        let mut ops = vec![];
        for j in 0..nq * nd {
            let j2 = crate::metrics_ref::doc_index(j, nq * nd, if var % 2 == 0 { 2 } else { 0 });
            let (q, d) = (j2 % nq, j2 / nq);
            let s = match var / 2 {
                0 => (d * 37 + q) as u32 % 5,
                _ => d as u32 % 100,
            };
            ops.push((format!("q{q}"), format!("d{d}"), s));
            if j % 11 == 3 {
                let o = ops[j / 2].clone();
                ops.push((o.0, o.1, o.2 + 1));
            }
        }
        let qs: Vec<String> = (0..nq + 1).map(|q| format!("q{q}")).collect();
        let ds: Vec<String> = (0..(nd + 1).min(40)).map(|d| format!("d{d}")).collect();
        let verbose = std::mem::take(&mut w.verbose);
        history(&ops, &qs, &ds, w);
        w.verbose = verbose;
        w.state(&("large", i));
    });
    cx.bound("stores of up to 1030 queries or 5000 documents per query in 4 insertion patterns");
    // Counts around the 16-bit limit: in one query, in many queries, and spread over both.
    let mut sizes: Vec<(usize, usize)> = vec![];
    for n in [65_535_usize, 65_536, 65_537, 70_001, 131_072] {
        sizes.extend([(1, n), (n, 1), (256, n / 256 + 1)]);
    }
    if cx.thorough {
        sizes.extend([(1, 300_000), (300_000, 1), (1, 1 << 20), (1000, 1000), (1 << 20, 1)]);
    }
    cx.family("counts around the 16-bit limit", sizes.len() as u64, |i, w| {
        let (nq, nd) = sizes[i as usize];
        w.at(|| format!("{nq} queries x {nd} documents"));
        w.state(&("16 bit", i));
        let mut b = TrueRelStoreBuilder::<u32>::new();
        let mut refused = 0_u64;
        for d in 0..nd {
            for q in 0..nq {
                refused += b.add_record(q as u32, crate::metrics_ref::doc_index(d, nd, 2) as u32, (d % 5) as u32).is_err() as u64;
            }
        }
        w.ops((nq * nd) as u64);
        w.check(refused == 0, || format!("{refused} fresh pairs are refused"));
        w.check(matches!(b.add_record(nq as u32 - 1, nd as u32 - 1, 9), Err(ElinorError::DuplicateEntry(_))), || "the last pair is accepted twice".into());
        let s = b.build();
        w.check(s.n_queries() == nq, || format!("n_queries() = {}, expected {nq}", s.n_queries()));
        w.check(s.n_docs() == nq * nd, || format!("n_docs() = {}, expected {}", s.n_docs(), nq * nd));
        let mut ids: Vec<u32> = s.query_ids().copied().collect();
        ids.sort_unstable();
        w.check(ids.len() == nq && ids.iter().enumerate().all(|(j, q)| *q as usize == j), || format!("query_ids() lists {} queries", ids.len()));
        let grade = |d: usize| -> u32 {
            // the insertion index of document d decides its grade
            (d % 5) as u32
        };
        let mut by = vec![0_u32; nd];
        for d in 0..nd {
            by[crate::metrics_ref::doc_index(d, nd, 2)] = grade(d);
        }
        for q in [0, nq / 2, nq - 1] {
            let q = q as u32;
            w.ops(nd as u64 + 2);
            w.check((0..nd).all(|d| s.get_score(&q, &(d as u32)) == Some(&by[d])), || format!("some score of query {q} is wrong"));
            w.check(s.get_map(&q).is_some_and(|m| m.len() == nd), || format!("get_map({q}) has another size"));
            let l = s.get_sorted(&q).unwrap_or(&[]);
            let ok = l.len() == nd && l.windows(2).all(|p| p[0].score > p[1].score || (p[0].score == p[1].score && p[0].doc_id < p[1].doc_id)) && l.iter().all(|r| by.get(r.doc_id as usize) == Some(&r.score));
            w.check(ok, || format!("the ranked list of query {q} ({} documents) is wrong", l.len()));
        }
        let recs = s.into_records();
        w.check(recs.len() == nq * nd && recs.iter().all(|r| (r.query_id as usize) < nq && by.get(r.doc_id as usize) == Some(&r.score)), || format!("{} records, expected {}", recs.len(), nq * nd));
        match TrueRelStore::from_records(recs) {
            Ok(s) => w.check(s.n_docs() == nq * nd && s.n_queries() == nq, || format!("read back: {} queries, {} documents", s.n_queries(), s.n_docs())),
            Err(e) => w.fail("", format!("exported records are refused: {e:?}")),
        }
        w.trace();
    });
    cx.bound("15 (20) stores of 65535 to 131072 (2^20) records in one query, one per query, and 256 queries");
}

// ---------------------------------------------------------------- C02

fn nan_top_key(x: f64) -> (u8, f64) {
    if x.is_nan() {
        (2, 0.0)
    } else {
        (1, x + 0.0)
    }
}

fn check_rank<K: Clone + Ord + Eq + Display + Debug>(items: &[(K, f64)], order: &[usize], extra: bool, w: &mut W) {
    let mut b = PredRelStoreBuilder::new();
    let q = items[0].0.clone();
    for (n, &i) in order.iter().enumerate() {
        w.op();
        b.add_record(q.clone(), items[i].0.clone(), items[i].1.into()).expect("fresh pair refused");
        if extra && n % 2 == 0 && items.len() > 1 {
            // records of another query interleaved, on the same documents with other scores
            b.add_record(items[1].0.clone(), items[i].0.clone(), (n as f64).into()).expect("fresh pair refused");
        }
    }
    let s = b.build();
    let got: Vec<(K, f64)> = s.get_sorted(&q).unwrap_or(&[]).iter().map(|r| (r.doc_id.clone(), r.score.0)).collect();
    let recs: Vec<(K, f64)> = s.records().into_iter().filter(|r| r.query_id == q).map(|r| (r.doc_id, r.score.0)).collect();
    w.ops(3);
    for (what, got) in [("get_sorted", &got), ("records", &recs)] {
        let mut ok = got.len() == items.len();
        let mut why = "wrong number of documents".to_string();
        for p in got.windows(2) {
            let (a, b) = (nan_top_key(p[0].1), nan_top_key(p[1].1));
            let good = a > b || (a == b && p[0].0 < p[1].0);
            if !good {
                ok = false;
                why = format!("{:?} is placed before {:?}", p[0], p[1]);
                break;
            }
        }
        if ok {
            let mut a: Vec<(&K, u64)> = got.iter().map(|(k, v)| (k, v.to_bits())).collect();
            let mut b: Vec<(&K, u64)> = items.iter().map(|(k, v)| (k, v.to_bits())).collect();
            a.sort();
            b.sort();
            if a != b {
                ok = false;
                why = "not the same documents and scores".into();
            }
        }
        w.check(ok, || format!("{what}: {why}; ranking = {:?}", &got[..got.len().min(40)]));
    }
    w.trace();
    w.outcome(&got.iter().map(|g| format!("{:?}", g.0)).collect::<Vec<_>>());
}

pub const FLOATS: [f64; 10] = [1.0, 0.0, -0.0, 1.0000000000000002, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -1.5, 5e-324, 1e300];

fn small_lists<K: Clone + Ord + Eq + Display + Debug + Sync>(cx: &mut Cx, ty: &str, ids: Vec<K>, len: usize, all_orders: bool) {
    let norders = if all_orders { factorial(len as u64) } else { 2 };
    let n = (FLOATS.len() as u64).pow(len as u32) * norders;
    cx.family(&format!("all scores x orders, {len} documents <{ty}>"), n, |i, w| {
        let mut r = Radix(i);
        let sc = r.vec(FLOATS.len() as u64, len);
        let o = r.take(norders);
        let order = if all_orders { perm_at(o, len) } else { (0..len).map(|x| if o == 0 { x } else { len - 1 - x }).collect() };
        let items: Vec<(K, f64)> = (0..len).map(|j| (ids[j].clone(), FLOATS[sc[j] as usize])).collect();
        w.at(|| format!("documents {items:?}, inserted in order {order:?}"));
        w.state(&(ty, len, &sc, &order));
        check_rank(&items, &order, i % 3 == 0, w);
        w.sample(|| format!("{items:?} inserted {order:?}"));
    });
}

pub fn c02(cx: &mut Cx) {
    cx.rule = "state = a distinct (scores, insertion order) of a query's documents; each is inserted into the real store and the ranked list checked pairwise".into();
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    small_lists(cx, "String d2/d10/D1/é", s(&["d2", "d10", "D1"]), 3, true);
    small_lists(cx, "String", s(&["b", "a", "c", "aa"]), 4, true);
    small_lists(cx, "u32", vec![10_u32, 2, 300], 3, true);
    small_lists(cx, "Rev", vec![Rev(1), Rev(0), Rev(5)], 3, true);
    small_lists(cx, "keys without case", vec![Ci("B"), Ci("a"), Ci("C")], 3, true);
    small_lists(cx, "char", vec!['z', 'é', 'a'], 3, true);
    small_lists(cx, "i64", vec![-3_i64, 2, -20], 3, true);
    small_lists(cx, "u32", vec![10_u32, 2, 300, 0, 77], 5, cx.thorough);
    if cx.thorough {
        small_lists(cx, "u32", vec![10_u32, 2, 300, 0, 77, 3], 6, false);
    }
    // All tie patterns of 6 documents, all insertion orders.
    cx.family("tie patterns of 6 documents, all insertion orders", 3_u64.pow(6) * 720, |i, w| {
        let mut r = Radix(i);
        let sc = r.vec(3, 6);
        let order = perm_at(r.take(720), 6);
        let items: Vec<(u32, f64)> = (0..6).map(|j| (j as u32, [0.5, -2.0, 1e-3][sc[j] as usize])).collect();
        w.at(|| format!("documents {items:?}, inserted in order {order:?}"));
        w.state(&("ties6", &sc, &order));
        check_rank(&items, &order, false, w);
    });
    // Structured long lists.
    let lens: Vec<usize> = if cx.thorough { (5..=700).chain([1000, 1024, 1025, 2000, 4097, 10_000, 20_001]).collect() } else { (5..=140).chain([200, 255, 256, 257, 500, 1000, 1024, 1025, 2000, 4097]).collect() };
    let npat = 14_u64;
    cx.family("structured long rankings", lens.len() as u64 * npat * 4, |i, w| {
        let mut r = Radix(i);
        let l = *r.pick(&lens);
        let pat = r.take(npat);
        let ins = r.take(4);
        let mut g = Lcg(l as u64 * 1000 + pat);
        let items: Vec<(String, f64)> = (0..l)
            .map(|j| {
                let x = j as f64;
                let s = match pat {
                    0 => 0.0,
                    1 => (j % 2) as f64,
                    2 => (j % 3) as f64 - 1.0,
                    3 => x,
                    4 => -x,
                    5 => (j / 2) as f64,
                    6 => (g.below(4)) as f64 * 0.1,
                    7 => g.below(1000) as f64 * 1e-3,
                    8 => if j == l / 2 { f64::NAN } else { x % 5.0 },
                    9 => f64::from_bits(1.0_f64.to_bits() + g.below(3)),
                    10 => if j % 7 == 0 { -0.0 } else { 0.0 },
                    11 => 1.0 / (1.0 + x),
                    12 => if j < l / 2 { x } else { (l - j) as f64 },
                    _ => (j as f64).sqrt().floor(),
                };
                (format!("d{}", crate::metrics_ref::doc_index(j, l, 2)), s)
            })
            .collect();
        let order: Vec<usize> = (0..l).map(|j| match ins { 0 => j, 1 => l - 1 - j, 2 => crate::metrics_ref::doc_index(j, l, 2), _ => (j + l / 3) % l }).collect();
        w.at(|| format!("{l} documents, score pattern {pat}, insertion pattern {ins}"));
        w.state(&("long", l, pat, ins));
        check_rank(&items, &order, pat % 2 == 0, w);
        if ins == 0 {
            // the judged side ranks by the same rule
            let mut b = TrueRelStoreBuilder::new();
            let mut m = BTreeMap::new();
            for (j, (d, _)) in items.iter().enumerate() {
                w.op();
                let g = [0, 3, 1, u32::MAX, 2][(j * 7 + pat as usize) % 5];
                b.add_record("q".to_string(), d.clone(), g).unwrap();
                m.insert(d.clone(), g);
            }
            let s = b.build();
            let got: Vec<(String, u32)> = s.get_sorted("q").unwrap_or(&[]).iter().map(|r| (r.doc_id.clone(), r.score)).collect();
            w.check(got == ranked(&m), || format!("judged documents are listed as {:?}", &got[..got.len().min(40)]));
        }
    });
    // Rankings past the 16-bit limit.
    cx.family("rankings past the 16-bit limit", 3 * 4, |i, w| {
        let mut r = Radix(i);
        let l = [65_535_usize, 65_537, 70_001][r.take(3) as usize];
        let pat = r.take(4);
        let items: Vec<(u32, f64)> = (0..l)
            .map(|j| {
                let s = match pat {
                    0 => 0.5,
                    1 => (j % 2) as f64,
                    2 => -(j as f64),
                    _ => (j as u64 * 2_654_435_761 % 65_537) as f64,
                };
                (crate::metrics_ref::doc_index(j, l, 2) as u32, s)
            })
            .collect();
        let order: Vec<usize> = (0..l).collect();
        w.at(|| format!("{l} documents, score pattern {pat}"));
        w.state(&("16 bit", l, pat));
        check_rank(&items, &order, false, w);
    });
    cx.bound("all assignments of 10 float values (ties, ±0, ±inf, NaN, neighbours) to 3-5 (6) documents with all or two insertion orders; all tie patterns of 6 documents in all 720 orders; 14 score patterns x 4 insertion patterns at every length up to 140 (700), and up to 4097 (20001)");
}
