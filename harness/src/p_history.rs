//! C22: calls do not influence each other. Every call of a menu is made alone in a fresh
//! process; then in every order, on every thread, inside each other and interleaved at every
//! point where the library hands control back (key comparisons, clones and printing of ids,
//! input iterators, random words).
use crate::common::*;
use crate::metrics_ref::{all_metrics, reference, same, Case};
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;
use elinor::*;
use std::result::Result;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- points where control comes back

#[derive(Clone)]
enum Mode {
    Count,
    /// Run this action once, at this point.
    Nest(u64, usize),
    Sched(Arc<Sched>, usize),
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static MODE: RefCell<Option<Mode>> = const { RefCell::new(None) };
    static POINTS: Cell<u64> = const { Cell::new(0) };
    static NESTED: RefCell<Option<(usize, Out)>> = const { RefCell::new(None) };
}

#[inline]
fn point() {
    if ON.with(|o| o.get()) {
        point_slow();
    }
}

fn point_slow() {
    ON.with(|o| o.set(false));
    let n = POINTS.with(|p| {
        p.set(p.get() + 1);
        p.get()
    });
    match MODE.with(|m| m.borrow().clone()) {
        Some(Mode::Nest(at, a)) if at == n => {
            let o = run_act(a);
            NESTED.with(|s| *s.borrow_mut() = Some((a, o)));
        }
        Some(Mode::Sched(s, me)) => s.point(me, n),
        _ => {}
    }
    ON.with(|o| o.set(true));
}

fn enter(m: Mode) {
    POINTS.with(|p| p.set(0));
    MODE.with(|x| *x.borrow_mut() = Some(m));
    rand::mc::set_tap(Some(point));
    ON.with(|o| o.set(true));
}
fn leave() -> u64 {
    ON.with(|o| o.set(false));
    rand::mc::set_tap(None);
    MODE.with(|x| *x.borrow_mut() = None);
    POINTS.with(|p| p.get())
}

/// Only one thread runs at a time; the plan says at which point of a thread another one goes on.
struct Sched {
    st: Mutex<SchedSt>,
    cv: Condvar,
}
struct SchedSt {
    turn: usize,
    done: Vec<bool>,
    /// (thread, its point, thread to go on)
    plan: Vec<(usize, u64, usize)>,
    next: usize,
    steps: u64,
    forced: bool,
}
impl Sched {
    fn wait(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        loop {
            if g.turn == me {
                return;
            }
            let steps = g.steps;
            let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(400)).unwrap();
            g = h;
            // The running thread makes no steps: it waits for something that a thread which is
            // not running holds. Let that one go on (never needed as long as no locks are held
            // while the library hands control back).
            if t.timed_out() && g.turn != me && g.steps == steps {
                g.turn = me;
                g.forced = true;
                self.cv.notify_all();
            }
        }
    }
    fn point(&self, me: usize, n: u64) {
        let mut g = self.st.lock().unwrap();
        g.steps += 1;
        if g.turn != me {
            drop(g);
            self.wait(me);
            return;
        }
        if let Some(&(t, at, to)) = g.plan.get(g.next) {
            if t == me && at == n {
                g.next += 1;
                if !g.done[to] {
                    g.turn = to;
                    self.cv.notify_all();
                    drop(g);
                    self.wait(me);
                }
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.steps += 1;
        g.done[me] = true;
        if g.turn == me {
            if let Some(t) = (0..g.done.len()).find(|&t| !g.done[t]) {
                g.turn = t;
            }
        }
        self.cv.notify_all();
    }
}

/// Ids whose every use hands control back.
#[derive(Debug, Eq)]
struct Key(u32);
impl Clone for Key {
    fn clone(&self) -> Self {
        point();
        Key(self.0)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        point();
        self.0 == o.0
    }
}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        point();
        self.0.cmp(&o.0)
    }
}
impl std::fmt::Display for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        point();
        write!(f, "{}", self.0)
    }
}
struct Line(String);
impl AsRef<str> for Line {
    fn as_ref(&self) -> &str {
        point();
        &self.0
    }
}

struct Abort;
/// An iterator that hands control back at each step, and may give up with a panic.
struct Steps<I> {
    it: I,
    left: usize,
}
impl<I: Iterator> Iterator for Steps<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        point();
        if self.left == 0 {
            std::panic::resume_unwind(Box::new(Abort));
        }
        self.left -= 1;
        self.it.next()
    }
}
fn steps<I: IntoIterator>(i: I) -> Steps<I::IntoIter> {
    Steps { it: i.into_iter(), left: usize::MAX }
}
fn aborts<I: IntoIterator>(i: I, left: usize) -> Steps<I::IntoIter> {
    Steps { it: i.into_iter(), left }
}

// ---------------------------------------------------------------- the data

type Tab = &'static [(u32, &'static [(u32, u32)], &'static [u32])]; // query, judgments, ranking
const X: Tab = &[(1, &[(1, 1), (2, 0), (3, 2), (4, 0), (5, 1), (6, 3)], &[4, 1, 7, 3, 2]), (2, &[(1, 0), (2, 1)], &[2, 1])];
// Same ids, same numbers of documents, relevant ones and queries.
const Y: Tab = &[(1, &[(1, 2), (2, 0), (3, 3), (4, 1), (5, 0), (6, 2)], &[1, 4, 3, 7, 2]), (2, &[(1, 3), (2, 0)], &[2, 1])];
const Z: Tab = &[(0, &[(1, 0)], &[1]), (1, &[(1, 0), (2, 1), (3, 1), (4, 5), (5, 0), (6, 0), (8, 1)], &[2, 1, 5, 3, 7, 8]), (3, &[(1, 1), (2, 1), (3, 1)], &[3, 2, 1])];

fn true_store(t: Tab) -> TrueRelStore<Key> {
    TrueRelStore::from_records(steps(t.iter().flat_map(|(q, j, _)| j.iter().map(|(d, s)| Record { query_id: Key(*q), doc_id: Key(*d), score: *s })))).unwrap()
}
fn pred_store(t: Tab) -> PredRelStore<Key> {
    let mut b = PredRelStoreBuilder::new();
    for (q, _, r) in t {
        for (i, d) in r.iter().enumerate() {
            b.add_record(Key(*q), Key(*d), ((r.len() - i) as f64).into()).unwrap();
        }
    }
    b.build()
}
fn dump<T: std::fmt::Debug + Ord + Clone>(s: &relevance::RelevanceStore<Key, T>) -> String {
    let mut o = String::new();
    for r in s.records() {
        let _ = write!(o, "{}:{}:{:?} ", r.query_id.0, r.doc_id.0, r.score);
    }
    for q in s.query_ids() {
        let q = Key(q.0);
        let _ = write!(o, "| {} {:?} {:?}", q.0, s.get_sorted(&q).unwrap().iter().map(|r| (r.doc_id.0, r.score.clone())).collect::<Vec<_>>(), s.get_map(&q).unwrap().iter().map(|(d, s)| (d.0, s.clone())).collect::<Vec<_>>());
        for d in 0..9 {
            let _ = write!(o, " {:?}", s.get_score(&q, &Key(d)));
        }
    }
    let _ = write!(o, "| {} {}", s.n_queries(), s.n_docs());
    o
}

const P1: &[(f64, f64)] = &[(0.5, 0.25), (1.0, 0.75), (0.25, 0.5), (2.0, 1.0)];
const P2: &[(f64, f64)] = &[(0.75, 0.25), (1.0, 0.5), (0.125, 0.5), (0.0, 1.0)];
const P3: &[(f64, f64)] = &[(1.0, 0.0), (2.0, 0.5), (0.5, 0.5), (3.0, 0.25), (0.0, 1.0), (1.5, 1.25), (0.75, 0.0)];
const PEQ: &[(f64, f64)] = &[(1.0, 0.5), (1.5, 1.0), (0.5, 0.0)];
const M1: &[[f64; 3]] = &[[1.0, 2.0, 4.0], [2.0, 2.5, 3.0], [0.0, 1.0, 0.5], [3.0, 5.0, 4.0]];
const M2: &[[f64; 3]] = &[[4.0, 2.0, 1.5], [2.0, 2.5, 0.0], [1.0, 1.5, 0.5], [3.0, 2.0, 4.0]];
const M3: &[[f64; 3]] = &[[1.0, 3.0, 0.0], [2.0, 2.5, 0.0], [1.0, 0.5, 0.0], [3.0, 2.0, 0.0], [0.25, 2.0, 0.0], [1.0, 4.0, 0.0]];

fn rows(m: &'static [[f64; 3]], c: usize) -> Vec<Vec<f64>> {
    m.iter().map(|r| r[..c].to_vec()).collect()
}
/// The third topic has too few systems.
fn bad_rows(m: &'static [[f64; 3]]) -> Vec<Vec<f64>> {
    let mut r = rows(m, 3);
    r[2].pop();
    r
}

fn bits(x: f64) -> String {
    if x.is_nan() {
        "NaN".into()
    } else {
        format!("{x:?}")
    }
}
fn bv(v: &[f64]) -> String {
    v.iter().map(|x| bits(*x)).collect::<Vec<_>>().join(",")
}

pub struct World {
    tx: OnceLock<TrueRelStore<Key>>,
    px: OnceLock<PredRelStore<Key>>,
    ty: OnceLock<TrueRelStore<Key>>,
    py: OnceLock<PredRelStore<Key>>,
    st: OnceLock<StudentTTest>,
    st3: OnceLock<StudentTTest>,
    an: OnceLock<TwoWayAnovaWithoutReplication>,
    tk: OnceLock<TukeyHsdTest>,
    ev: OnceLock<Evaluation<Key>>,
    maps: OnceLock<Vec<BTreeMap<Key, f64>>>,
    bt: OnceLock<BootstrapTester>,
    rt: OnceLock<RandomizedTukeyHsdTester>,
    rtu: OnceLock<RandomizedTukeyHsdTester>,
}
static WORLD: World = World {
    tx: OnceLock::new(),
    px: OnceLock::new(),
    ty: OnceLock::new(),
    py: OnceLock::new(),
    st: OnceLock::new(),
    st3: OnceLock::new(),
    an: OnceLock::new(),
    tk: OnceLock::new(),
    ev: OnceLock::new(),
    maps: OnceLock::new(),
    bt: OnceLock::new(),
    rt: OnceLock::new(),
    rtu: OnceLock::new(),
};
impl World {
    fn tx(&self) -> &TrueRelStore<Key> {
        self.tx.get_or_init(|| true_store(X))
    }
    fn px(&self) -> &PredRelStore<Key> {
        self.px.get_or_init(|| pred_store(X))
    }
    fn ty(&self) -> &TrueRelStore<Key> {
        self.ty.get_or_init(|| true_store(Y))
    }
    fn py(&self) -> &PredRelStore<Key> {
        self.py.get_or_init(|| pred_store(Y))
    }
    fn st(&self) -> &StudentTTest {
        self.st.get_or_init(|| StudentTTest::from_paired_samples(P1.iter().copied()).unwrap())
    }
    fn st3(&self) -> &StudentTTest {
        self.st3.get_or_init(|| StudentTTest::from_paired_samples(P3.iter().copied()).unwrap())
    }
    fn an(&self) -> &TwoWayAnovaWithoutReplication {
        self.an.get_or_init(|| TwoWayAnovaWithoutReplication::from_tupled_samples(rows(M1, 3), 3).unwrap())
    }
    fn tk(&self) -> &TukeyHsdTest {
        self.tk.get_or_init(|| TukeyHsdTest::from_tupled_samples(rows(M2, 3), 3).unwrap())
    }
    fn ev(&self) -> &Evaluation<Key> {
        self.ev.get_or_init(|| evaluate(self.tx(), self.px(), Metric::AP { k: 0 }).unwrap())
    }
    fn maps(&self) -> &Vec<BTreeMap<Key, f64>> {
        self.maps.get_or_init(|| {
            let m = |k: &[u32], c: f64| k.iter().map(|&k| (Key(k), k as f64 * c)).collect();
            vec![m(&[1, 2, 3], 0.5), m(&[1, 2, 3], -2.0), m(&[1, 2, 3], 8.0), m(&[1, 2, 4], 1.0), m(&[1, 2], 1.0)]
        })
    }
    fn bt(&self) -> &BootstrapTester {
        self.bt.get_or_init(|| BootstrapTester::new().with_n_resamples(6).with_random_state(11))
    }
    fn rt(&self) -> &RandomizedTukeyHsdTester {
        self.rt.get_or_init(|| RandomizedTukeyHsdTester::new(3).with_n_iters(5).with_random_state(12))
    }
    fn rtu(&self) -> &RandomizedTukeyHsdTester {
        self.rtu.get_or_init(|| RandomizedTukeyHsdTester::new(3).with_n_iters(4))
    }
    fn force(&self) {
        (self.tx(), self.px(), self.ty(), self.py(), self.st(), self.st3(), self.an(), self.tk());
        (self.ev(), self.maps(), self.bt(), self.rt(), self.rtu());
    }
    /// Everything that can be seen of the shared inputs.
    fn dump(&self) -> String {
        format!(
            "{}\n{}\n{}\n{}\n{}\n{}\n{}\n{}\n{}\n{:?}\n{:?}",
            dump(self.tx()),
            dump(self.px()),
            dump(self.ty()),
            dump(self.py()),
            read_t(self.st()),
            read_t(self.st3()),
            read_a(self.an()),
            read_k(self.tk()),
            read_e(self.ev()),
            self.maps().iter().map(|m| m.iter().map(|(k, v)| (k.0, v.to_bits())).collect::<Vec<_>>()).collect::<Vec<_>>(),
            (self.bt(), self.rt(), self.rtu())
        )
    }
}

fn read_t(t: &StudentTTest) -> String {
    format!("{} {}", t.n_topics(), bv(&[t.mean(), t.variance(), t.effect_size(), t.t_stat(), t.p_value()]))
}
fn read_a(a: &TwoWayAnovaWithoutReplication) -> String {
    format!(
        "{} {} {} / {} / {}",
        a.n_systems(),
        a.n_topics(),
        bv(&a.system_means()),
        bv(&a.topic_means()),
        bv(&[
            a.between_system_variation(),
            a.between_topic_variation(),
            a.residual_variation(),
            a.between_system_variance(),
            a.between_topic_variance(),
            a.residual_variance(),
            a.between_system_f_stat(),
            a.between_topic_f_stat(),
            a.between_system_p_value(),
            a.between_topic_p_value()
        ])
    )
}
fn read_k(t: &TukeyHsdTest) -> String {
    format!("{} {} {}", t.n_systems(), t.n_topics(), bv(&t.effect_sizes().concat()))
}
fn read_e(e: &Evaluation<Key>) -> String {
    format!("{} {:?} {}", e.metric(), e.scores().iter().map(|(k, v)| (k.0, bits(*v))).collect::<Vec<_>>(), bv(&[e.mean(), e.variance(), e.std_dev()]))
}
fn read_b(b: &BootstrapTest) -> String {
    format!("{} {} {} {}", b.n_topics(), b.n_resamples(), b.random_state(), bits(b.p_value()))
}
fn read_r(r: &RandomizedTukeyHsdTest) -> String {
    format!("{} {} {} {} {}", r.n_systems(), r.n_topics(), r.n_iters(), r.random_state(), bv(&r.p_values().concat()))
}

// ---------------------------------------------------------------- the calls

/// Reads a result that is kept.
type Read = Box<dyn Fn() -> String + Send>;
struct Out {
    first: String,
    read: Option<Read>,
}
struct Act {
    name: String,
    /// One of the calls that stand for all calls of their kind.
    core: bool,
    f: Box<dyn Fn(&'static World) -> Read + Sync + Send>,
}

fn res<T: Send + 'static>(r: elinor::Result<T>, f: fn(&T) -> String) -> Read {
    match r {
        Ok(t) => Box::new(move || f(&t)),
        Err(e) => Box::new(move || format!("{e:?} {e}")),
    }
}

fn acts() -> &'static Vec<Act> {
    static A: OnceLock<Vec<Act>> = OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<Act> = vec![];
        fn add(v: &mut Vec<Act>, core: bool, name: impl Into<String>, f: impl Fn(&'static World) -> Read + Sync + Send + 'static) {
            v.push(Act { name: name.into(), core, f: Box::new(f) });
        }
        // Metrics on shared and on separate stores with the same ids.
        let k = 2;
        let metrics = [
            Metric::Hits { k },
            Metric::Success { k: 1 },
            Metric::Precision { k },
            Metric::Recall { k },
            Metric::F1 { k },
            Metric::RPrecision,
            Metric::AP { k },
            Metric::RR { k },
            Metric::Bpref,
            Metric::DCG { k },
            Metric::NDCG { k },
            Metric::DCGBurges { k },
            Metric::NDCGBurges { k },
            Metric::AP { k: 0 },
            Metric::NDCG { k: 0 },
            Metric::NDCG { k: 4 },
            Metric::NDCGBurges { k: 0 },
            Metric::Precision { k: 0 },
            Metric::RR { k: 0 },
        ];
        for (i, m) in metrics.into_iter().enumerate() {
            let core = matches!(i, 6 | 8 | 10);
            add(&mut v, core, format!("evaluate {m} of shared X"), move |w| res(evaluate(w.tx(), w.px(), m), read_e));
            add(&mut v, core && i == 10, format!("evaluate {m} of shared Y"), move |w| res(evaluate(w.ty(), w.py(), m), read_e));
            add(&mut v, false, format!("evaluate {m} of a separate Y"), move |_| res(evaluate(&true_store(Y), &pred_store(Y), m), read_e));
            add(&mut v, false, format!("evaluate {m} of a separate Z"), move |_| res(evaluate(&true_store(Z), &pred_store(Z), m), read_e));
        }
        add(&mut v, true, "compute_metric with a query without judgments", |w| {
            let p = pred_store(Z);
            res(metrics::compute_metric(w.tx(), &p, Metric::AP { k: 0 }), |s| format!("{:?}", s.iter().map(|x| (x.0 .0, bits(*x.1))).collect::<Vec<_>>()))
        });
        add(&mut v, false, "evaluate judgments X with ranking Y", |w| res(evaluate(w.tx(), w.py(), Metric::NDCG { k: 3 }), read_e));
        // Stores.
        add(&mut v, true, "records of shared X", |w| {
            let r = w.tx().records();
            Box::new(move || r.iter().map(|r| format!("{}:{}:{} ", r.query_id.0, r.doc_id.0, r.score)).collect())
        });
        add(&mut v, false, "records of shared ranking Y", |w| {
            let r = w.py().records();
            Box::new(move || r.iter().map(|r| format!("{}:{}:{} ", r.query_id.0, r.doc_id.0, r.score)).collect())
        });
        add(&mut v, false, "everything read from shared X", |w| {
            let d = dump(w.px());
            Box::new(move || d.clone())
        });
        for (n, t) in [("X", X), ("Y", Y), ("Z", Z)] {
            add(&mut v, n == "X", format!("build and take apart {n}"), move |_| {
                let (a, b) = (true_store(t), pred_store(t));
                let (da, db) = (dump(&a), dump(&b));
                let (ra, rb) = (a.into_records(), b.into_records());
                Box::new(move || format!("{da}\n{db}\n{:?}\n{:?}", ra.iter().map(|r| (r.query_id.0, r.doc_id.0, r.score)).collect::<Vec<_>>(), rb.iter().map(|r| (r.query_id.0, r.doc_id.0, r.score.0)).collect::<Vec<_>>()))
            });
        }
        add(&mut v, true, "a duplicate entry", |_| {
            let mut b = TrueRelStoreBuilder::new();
            let a = [b.add_record(Key(1), Key(2), 1), b.add_record(Key(1), Key(3), 2), b.add_record(Key(1), Key(2), 3), b.add_record(Key(2), Key(2), 4)];
            let a = format!("{a:?}");
            let s = b.build();
            Box::new(move || format!("{a} {}", dump(&s)))
        });
        add(&mut v, false, "records with a duplicate", |_| {
            let r = [(1, 1, 5), (1, 2, 6), (1, 1, 5)].map(|(q, d, s)| Record { query_id: Key(q), doc_id: Key(d), score: s });
            res(TrueRelStore::from_records(steps(r)), dump)
        });
        add(&mut v, false, "records given up half-way", |_| {
            let r = [(1, 1, 5), (1, 2, 6), (1, 3, 5)].map(|(q, d, s)| Record { query_id: Key(q), doc_id: Key(d), score: s });
            res(TrueRelStore::from_records(aborts(r, 2)), dump)
        });
        // TREC lines.
        fn lines(l: &[&str]) -> Vec<Line> {
            l.iter().map(|s| Line(s.to_string())).collect()
        }
        fn sdump<T: std::fmt::Debug + Ord + Clone>(s: &relevance::RelevanceStore<String, T>) -> String {
            format!("{:?}", s.records())
        }
        const T1: &[&str] = &["q1 0 d1 1", "q1 0 d2 -1", "q2 0 d1 3"];
        const T2: &[&str] = &["q1 0 d1 2", "q1 0 d3 0", "q2 0 d1 2"];
        const R1: &[&str] = &["q1 Q0 d1 1 0.5 a", "q1 Q0 d2 2 -0.5 a", "q2 Q0 d1 1 3 a"];
        const R2: &[&str] = &["q1 Q0 d1 1 0.25 a", "q1 Q0 d2 2 0.5 a", "q2 Q0 d9 1 3 a"];
        for (n, l) in [("1", T1), ("2", T2)] {
            add(&mut v, n == "1", format!("parse judgments {n}"), move |_| res(trec::parse_true_rels_in_trec(steps(lines(l))), sdump));
        }
        for (n, l) in [("1", R1), ("2", R2)] {
            add(&mut v, n == "1", format!("parse run {n}"), move |_| res(trec::parse_pred_rels_in_trec(steps(lines(l))), sdump));
        }
        for l in [&["q1 0 d1 1", "q1 0 d2"][..], &["q1 0 d1 1", "q1 0 d2 x"], &["q1 0 d1 1", "q1 0 d1 2"]] {
            add(&mut v, false, format!("parse bad judgments {l:?}"), move |_| res(trec::parse_true_rels_in_trec(steps(lines(l))), sdump));
        }
        for l in [&["q1 Q0 d1 1 0.5 a", "q1 Q0 d2 1"][..], &["q1 Q0 d1 1 0.5 a", "q1 Q0 d2 2 x a"], &["q1 Q0 d1 1 0.5 a", "q1 Q0 d1 2 0.1 a"]] {
            add(&mut v, false, format!("parse bad run {l:?}"), move |_| res(trec::parse_pred_rels_in_trec(steps(lines(l))), sdump));
        }
        add(&mut v, false, "parse judgments given up half-way", |_| res(trec::parse_true_rels_in_trec(aborts(lines(T1), 2)), sdump));
        add(&mut v, false, "parse run given up half-way", |_| res(trec::parse_pred_rels_in_trec(aborts(lines(R1), 1)), sdump));
        // Metric names.
        for s in ["ndcg@10", "ndcg", "ndcg@2", "ap", "ap@10", "ndcg_burges@10", "nope", "ap@", "ap@99999999999999999999999"] {
            add(&mut v, matches!(s, "ndcg@10" | "nope"), format!("parse metric {s}"), move |_| res(s.parse::<Metric>(), |m| format!("{m:?} {m}")));
        }
        // Score maps.
        for (n, ix) in [("three", &[0_usize, 1, 2][..]), ("two", &[2, 0]), ("other keys", &[0, 1, 3]), ("other lengths", &[1, 4]), ("one", &[1]), ("no", &[])] {
            add(&mut v, matches!(n, "three" | "other keys"), format!("tuples from {n} maps"), move |w| res(tuples_from_maps(steps(ix.iter().map(|&i| &w.maps()[i]))), |t| format!("{t:?}")));
        }
        add(&mut v, true, "pairs from maps", |w| res(pairs_from_maps(&w.maps()[0], &w.maps()[2]), |t| format!("{t:?}")));
        add(&mut v, false, "pairs from other maps", |w| res(pairs_from_maps(&w.maps()[2], &w.maps()[1]), |t| format!("{t:?}")));
        add(&mut v, false, "pairs from different keys", |w| res(pairs_from_maps(&w.maps()[2], &w.maps()[3]), |t| format!("{t:?}")));
        add(&mut v, false, "tuples from maps given up half-way", |w| res(tuples_from_maps(aborts(w.maps().iter(), 2)), |t| format!("{t:?}")));
        // Paired tests.
        for (n, p) in [("1", P1), ("2", P2), ("3", P3), ("without variation", PEQ), ("too short", &P1[..1])] {
            add(&mut v, matches!(n, "1" | "too short"), format!("t-test {n}"), move |_| res(StudentTTest::from_paired_samples(steps(p.iter().copied())), read_t));
            for (s, r) in [(1_u64, 4_usize), (2, 4), (1, 7)] {
                if n.len() > 1 && s + r as u64 > 5 {
                    continue;
                }
                add(&mut v, n == "1" && r == 4 && s == 1, format!("bootstrap {n}, state {s}, {r} resamples"), move |_| res(BootstrapTester::new().with_n_resamples(r).with_random_state(s).test(steps(p.iter().copied())), read_b));
            }
        }
        add(&mut v, true, "t-test given up half-way", |_| res(StudentTTest::from_paired_samples(aborts(P1.iter().copied(), 3)), read_t));
        add(&mut v, false, "bootstrap given up half-way", |w| res(w.bt().test(aborts(P1.iter().copied(), 3)), read_b));
        add(&mut v, true, "shared bootstrap tester, data 1", |w| res(w.bt().test(steps(P1.iter().copied())), read_b));
        add(&mut v, false, "shared bootstrap tester, data 3", |w| res(w.bt().test(steps(P3.iter().copied())), read_b));
        add(&mut v, false, "copy of the shared bootstrap tester with another state", |w| {
            let t = *w.bt();
            let t = t.with_random_state(99).with_n_resamples(8);
            res(t.test(steps(P1.iter().copied())), read_b)
        });
        add(&mut v, true, "bootstrap without a state", |_| {
            let t = BootstrapTester::new().with_n_resamples(5);
            let r = t.test(steps(P1.iter().copied())).unwrap();
            let again = t.with_random_state(r.random_state()).test(steps(P1.iter().copied())).unwrap();
            let same = read_b(&r) == read_b(&again);
            Box::new(move || format!("{} {} {same}", r.n_topics(), r.n_resamples()))
        });
        for a in [0.05, 0.01, 0.5, 1.0, 0.0, 2.0] {
            add(&mut v, a == 0.05, format!("shared t-test 1: margin and interval for {a}"), move |w| {
                let (m, c) = (w.st().margin_of_error(a), w.st().confidence_interval(a));
                Box::new(move || format!("{m:?} {c:?}"))
            });
        }
        for a in [0.05, 0.01] {
            add(&mut v, false, format!("shared t-test 3: margin and interval for {a}"), move |w| {
                let (m, c) = (w.st3().margin_of_error(a), w.st3().confidence_interval(a));
                Box::new(move || format!("{m:?} {c:?}"))
            });
            add(&mut v, false, format!("t-test 2: margin and interval for {a}"), move |_| {
                let t = StudentTTest::from_paired_samples(steps(P2.iter().copied())).unwrap();
                let (m, c) = (t.margin_of_error(a), t.confidence_interval(a));
                Box::new(move || format!("{m:?} {c:?}"))
            });
        }
        // Tests of several systems.
        let sets: [(&str, fn() -> Vec<Vec<f64>>, usize); 7] = [
            ("1", || rows(M1, 3), 3),
            ("2", || rows(M2, 3), 3),
            ("3", || rows(M3, 2), 2),
            ("1, two systems", || rows(M1, 2), 2),
            ("with a short topic", || bad_rows(M1), 3),
            ("one topic", || rows(&M1[..1], 3), 3),
            ("wrong width", || rows(M1, 3), 4),
        ];
        for (n, d, m) in sets {
            let c = n == "1";
            add(&mut v, c || n == "with a short topic", format!("ANOVA {n}"), move |_| res(TwoWayAnovaWithoutReplication::from_tupled_samples(steps(d()), m), read_a));
            add(&mut v, c, format!("Tukey HSD {n}"), move |_| res(TukeyHsdTest::from_tupled_samples(steps(d()), m), read_k));
            for (s, r) in [(1_u64, 3_usize), (2, 3), (1, 5)] {
                if !matches!(n, "1" | "2" | "3") && s + r as u64 > 4 {
                    continue;
                }
                add(&mut v, c && s == 1 && r == 3, format!("randomized Tukey HSD {n}, state {s}, {r} iterations"), move |_| res(RandomizedTukeyHsdTester::new(m).with_n_iters(r).with_random_state(s).test(steps(d())), read_r));
            }
            if n.len() == 1 {
                for a in [0.05, 0.2, 0.0] {
                    add(&mut v, false, format!("ANOVA {n}: margin for {a}"), move |_| {
                        let r = TwoWayAnovaWithoutReplication::from_tupled_samples(d(), m).unwrap().margin_of_error(a);
                        Box::new(move || format!("{r:?}"))
                    });
                }
            }
        }
        add(&mut v, false, "shared ANOVA: margin for 0.05", |w| {
            let r = w.an().margin_of_error(0.05);
            Box::new(move || format!("{r:?}"))
        });
        add(&mut v, false, "shared Tukey HSD: effect sizes", |w| {
            let r = w.tk().effect_sizes();
            Box::new(move || bv(&r.concat()))
        });
        add(&mut v, true, "ANOVA given up half-way", |_| res(TwoWayAnovaWithoutReplication::from_tupled_samples(aborts(rows(M1, 3), 2), 3), read_a));
        add(&mut v, false, "Tukey HSD given up half-way", |_| res(TukeyHsdTest::from_tupled_samples(aborts(rows(M1, 3), 3), 3), read_k));
        add(&mut v, false, "randomized Tukey HSD given up half-way", |w| res(w.rt().test(aborts(rows(M1, 3), 3)), read_r));
        add(&mut v, true, "shared randomized Tukey tester, data 1", |w| res(w.rt().test(steps(rows(M1, 3))), read_r));
        add(&mut v, false, "shared randomized Tukey tester, data 2", |w| res(w.rt().test(steps(rows(M2, 3))), read_r));
        add(&mut v, false, "shared randomized Tukey tester, short topic", |w| res(w.rt().test(steps(bad_rows(M2))), read_r));
        add(&mut v, false, "clone of the shared randomized Tukey tester with another state", |w| res(w.rt().clone().with_random_state(5).with_n_iters(7).test(steps(rows(M1, 3))), read_r));
        add(&mut v, true, "shared randomized Tukey tester without a state", |w| {
            let r = w.rtu().test(steps(rows(M1, 3))).unwrap();
            let again = w.rtu().clone().with_random_state(r.random_state()).test(steps(rows(M1, 3))).unwrap();
            let same = read_r(&r) == read_r(&again);
            Box::new(move || format!("{} {} {} {same}", r.n_systems(), r.n_topics(), r.n_iters()))
        });
        v
    })
}

fn run_act(a: usize) -> Out {
    let act = &acts()[a];
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let r = (act.f)(&WORLD);
        (r(), r)
    })) {
        Ok((s, r)) => Out { first: s, read: Some(r) },
        Err(p) if p.is::<Abort>() => Out { first: "given up".into(), read: None },
        Err(_) => Out { first: format!("panicked: {}", last_panic()), read: None },
    }
}

/// Entry of a fresh process: makes the calls of the list in this order and prints the results.
pub fn alone(list: &str) -> i32 {
    install_panic_hook();
    for a in list.split(',') {
        let o = run_act(a.parse().expect("action"));
        println!("{}", o.first.replace('\n', "\\n"));
    }
    0
}

fn in_fresh_process(list: &[usize]) -> Result<Vec<String>, String> {
    let s = list.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",");
    let o = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_ALONE", s).env_remove("MC_CHILD").output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.replace("\\n", "\n")).collect::<Vec<_>>();
    if !o.status.success() || out.len() != list.len() {
        return Err(format!("the process ended with {:?} after {} of {} calls", o.status, out.len(), list.len()));
    }
    Ok(out)
}

fn names(h: &[usize]) -> String {
    h.iter().map(|&a| format!("[{}]", acts()[a].name)).collect::<Vec<_>>().join(" then ")
}

static CALLS: AtomicU64 = AtomicU64::new(0);

/// Compares the results of a history with those of the calls alone, at once and when read later.
fn judge(h: &[usize], outs: &[Out], base: &[String], w: &mut W, how: &dyn Fn() -> String) {
    w.ops(h.len() as u64);
    w.trace();
    CALLS.fetch_add(h.len() as u64, SeqCst);
    for (a, o) in h.iter().zip(outs) {
        w.check(o.first == base[*a], || format!("{}: call [{}] gives {} instead of {} as when made alone ({} calls in this process before)", how(), acts()[*a].name, o.first, base[*a], CALLS.load(SeqCst)));
        if let Some(r) = &o.read {
            let later = r();
            w.check(later == base[*a], || format!("{}: the result of [{}] was {} and reads {later} after the other calls", how(), acts()[*a].name, o.first));
        }
    }
}

fn unchanged(before: &str, w: &mut W, how: &dyn Fn() -> String) {
    let now = WORLD.dump();
    w.check(now == before, || format!("{}: the shared inputs have changed from\n{before}\nto\n{now}", how()));
}

/// Runs the calls on threads of their own under the plan.
fn scheduled(h: &[usize], first: usize, plan: &[(usize, u64, usize)]) -> (Vec<Out>, bool, bool) {
    let s = Arc::new(Sched {
        st: Mutex::new(SchedSt { turn: first, done: vec![false; h.len()], plan: plan.to_vec(), next: 0, steps: 0, forced: false }),
        cv: Condvar::new(),
    });
    let outs = std::thread::scope(|sc| {
        let hs: Vec<_> = h
            .iter()
            .enumerate()
            .map(|(me, &a)| {
                let s = s.clone();
                sc.spawn(move || {
                    s.wait(me);
                    enter(Mode::Sched(s.clone(), me));
                    let o = run_act(a);
                    leave();
                    s.finish(me);
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let g = s.st.lock().unwrap();
    (outs, g.next == plan.len(), g.forced)
}

// ---------------------------------------------------------------- stores that come and go

/// Judgments by document (3: none) and the ranked documents in rank order.
type Content = (Vec<u32>, &'static [u32]);
const ORDERS: [&[u32]; 3] = [&[0, 1, 2], &[2, 1, 0], &[3, 1, 0]];

fn content_case(c: &(&[u32], &[u32])) -> Case {
    let grade = |d: u32| c.0.get(d as usize).copied().filter(|&g| g < 3);
    Case {
        ranked: c.1.iter().map(|&d| grade(d)).collect(),
        rest: (0..c.0.len() as u32).filter(|d| !c.1.contains(d)).filter_map(grade).collect(),
    }
}
fn content_true<K: Clone + Ord + std::fmt::Display>(g: &[u32], name: &impl Fn(u32) -> K) -> TrueRelStore<K> {
    TrueRelStore::from_records(g.iter().enumerate().filter(|(_, &s)| s < 3).map(|(d, &s)| Record { query_id: name(9), doc_id: name(d as u32), score: s })).unwrap()
}
fn content_pred<K: Clone + Ord + std::fmt::Display>(o: &[u32], name: &impl Fn(u32) -> K) -> PredRelStore<K> {
    PredRelStore::from_records(o.iter().enumerate().map(|(i, &d)| Record { query_id: name(9), doc_id: name(d), score: (-(i as f64)).into() })).unwrap()
}

const LIVES: [&str; 7] = [
    "both stores dropped (ranking first) and built again",
    "both stores dropped (judgments first) and built again",
    "the judgments replaced, the ranking kept",
    "the ranking replaced, the judgments kept",
    "two pairs of stores exchanged in place",
    "two pairs of stores in turns",
    "the new stores built before the old ones are dropped",
];

fn life<K: Clone + Ord + std::fmt::Display + std::fmt::Debug>(a: &Content, b: &Content, ms: [Metric; 2], life: usize, name: impl Fn(u32) -> K, w: &mut W) {
    let eval = |t: &TrueRelStore<K>, p: &PredRelStore<K>, c: (&[u32], &[u32]), m: Metric, step: usize, w: &mut W| {
        w.op();
        let want = reference(&content_case(&c), m);
        match evaluate(t, p, m) {
            Ok(e) => {
                let got = e.scores().get(&name(9)).copied();
                w.check(e.scores().len() == 1 && got.is_some_and(|g| same(g, want)) && same(e.mean(), want) && e.variance().abs() < 1e-12, || {
                    format!("evaluation {step} of a history of {ms:?} on {a:?} and {b:?} with {}: {m} of {c:?} is {got:?}, mean {}, by itself {want}", LIVES[life], e.mean())
                })
            }
            Err(e) => w.fail("", format!("evaluation {step} of a history of {ms:?} on {a:?} and {b:?} with {}: {m} of {c:?} fails with {e:?}", LIVES[life])),
        }
    };
    let (t, p) = (|c: &Content| content_true(&c.0, &name), |c: &Content| content_pred(c.1, &name));
    let (mut t1, mut p1) = (t(a), p(a));
    let whole = |c: &'_ Content| -> (Vec<u32>, &'static [u32]) { c.clone() };
    let (ca, cb) = (whole(a), whole(b));
    eval(&t1, &p1, (&ca.0, ca.1), ms[0], 1, w);
    match life {
        0 | 1 => {
            for (step, c, m) in [(2, &cb, ms[1]), (3, &ca, ms[1])] {
                if life == 0 {
                    drop(p1);
                    drop(t1);
                } else {
                    drop(t1);
                    drop(p1);
                }
                (t1, p1) = (t(c), p(c));
                eval(&t1, &p1, (&c.0, c.1), m, step, w);
            }
        }
        2 => {
            drop(t1);
            let t2 = t(b);
            eval(&t2, &p1, (&cb.0, ca.1), ms[1], 2, w);
        }
        3 => {
            drop(p1);
            let p2 = p(b);
            eval(&t1, &p2, (&ca.0, cb.1), ms[1], 2, w);
        }
        4 => {
            let (mut t2, mut p2) = (t(b), p(b));
            std::mem::swap(&mut t1, &mut t2);
            std::mem::swap(&mut p1, &mut p2);
            eval(&t1, &p1, (&cb.0, cb.1), ms[1], 2, w);
            eval(&t2, &p2, (&ca.0, ca.1), ms[1], 3, w);
            eval(&t2, &p1, (&ca.0, cb.1), ms[1], 4, w);
        }
        5 => {
            let (t2, p2) = (t(b), p(b));
            for step in 0..2 {
                eval(&t2, &p2, (&cb.0, cb.1), ms[1], 2 * step + 2, w);
                eval(&t1, &p1, (&ca.0, ca.1), ms[0], 2 * step + 3, w);
            }
        }
        _ => {
            let (t2, p2) = (t(b), p(b));
            drop((t1, p1));
            eval(&t2, &p2, (&cb.0, cb.1), ms[1], 2, w);
            (t1, p1) = (t(a), p(a));
            eval(&t1, &p1, (&ca.0, ca.1), ms[0], 3, w);
        }
    }
    w.trace();
}

fn lifetimes(cx: &mut Cx) {
    let th = cx.thorough;
    let ms: Vec<Metric> = [0, 2].into_iter().flat_map(all_metrics).collect::<std::collections::HashSet<_>>().into_iter().collect::<Vec<_>>();
    let mut ms = ms;
    ms.sort_by_key(|m| m.to_string());
    let (ms, nm) = (&ms, ms.len() as u64);
    let run = |a: &Content, b: &Content, m: [Metric; 2], l: usize, string: bool, w: &mut W| {
        w.at(|| format!("{m:?} on {a:?} and {b:?}, {}", LIVES[l]));
        w.state(&("life", a, b, m, l));
        if string {
            life(a, b, m, l, |d| format!("id{d}"), w)
        } else {
            life(a, b, m, l, |d| d, w)
        }
    };
    // Three judged documents each, or up to three.
    let g = if th { 4 } else { 3 };
    let nc = g * g * g * ORDERS.len() as u64;
    let content = |i: u64, g: u64| -> Content {
        let mut r = Radix(i);
        let o = *r.pick(&ORDERS);
        (r.vec(g, 3).iter().map(|&x| x as u32).collect(), o)
    };
    cx.family("one metric on stores that come and go, every pair of contents", nc * nc, |i, w| {
        let (x, y) = (i / nc, i % nc);
        let (a, b) = (content(x, g), content(y, g));
        // A query without any judgment is not in the store.
        if a.0.iter().all(|&g| g == 3) || b.0.iter().all(|&g| g == 3) {
            return;
        }
        for l in 0..LIVES.len() {
            for (j, m) in ms.iter().enumerate() {
                run(&a, &b, [*m, *m], l, (i + j as u64) % 2 == 0, w);
            }
        }
    });
    // Two metrics, for contents that differ in what the metrics depend on.
    let few = if th { 27 } else { 8 };
    cx.family("two metrics on stores that come and go", nm * nm * (few * 3) * (few * 3), |i, w| {
        let mut r = Radix(i);
        let m = [*r.pick(ms), *r.pick(ms)];
        let (x, y) = (r.take(few * 3), r.take(few * 3));
        let g = if th { 3 } else { 2 };
        let (a, b) = (content(x, g), content(y, g));
        for l in [0, 4, 5] {
            run(&a, &b, m, l, i % 2 == 0, w);
        }
    });
}

/// Score maps that are exchanged, changed or rebuilt between calls.
fn map_lifetimes(cx: &mut Cx) {
    let keys = [&[1_u32, 2][..], &[1, 3], &[2, 3], &[1, 2, 3], &[2]];
    let make = |c: (usize, u32)| -> BTreeMap<u32, f64> { keys[c.0].iter().map(|&k| (k, (k * 10 + c.1) as f64)).collect() };
    let n = (keys.len() * 2) as u64;
    let deep = if cx.thorough { 4 } else { 3 };
    let make = &make;
    cx.family("score maps that come and go", n.pow(deep) * 2, |i, w| {
        let mut r = Radix(i);
        let rebuilt = r.take(2) == 1;
        let cs: Vec<(usize, u32)> = r.vec(n, deep as usize).iter().map(|&x| ((x / 2) as usize, (x % 2) as u32)).collect();
        w.at(|| format!("maps {:?}, rebuilt {rebuilt}", cs.iter().map(|c| make(*c)).collect::<Vec<_>>()));
        w.state(&("maps", &cs, rebuilt));
        let mut maps: Vec<BTreeMap<u32, f64>> = cs.iter().map(|c| make(*c)).collect();
        let mut now = cs.clone();
        let n = cs.len();
        for step in 0..2 * n {
            for (x, y) in [(0, 1), (1, 2), (0, 0)] {
                w.op();
                let want = (keys[now[x].0] == keys[now[y].0]).then(|| keys[now[x].0].iter().map(|k| ((k * 10 + now[x].1) as f64, (k * 10 + now[y].1) as f64)).collect::<Vec<_>>());
                let got = pairs_from_maps(&maps[x], &maps[y]);
                w.check(got.as_ref().ok() == want.as_ref(), || format!("step {step}, maps {:?} and {:?}: {got:?}, expected {want:?}", maps[x], maps[y]));
                let got = tuples_from_maps([&maps[x], &maps[y]]);
                let want = want.map(|v| v.into_iter().map(|(a, b)| vec![a, b]).collect::<Vec<_>>());
                w.check(got.as_ref().ok() == want.as_ref(), || format!("step {step}, maps {:?} and {:?}: {got:?}, expected {want:?} of tuples", maps[x], maps[y]));
            }
            if rebuilt {
                // Emptied one by one and filled with what another one held.
                let k = step % n;
                now[k] = cs[(step + 1) % n];
                maps[k].clear();
                maps[k].extend(make(now[k]));
            } else {
                maps.swap(step % n, (step + 1) % n);
                now.swap(step % n, (step + 1) % n);
            }
        }
        w.trace();
    });
}

/// One place in memory whose content changes between two calls, with nothing in between.
fn same_place(cx: &mut Cx) {
    let keys = [&[1_u32, 2][..], &[1, 3], &[2, 3], &[1, 2, 3], &[2]];
    let n = (keys.len() * 2) as u64;
    let deep = if cx.thorough { 3 } else { 2 };
    let fill = move |m: &mut BTreeMap<u32, f64>, c: u64, clear: bool| {
        let (k, v) = (keys[(c / 2) as usize], (c % 2) as f64);
        if clear {
            m.clear();
        } else {
            m.retain(|x, _| k.contains(x));
        }
        m.extend(k.iter().map(|&k| (k, k as f64 * 10.0 + v)));
    };
    let fill = &fill;
    cx.family("a pair of score maps changed in place between calls", n * n * (2 * n).pow(deep) * 4, |i, w| {
        let mut r = Radix(i);
        let (tuples, clear) = (r.take(2) == 1, r.take(2) == 1);
        let mut now = [r.take(n), r.take(n)];
        let changes = r.vec(2 * n, deep as usize);
        w.at(|| format!("map contents {now:?}, then {changes:?} (map and content), tuples {tuples}"));
        w.state(&("place", i));
        let mut maps = [BTreeMap::new(), BTreeMap::new()];
        for k in 0..2 {
            fill(&mut maps[k], now[k], true);
        }
        for step in 0..=changes.len() {
            if step > 0 {
                let (k, c) = ((changes[step - 1] % 2) as usize, changes[step - 1] / 2);
                fill(&mut maps[k], c, clear);
                now[k] = c;
            }
            let [x, y] = &maps;
            let want = (x.keys().eq(y.keys())).then(|| x.iter().map(|(k, v)| (*v, y[k])).collect::<Vec<_>>());
            w.op();
            let got = if tuples { tuples_from_maps([x, y]).map(|v| v.iter().map(|t| (t[0], t[1])).collect()) } else { pairs_from_maps(x, y) };
            w.check(got.as_ref().ok() == want.as_ref(), || format!("call {step}, maps {x:?} and {y:?}: {got:?}, expected {want:?}"));
        }
        w.trace();
    });
    // Names and lines read from a buffer that is used again.
    let names = ["ap", "ap@1", "ap@2", "rr@1", "rr@2", "rr@9", "ap@x", "xx", "f1@1", "f1@2", "hits", "bpref", "ndcg", "ndcg@1", "ndcg@2", "ndcg_burges", "dcg_burges@1", "dcg_burges@2", "success", "success@1"];
    let nn = names.len() as u64;
    cx.family("metric names in one buffer", nn.pow(3), |i, w| {
        let mut buf = String::with_capacity(64);
        let v = Radix(i).vec(nn, 3);
        w.at(|| format!("names {:?}", v.iter().map(|&x| names[x as usize]).collect::<Vec<_>>()));
        w.state(&("names", i));
        for &x in &v {
            buf.clear();
            buf.push_str(names[x as usize]);
            w.op();
            let got = buf.parse::<Metric>();
            let bad = ["ap@x", "xx"].contains(&names[x as usize]);
            w.check(got.as_ref().map_or(bad, |m| !bad && m.to_string() == buf), || format!("{buf:?} gives {got:?}"));
        }
        w.trace();
    });
    let lines = ["q 0 d 1", "q 0 e 1", "q 0 d 2", "p 0 d 1", "q 0 d x", "q 0 d", "q 0 d 1 2", "q 0 d 1 3", "q 0 d 1 x", "q 1 d 1 2"];
    let nl = lines.len() as u64;
    cx.family("lines in one buffer", nl.pow(3) * 2, |i, w| {
        let mut r = Radix(i);
        let run = r.take(2) == 1;
        let v = r.vec(nl, 3);
        w.at(|| format!("lines {:?}, run {run}", v.iter().map(|&x| lines[x as usize]).collect::<Vec<_>>()));
        w.state(&("lines", i));
        let mut buf = [String::with_capacity(64)];
        for &x in &v {
            buf[0].clear();
            buf[0].push_str(lines[x as usize]);
            let col: Vec<&str> = lines[x as usize].split(' ').collect();
            let want = col.get(if run { 4 } else { 3 }).and_then(|s| s.parse::<f64>().ok());
            w.op();
            let got = if run {
                elinor::trec::parse_pred_rels_in_trec(&buf).map(|s| s.into_records().into_iter().map(|r| (r.query_id, r.doc_id, r.score.into_inner())).collect::<Vec<_>>())
            } else {
                elinor::trec::parse_true_rels_in_trec(&buf).map(|s| s.into_records().into_iter().map(|r| (r.query_id, r.doc_id, r.score as f64)).collect::<Vec<_>>())
            };
            let want = want.map(|s| vec![(col[0].to_string(), col[2].to_string(), s)]);
            w.check(got.as_ref().ok() == want.as_ref(), || format!("{:?} gives {got:?}, expected {want:?}", buf[0]));
        }
        w.trace();
    });
    // Lookups by keys whose text changes in place, on one store and on another.
    cx.family("lookups with keys changed in place", 9_u64.pow(3) * 4, |i, w| {
        let mut r = Radix(i);
        let (t0, p0) = (r.take(2), r.take(2));
        let at = r.vec(9, 3);
        w.at(|| format!("lookups {at:?}"));
        w.state(&("lookups", i));
        let (mut q, mut d) = (String::with_capacity(8), String::with_capacity(8));
        let mut t = TrueRelStore::from_records((0..2).flat_map(|q| (0..2).map(move |d| Record { query_id: format!("q{q}"), doc_id: format!("d{d}"), score: q * 2 + d }))).unwrap();
        let mut p = PredRelStore::from_records((0..2).flat_map(|q| (0..2).map(move |d| Record { query_id: format!("q{q}"), doc_id: format!("d{d}"), score: PredScore::from((q * 2 + d) as f64) }))).unwrap();
        let mut plus = 0;
        for (step, &a) in at.iter().enumerate() {
            if step == 1 && t0 == 1 {
                t = TrueRelStore::from_records((0..2).flat_map(|q| (0..2).map(move |d| Record { query_id: format!("q{q}"), doc_id: format!("d{d}"), score: q * 2 + d + 10 }))).unwrap();
                p = PredRelStore::from_records((0..2).flat_map(|q| (0..2).map(move |d| Record { query_id: format!("q{q}"), doc_id: format!("d{d}"), score: PredScore::from((q * 2 + d + 10) as f64) }))).unwrap();
                plus = 10;
            }
            let (x, y) = (a / 3, a % 3);
            q.clear();
            q.push_str(["q0", "q1", "q2"][x as usize]);
            d.clear();
            d.push_str(["d0", "d1", "d2"][y as usize]);
            let want = (x < 2 && y < 2).then(|| x as u32 * 2 + y as u32 + plus);
            w.op();
            if p0 == 0 {
                let got = t.get_score(&q, &d).copied();
                w.check(got == want, || format!("judgment of {q} {d} is {got:?}, expected {want:?}"));
                let got = t.get_map(&q).map(|m| m.len());
                w.check(got == (x < 2).then_some(2), || format!("map of {q} has {got:?}"));
            } else {
                let got = p.get_score(&q, &d).map(|s| s.into_inner());
                w.check(got == want.map(|v| v as f64), || format!("score of {q} {d} is {got:?}, expected {want:?}"));
                let got = p.get_sorted(&q).map(|v| v.len());
                w.check(got == (x < 2).then_some(2), || format!("ranking of {q} has {got:?}"));
            }
        }
        w.trace();
    });
}

pub fn c22(cx: &mut Cx) {
    cx.rule = "state = a distinct history (calls, order, threads, nesting or interleaving); each call's result is compared bit for bit with the result of the same call made alone in a fresh process".into();
    let th = cx.thorough;
    let n = acts().len() as u64;
    // Each call alone, in a process of its own, twice.
    let base: Vec<String> = {
        let res: Mutex<Vec<Option<Result<String, String>>>> = Mutex::new((0..n).map(|_| None).collect());
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..cx.threads {
                sc.spawn(|| loop {
                    let a = next.fetch_add(1, SeqCst);
                    if a >= n {
                        break;
                    }
                    let a = a as usize;
                    let r = in_fresh_process(&[a]).and_then(|x| {
                        let y = in_fresh_process(&[a])?;
                        if x != y {
                            return Err(format!("alone it gives {} and then {}", x[0], y[0]));
                        }
                        Ok(x[0].clone())
                    });
                    res.lock().unwrap()[a] = Some(r);
                });
            }
        });
        res.into_inner().unwrap().into_iter().map(|r| r.unwrap()).map(|r| r.unwrap_or_else(|e| format!("(!) {e}"))).collect()
    };
    let base = &base;
    cx.family("each call alone, in two processes", n, |i, w| {
        let b = &base[i as usize];
        w.at(|| format!("[{}] alone: {b}", acts()[i as usize].name));
        w.state(&("alone", i));
        w.ops(2);
        w.check(!b.starts_with("(!)") && !b.starts_with("panicked"), || format!("[{}]: {b}", acts()[i as usize].name));
        w.outcome(b);
        w.trace();
    });
    cx.family("all ordered pairs of calls, each in a fresh process", n * n, |i, w| {
        let h = [(i / n) as usize, (i % n) as usize];
        w.at(|| names(&h));
        w.state(&("fresh", h));
        match in_fresh_process(&h) {
            Ok(o) => {
                w.ops(2);
                for k in 0..2 {
                    w.check(o[k] == base[h[k]], || format!("{} in a fresh process: call {k} gives {} instead of {}", names(&h), o[k], base[h[k]]));
                }
            }
            Err(e) => w.fail("", format!("{}: {e}", names(&h))),
        }
        w.trace();
        w.sample(|| names(&h));
    });
    // Now everything in this process. The shared inputs exist from here on.
    WORLD.force();
    let before = WORLD.dump();
    let before = &before;
    let core: Vec<usize> = (0..n as usize).filter(|&a| acts()[a].core).collect();
    let c = core.len() as u64;
    cx.extra.insert("calls_in_the_menu", n);
    cx.extra.insert("calls_standing_for_their_kind", c);
    let core = &core;
    // The middle call stands for its kind in the quick tier.
    cx.family("sequences of three calls on one thread", n * n * if th { n } else { c }, |i, w| {
        let mut r = Radix(i);
        let (x, y) = (r.take(n) as usize, r.take(n) as usize);
        let m = if th { r.0 as usize } else { core[r.0 as usize] };
        let h = [x, m, y];
        w.at(|| names(&h));
        w.state(&("seq", h));
        let outs: Vec<Out> = h.iter().map(|&a| run_act(a)).collect();
        judge(&h, &outs, base, w, &|| names(&h));
        if i % 64 == 0 {
            unchanged(before, w, &|| names(&h));
        }
    });
    let deep = if th { 4 } else { 3 };
    cx.family("longer sequences of the calls standing for their kind, results kept", c.pow(deep), |i, w| {
        let mut h: Vec<usize> = Radix(i).vec(c, deep as usize).iter().map(|&x| core[x as usize]).collect();
        // Every call of the sequence again, in the same order: 2 * depth calls.
        h.extend(h.clone());
        w.at(|| names(&h));
        w.state(&("long", &h));
        let outs: Vec<Out> = h.iter().map(|&a| run_act(a)).collect();
        judge(&h, &outs, base, w, &|| names(&h));
        if i % 16 == 0 {
            unchanged(before, w, &|| names(&h));
        }
    });
    // A call made while another one asks for its next input, compares ids or draws.
    cx.family("every call inside every other one, at every point", n * n, |i, w| {
        let (outer, inner) = ((i / n) as usize, (i % n) as usize);
        enter(Mode::Count);
        let o = run_act(outer);
        let pts = leave();
        judge(&[outer], &[o], base, w, &|| acts()[outer].name.clone());
        let step = if th || acts()[outer].core && acts()[inner].core { 1 } else { (pts / 12).max(1) };
        let mut at = 1 + i % step;
        while at <= pts {
            w.at(|| format!("[{}] inside [{}] at point {at} of {pts}", acts()[inner].name, acts()[outer].name));
            w.state(&("nest", outer, inner, at));
            enter(Mode::Nest(at, inner));
            let o = run_act(outer);
            leave();
            let how = || format!("[{}] inside [{}] at point {at} of {pts}", acts()[inner].name, acts()[outer].name);
            judge(&[outer], &[o], base, w, &how);
            match NESTED.with(|s| s.borrow_mut().take()) {
                Some((a, o)) => judge(&[a], &[o], base, w, &how),
                // Runs without a random state differ in the number of words they draw.
                None => w.add("points_not_reached", 1),
            }
            at += step;
        }
        w.max("max_points_in_a_call", pts);
    });
    // Whole calls on threads of their own, in every order, the results read on this one.
    cx.family("three calls on threads of their own, one after the other", c * c * c, |i, w| {
        let h: Vec<usize> = Radix(i).vec(c, 3).iter().map(|&x| core[x as usize]).collect();
        w.at(|| format!("each on its own thread: {}", names(&h)));
        w.state(&("threads", &h));
        let (outs, _, _) = scheduled(&h, 0, &[]);
        judge(&h, &outs, base, w, &|| format!("each on its own thread: {}", names(&h)));
    });
    // Two threads, interleaved: all schedules with one preemption, for all pairs of calls.
    let run_plan = |h: &[usize; 2], first: usize, plan: &[(usize, u64, usize)], w: &mut W| {
        let how = || format!("two threads, [{}] and [{}]; thread {first} first, switches (thread, point, to) {plan:?}", acts()[h[0]].name, acts()[h[1]].name);
        w.at(how);
        w.state(&("plan", h, first, plan));
        let (outs, reached, forced) = scheduled(h, first, plan);
        w.add("schedules", 1);
        if !reached {
            w.add("schedules_not_reached", 1);
        }
        if forced {
            w.add("schedules_with_a_blocked_thread", 1);
        }
        judge(h, &outs, base, w, &how);
    };
    let count = |a: usize| {
        enter(Mode::Count);
        run_act(a);
        leave()
    };
    cx.family("all pairs of calls on two threads, one preemption", n * n, |i, w| {
        let h = [(i / n) as usize, (i % n) as usize];
        let full = th || acts()[h[0]].core && acts()[h[1]].core;
        let pts = count(h[0]);
        let step = if full { 1 } else { (pts / 4).max(1) };
        let mut at = 1 + i % step;
        while at <= pts {
            run_plan(&h, 0, &[(0, at, 1)], w);
            at += step;
        }
        if i % 16 == 0 {
            unchanged(before, w, &|| names(&h));
        }
    });
    let pairs: Vec<(usize, usize)> = (0..core.len()).flat_map(|a| (0..core.len()).map(move |b| (a, b))).collect();
    let pairs = &pairs;
    cx.family("pairs of the calls standing for their kind, two preemptions", pairs.len() as u64, |i, w| {
        let (a, b) = pairs[i as usize];
        let h = [core[a], core[b]];
        let (pa, pb) = (count(h[0]), count(h[1]));
        // Thinned evenly in the quick tier when there are many.
        let (sa, sb) = if th { (1, 1) } else { ((pa / 8).max(1), (pb / 8).max(1)) };
        let mut x = 1 + i % sa;
        while x <= pa {
            let mut y = 1 + i % sb;
            while y <= pb {
                run_plan(&h, 0, &[(0, x, 1), (1, y, 0)], w);
                y += sb;
            }
            x += sa;
        }
    });
    lifetimes(cx);
    map_lifetimes(cx);
    same_place(cx);
    // Two builders at once.
    let alpha = 8_u64; // builder (2) x document (2) x query (2)
    let bd = if th { 7 } else { 6 };
    cx.family("two builders filled in turns", seq_count(alpha, 1, bd), |i, w| {
        let h = seq_at(i, alpha, 1, bd);
        w.at(|| format!("additions {h:?}: builder, query, document = bits 0, 1, 2; score = position"));
        w.state(&("builders", &h));
        let mut bs = [TrueRelStoreBuilder::new(), TrueRelStoreBuilder::new()];
        let mut model: [BTreeMap<(u64, u64), u32>; 2] = Default::default();
        for (p, &a) in h.iter().enumerate() {
            let (b, q, d) = ((a & 1) as usize, a >> 1 & 1, a >> 2);
            let r = bs[b].add_record(q, d, p as u32);
            let dup = model[b].contains_key(&(q, d));
            w.check(r.is_err() == dup, || format!("addition {p} of {h:?}: {r:?}"));
            if !dup {
                model[b].insert((q, d), p as u32);
            }
        }
        w.ops(h.len() as u64);
        for (b, m) in bs.into_iter().zip(&model) {
            let s = b.build();
            let mut got: Vec<_> = s.into_records().into_iter().map(|r| ((r.query_id, r.doc_id), r.score)).collect();
            got.sort_unstable();
            w.check(got == m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), || format!("{h:?}: a builder holds {got:?}, added {m:?}"));
        }
        w.trace();
    });
    cx.family("the shared inputs at the end", 1, |_, w| unchanged(before, w, &|| "after everything".into()));
    cx.assume("a call can only be interrupted where it hands control to code of the caller (ids, iterators, lines) or to the random generator; between those points calls are taken as atomic (data races there are excluded by Rust's type system, as the library has no unsafe code)");
    cx.bound("a pair of score maps, a metric name, a line or the keys of a lookup changed in place between two or three calls, all contents of the menus");
    cx.bound("every ordered pair of the menu's calls in a fresh process; every sequence of three calls (quick: the middle one of those that stand for their kind); sequences of up to six (eight) calls that stand for their kind; every call inside every other one (quick: twelve points each, all points for the calls standing for their kind); two threads with one preemption for all pairs and two for those standing for their kind (quick: thinned evenly); two builders filled in turns by up to six (seven) additions; one metric, and every ordered pair of metrics, on every ordered pair of contents of stores that are dropped, rebuilt, exchanged or kept in seven ways, against the definitions");
}
