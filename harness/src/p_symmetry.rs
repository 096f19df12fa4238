//! C23: comparisons treat systems and topics symmetrically. Every small data set is compared
//! with all its reorderings, and with shifted and scaled versions, on the real tests.
use crate::common::*;
use crate::p_randomised::{bootstrap_exact, tukey_exact};
use crate::rngx::*;
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;
use elinor::ElinorError;

const TOL: f64 = 1e-9;

/// Everything the paired t-test reports.
#[derive(Clone, Debug, PartialEq)]
struct T {
    n: usize,
    mean: f64,
    var: f64,
    es: f64,
    t: f64,
    p: f64,
    moe: f64,
    lo: f64,
    hi: f64,
}
fn t_of(p: &[(f64, f64)]) -> Result<T, String> {
    let t = StudentTTest::from_paired_samples(p.iter().copied()).map_err(|e| match e {
        ElinorError::InvalidArgument(_) => "invalid argument".to_string(),
        ElinorError::Uncomputable(_) => "uncomputable".to_string(),
        e => format!("{e:?}"),
    })?;
    let moe = t.margin_of_error(0.05).map_err(|e| format!("{e:?}"))?;
    let (lo, hi) = t.confidence_interval(0.05).map_err(|e| format!("{e:?}"))?;
    Ok(T { n: t.n_topics(), mean: t.mean(), var: t.variance(), es: t.effect_size(), t: t.t_stat(), p: t.p_value(), moe, lo, hi })
}
/// sign, scale: what became of the differences.
fn same_t(a: &Result<T, String>, b: &Result<T, String>, sign: f64, c: f64, mag: f64) -> Result<(), String> {
    let (a, b) = match (a, b) {
        (Err(x), Err(y)) if x == y => return Ok(()),
        (Ok(a), Ok(b)) => (a, b),
        _ => return Err(format!("{a:?} becomes {b:?}")),
    };
    // Rounding is relative to the size of the scores (mag: after the change, in units of the result).
    let cond = 1.0 + mag * mag * c * c / b.var.max(1e-300) * 1e-6;
    let near = |x: f64, y: f64, unit: f64| (x - y).abs() <= TOL * cond * x.abs().max(y.abs()) + 1e-13 * unit;
    let mut bad = vec![];
    let m = mag * c;
    let pairs = [
        ("mean", a.mean * sign * c, b.mean, m),
        ("variance", a.var * c * c, b.var, m * m),
        ("effect size", a.es * sign, b.es, m / b.var.sqrt()),
        ("t", a.t * sign, b.t, m / b.var.sqrt() * (b.n as f64).sqrt()),
        ("p-value", a.p, b.p, 1.0),
        ("margin", a.moe * c, b.moe, m),
        ("lower bound", if sign > 0.0 { a.lo * c } else { -a.hi * c }, b.lo, m * 10.0),
        ("upper bound", if sign > 0.0 { a.hi * c } else { -a.lo * c }, b.hi, m * 10.0),
    ];
    for (n, x, y, u) in pairs {
        if !near(x, y, u) {
            bad.push(format!("{n} {y} instead of {x}"));
        }
    }
    if a.n != b.n {
        bad.push("the number of topics changes".into());
    }
    if bad.is_empty() {
        Ok(())
    } else {
        Err(bad.join(", "))
    }
}

fn relate_t(p: &[(f64, f64)], perms: &[Vec<usize>], w: &mut W) {
    let base = t_of(p);
    let mag = p.iter().fold(0.0_f64, |a, x| a.max(x.0.abs()).max(x.1.abs()));
    let mut go = |q: Vec<(f64, f64)>, sign: f64, c: f64, mag: f64, what: &dyn Fn() -> String| {
        w.op();
        if let Err(e) = same_t(&base, &t_of(&q), sign, c, mag) {
            w.fail("", format!("pairs {p:?}; {}: {e}", what()));
        }
    };
    for o in perms {
        go(o.iter().map(|&i| p[i]).collect(), 1.0, 1.0, mag, &|| format!("topics in order {o:?}"));
    }
    go(p.iter().map(|x| (x.1, x.0)).collect(), -1.0, 1.0, mag, &|| "systems swapped".into());
    for (k, f) in [(0, 3.0), (1, -16.0), (2, 1000.0)] {
        let s = |i: usize| f * ((i * (k + 1) + 1) % 5) as f64;
        go(p.iter().enumerate().map(|(i, x)| (x.0 + s(i), x.1 + s(i))).collect(), 1.0, 1.0, mag.max(f.abs() * 4.0), &|| format!("{f} x [1, 2...] added to both scores of the topics"));
    }
    let constant = base.is_err();
    for c in [2.0, 0.5, 3.0, 7.0, 1024.0, 1e6, 0.1, 1e-6, 1.0 / 3.0] {
        if constant && !matches!(c, 2.0 | 0.5 | 3.0 | 7.0 | 1024.0 | 1e6) {
            continue; // equal differences may become unequal by rounding
        }
        go(p.iter().map(|x| (x.0 * c, x.1 * c)).collect(), 1.0, c, mag, &|| format!("all scores times {c}"));
    }
    w.trace();
    if let Ok(b) = base {
        w.outcome(&(b.t.to_bits(), b.n));
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    (0..factorial(n as u64)).map(|i| perm_at(i, n)).collect()
}

// ---------------------------------------------------------------- several systems

struct A {
    sm: Vec<f64>,
    tm: Vec<f64>,
    /// variation, variance, F, p of systems; the same of topics; residual variation and variance; margin
    v: [f64; 11],
    es: Vec<Vec<f64>>,
}
fn a_of(x: &[Vec<f64>]) -> Result<A, String> {
    let m = x[0].len();
    let r = guard(|| {
        let a = TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), m).map_err(|e| format!("{e:?}"))?;
        let t = TukeyHsdTest::from_tupled_samples(x.iter(), m).map_err(|e| format!("{e:?}"))?;
        let moe = a.margin_of_error(0.05).map_err(|e| format!("{e:?}"))?;
        if (a.n_systems(), a.n_topics(), t.n_systems(), t.n_topics()) != (m, x.len(), m, x.len()) {
            return Err("wrong sizes are reported".into());
        }
        Ok(A {
            sm: a.system_means(),
            tm: a.topic_means(),
            v: [
                a.between_system_variation(),
                a.between_system_variance(),
                a.between_system_f_stat(),
                a.between_system_p_value(),
                a.between_topic_variation(),
                a.between_topic_variance(),
                a.between_topic_f_stat(),
                a.between_topic_p_value(),
                a.residual_variation(),
                a.residual_variance(),
                moe,
            ],
            es: t.effect_sizes(),
        })
    });
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}
const NAMES: [&str; 11] = ["system variation", "system variance", "system F", "system p-value", "topic variation", "topic variance", "topic F", "topic p-value", "residual variation", "residual variance", "margin"];
const DEGREE: [i32; 11] = [2, 2, 0, 0, 2, 2, 0, 0, 2, 2, 1];

/// so, to: b's systems and topics are a's in these orders; c: scale; shift: added to the topics of b.
fn same_a(a: &A, b: &A, so: &[usize], to: &[usize], c: f64, shift: Option<&[f64]>, mag: f64) -> Result<(), String> {
    let m = mag * c;
    let res = b.v[9].max(1e-300);
    let cond = 1.0 + m * m / res * 1e-6;
    let near = |x: f64, y: f64, unit: f64| (x - y).abs() <= TOL * cond * x.abs().max(y.abs()) + 1e-12 * unit;
    let mut bad = vec![];
    if a.sm.len() != b.sm.len() || a.tm.len() != b.tm.len() || b.es.len() != so.len() || b.es.iter().any(|r| r.len() != so.len()) {
        return Err("the sizes change".into());
    }
    let mean_shift = shift.map(|s| s.iter().sum::<f64>() / s.len() as f64).unwrap_or(0.0);
    for (j, &s) in so.iter().enumerate() {
        if !near(a.sm[s] * c + mean_shift, b.sm[j], m) {
            bad.push(format!("mean of system {j} {} instead of {}", b.sm[j], a.sm[s] * c + mean_shift));
        }
        for (k, &s2) in so.iter().enumerate() {
            if !near(a.es[s][s2], b.es[j][k], m / res.sqrt()) {
                bad.push(format!("effect size {j},{k} {} instead of {}", b.es[j][k], a.es[s][s2]));
            }
        }
    }
    for (j, &t) in to.iter().enumerate() {
        let want = a.tm[t] * c + shift.map(|s| s[j]).unwrap_or(0.0);
        if !near(want, b.tm[j], m) {
            bad.push(format!("mean of topic {j} {} instead of {want}", b.tm[j]));
        }
    }
    for i in 0..11 {
        if shift.is_some() && (4..8).contains(&i) {
            continue; // the topics do differ otherwise
        }
        let want = a.v[i] * c.powi(DEGREE[i]);
        let unit = match i {
            2 | 6 => m * m / res,
            3 | 7 => 1.0,
            _ => m.powi(DEGREE[i]),
        };
        if !near(want, b.v[i], unit) {
            bad.push(format!("{} {} instead of {want}", NAMES[i], b.v[i]));
        }
    }
    if bad.is_empty() {
        Ok(())
    } else {
        Err(bad.join(", "))
    }
}

/// Exactly no residual variation (integer scores): refusing or panicking there is C17's and C18's business.
fn no_residual(x: &[Vec<i64>]) -> bool {
    let m = x[0].len();
    let n = x.len() as i64;
    let tot: i64 = x.iter().flatten().sum();
    let cs: Vec<i64> = (0..m).map(|s| x.iter().map(|t| t[s]).sum()).collect();
    x.iter().all(|t| {
        let rs: i64 = t.iter().sum();
        (0..m).all(|s| t[s] * n * m as i64 - rs * n - cs[s] * m as i64 + tot == 0)
    })
}

fn relate_a(x: &[Vec<i64>], full: bool, w: &mut W) {
    let (n, m) = (x.len(), x[0].len());
    if n < 2 || m < 2 || no_residual(x) {
        return;
    }
    let f: Vec<Vec<f64>> = x.iter().map(|t| t.iter().map(|v| *v as f64 / 4.0).collect()).collect();
    let mag = f.iter().flatten().fold(0.0_f64, |a, v| a.max(v.abs()));
    let base = match a_of(&f) {
        Ok(a) => a,
        Err(e) => {
            w.fail("", format!("scores {f:?}: {e}"));
            return;
        }
    };
    let id_s: Vec<usize> = (0..m).collect();
    let id_t: Vec<usize> = (0..n).collect();
    let mut go = |y: Vec<Vec<f64>>, so: &[usize], to: &[usize], c: f64, shift: Option<&[f64]>, mag: f64, what: &dyn Fn() -> String| {
        w.ops(2);
        let r = a_of(&y).and_then(|b| same_a(&base, &b, so, to, c, shift, mag));
        if let Err(e) = r {
            w.fail("", format!("scores {f:?}; {}: {e}", what()));
        }
    };
    let (ps, pt) = if full { (perms(m), perms(n)) } else { (some_perms(m), some_perms(n)) };
    for so in &ps {
        for to in &pt {
            go(to.iter().map(|&t| so.iter().map(|&s| f[t][s]).collect()).collect(), so, to, 1.0, None, mag, &|| format!("systems in order {so:?}, topics in order {to:?}"));
        }
    }
    for (k, g) in [(0_usize, 3.0), (1, -16.0), (2, 1000.0)] {
        let sh: Vec<f64> = (0..n).map(|i| g * ((i * (k + 1) + 1) % 5) as f64).collect();
        go(f.iter().zip(&sh).map(|(t, s)| t.iter().map(|v| v + s).collect()).collect(), &id_s, &id_t, 1.0, Some(&sh), mag.max(g.abs() * 4.0), &|| format!("{sh:?} added to the topics"));
    }
    for c in [2.0, 0.5, 3.0, 1024.0, 1e6, 0.1, 1e-6, 1.0 / 3.0] {
        go(f.iter().map(|t| t.iter().map(|v| v * c).collect()).collect(), &id_s, &id_t, c, None, mag, &|| format!("all scores times {c}"));
    }
    w.trace();
    w.outcome(&(base.v[2].to_bits(), n, m));
}

/// Reversal, rotation, and every swap of neighbours.
fn some_perms(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![(0..n).rev().collect::<Vec<_>>(), (0..n).map(|i| (i + 1) % n).collect(), (0..n).map(|i| (i * 2) % n + (i * 2 >= n && n % 2 == 0) as usize).collect()];
    for i in 0..n.saturating_sub(1) {
        let mut p: Vec<usize> = (0..n).collect();
        p.swap(i, i + 1);
        v.push(p);
    }
    v.retain(|p| {
        let mut q = p.clone();
        q.sort_unstable();
        q == (0..n).collect::<Vec<_>>()
    });
    v
}

// ---------------------------------------------------------------- randomised tests, exact distributions

/// Expected p-value over all draws; None if the draws cannot be enumerated.
fn boot_mean(p: &[(f64, f64)], w: &mut W) -> Result<Option<f64>, String> {
    let tester = BootstrapTester::new().with_n_resamples(1).with_random_state(4);
    let mut mean = 0.0;
    let mut err = None;
    let t = explore(&[], 200_000, || tester.test(p.iter().copied()), |wt, r, _| match r {
        Ok(r) => mean += wt * r.p_value(),
        Err(e) => err = Some(format!("{e:?}")),
    });
    w.ops(t.leaves);
    w.add("generator_leaves", t.leaves);
    match err {
        Some(e) => Err(e),
        None if t.raw || t.too_many || t.diverged => Ok(None),
        None => Ok(Some(mean)),
    }
}

fn relate_boot(a: &[i64], all: bool, w: &mut W) {
    let n = a.len();
    let s = 60 * (n * n) as i64;
    let base: Vec<(f64, f64)> = a.iter().enumerate().map(|(j, x)| ((x * s + j as i64 * 5) as f64, (j as i64 * 5) as f64)).collect();
    let e0 = match boot_mean(&base, w) {
        Ok(Some(e)) => e,
        Ok(None) => {
            w.add("executions_not_enumerable", 1);
            return;
        }
        Err(e) => {
            w.fail("", format!("pairs {base:?}: {e}"));
            return;
        }
    };
    let ex = bootstrap_exact(a);
    let slack = (ex.weak - ex.strict).max(0.0);
    let mut go = |q: Vec<(f64, f64)>, exact: bool, what: &dyn Fn() -> String| match boot_mean(&q, w) {
        Ok(Some(e)) => {
            let tol = 1e-9 + if exact { 0.0 } else { slack };
            w.check((e - e0).abs() <= tol, || format!("pairs {base:?}; {}: the p-value is {e} on average over all draws instead of {e0}", what()));
        }
        Ok(None) => w.add("executions_not_enumerable", 1),
        Err(e) => w.fail("", format!("pairs {base:?}; {}: {e}", what())),
    };
    let ps = if all { perms(n) } else { some_perms(n) };
    // Resamples whose t equals the observed one only up to rounding may fall either way
    // whenever the arithmetic on them changes; sums of these scores are exact in any order.
    for o in ps {
        go(o.iter().map(|&i| base[i]).collect(), false, &|| format!("topics in order {o:?}"));
    }
    go(base.iter().map(|x| (x.1, x.0)).collect(), false, &|| "systems swapped".into());
    go(base.iter().enumerate().map(|(i, x)| (x.0 + (i * 7 % 4 * 60) as f64, x.1 + (i * 7 % 4 * 60) as f64)).collect(), true, &|| "constants added to the topics".into());
    for c in [4.0, 0.25] {
        go(base.iter().map(|x| (x.0 * c, x.1 * c)).collect(), true, &|| format!("all scores times {c}"));
    }
    for c in [3.0, 0.1] {
        go(base.iter().map(|x| (x.0 * c, x.1 * c)).collect(), false, &|| format!("all scores times {c}"));
    }
    w.trace();
    w.outcome(&(e0.to_bits(), n));
}

fn tukey_mean(x: &[Vec<f64>], m: usize, limit: u64, w: &mut W) -> Result<Option<Vec<Vec<f64>>>, String> {
    let tester = RandomizedTukeyHsdTester::new(m).with_n_iters(1).with_random_state(4);
    let mut mean = vec![vec![0.0; m]; m];
    let mut err = None;
    let t = explore(&[], limit, || tester.test(x.iter()), |wt, r, _| match r {
        Ok(r) => {
            for (a, b) in mean.iter_mut().zip(r.p_values()) {
                for (a, b) in a.iter_mut().zip(b) {
                    *a += wt * b;
                }
            }
        }
        Err(e) => err = Some(format!("{e:?}")),
    });
    w.ops(t.leaves);
    w.add("generator_leaves", t.leaves);
    match err {
        Some(e) => Err(e),
        None if t.raw || t.too_many || t.diverged => Ok(None),
        None => Ok(Some(mean)),
    }
}

fn relate_tukey(x: &[Vec<i64>], w: &mut W) {
    let (n, m) = (x.len(), x[0].len());
    let f = |c: f64| -> Vec<Vec<f64>> { x.iter().map(|t| t.iter().map(|v| (*v * n as i64) as f64 * c).collect()).collect() };
    let base = f(1.0);
    let limit = 100_000;
    let e0 = match tukey_mean(&base, m, limit, w) {
        Ok(Some(e)) => e,
        Ok(None) => {
            w.add("executions_not_enumerable", 1);
            return;
        }
        Err(e) => {
            w.fail("", format!("scores {base:?}: {e}"));
            return;
        }
    };
    let ties = tukey_exact(x);
    let id: Vec<usize> = (0..m).collect();
    let mut go = |y: Vec<Vec<f64>>, so: &[usize], exact: bool, what: &dyn Fn() -> String| match tukey_mean(&y, m, limit, w) {
        Ok(Some(e)) => {
            for i in 0..m {
                for j in 0..m {
                    let (st, wk) = ties[so[i]][so[j]];
                    let tol = 1e-9 + if exact { 0.0 } else { wk - st };
                    let want = e0[so[i]][so[j]];
                    w.check((e[i][j] - want).abs() <= tol, || format!("scores {base:?}; {}: the p-value of systems {i},{j} is {} on average over all draws instead of {want}", what(), e[i][j]));
                }
            }
        }
        Ok(None) => w.add("executions_not_enumerable", 1),
        Err(e) => w.fail("", format!("scores {base:?}; {}: {e}", what())),
    };
    for so in perms(m) {
        go(base.iter().map(|t| so.iter().map(|&s| t[s]).collect()).collect(), &so, true, &|| format!("systems in order {so:?}"));
    }
    for to in perms(n) {
        go(to.iter().map(|&t| base[t].clone()).collect(), &id, true, &|| format!("topics in order {to:?}"));
    }
    go(base.iter().enumerate().map(|(i, t)| t.iter().map(|v| v + ((i * 5 + 2) % 7 * n) as f64).collect()).collect(), &id, true, &|| "constants added to the topics".into());
    for (c, exact) in [(4.0, true), (0.25, true), (3.0, true), (0.1, false)] {
        go(f(c), &id, exact, &|| format!("all scores times {c}"));
    }
    w.trace();
    w.outcome(&(e0[0][m - 1].to_bits(), n, m));
}

// ---------------------------------------------------------------- C23

pub fn c23(cx: &mut Cx) {
    cx.rule = "state = a distinct data set; the real tests run on it and on all its reorderings, swaps, shifts and scalings, and the reported numbers must be related as stated; for the randomised tests, the expected p-values over every sequence of draws".into();
    let th = cx.thorough;
    let maxn = if th { 7 } else { 6 };
    let vals = [0.0, 1.0, -2.0, 0.5, 4.0];
    let pt: Vec<Vec<Vec<usize>>> = (0..=maxn).map(perms).collect();
    let pt = &pt;
    cx.family("paired t-test: all difference vectors, all topic orders", seq_count(5, 1, maxn), |i, w| {
        let v = seq_at(i, 5, 1, maxn);
        let p: Vec<(f64, f64)> = v.iter().enumerate().map(|(j, &c)| (vals[c as usize] + j as f64 * 0.25, j as f64 * 0.25)).collect();
        w.at(|| format!("pairs {p:?}"));
        w.state(&("t", &v));
        relate_t(&p, &pt[v.len()], w);
        w.sample(|| format!("{p:?} in all orders"));
    });
    let maxp = if th { 5 } else { 4 };
    cx.family("paired t-test: all lists of pairs over four scores", seq_count(16, 2, maxp), |i, w| {
        let sc = [0.0, 0.5, 1.0, -0.25];
        let v = seq_at(i, 16, 2, maxp);
        let p: Vec<(f64, f64)> = v.iter().map(|&c| (sc[(c / 4) as usize], sc[(c % 4) as usize])).collect();
        w.at(|| format!("pairs {p:?}"));
        w.state(&("pairs", &v));
        relate_t(&p, &pt[v.len()], w);
    });
    let shapes = 10_u64;
    let top = if th { 1000 } else { 300 };
    cx.family("paired t-test: larger sizes", top * shapes, |i, w| {
        let mut r = Radix(i);
        let shape = r.take(shapes);
        let n = r.take(top) as usize + 6;
        let p: Vec<(f64, f64)> = (0..n)
            .map(|j| match shape {
                0 => ((j % 3) as f64, 1.0),
                1 => ((j == 0) as u64 as f64, 0.0),
                2 => ((j == n - 1) as u64 as f64, 0.0),
                3 => ((j * j % 17) as f64 / 16.0, (j * 5 % 13) as f64 / 16.0),
                4 => (j as f64, 0.0),
                5 => (1.0, ((j + 1) as f64).recip()),
                6 => ((j % 2) as f64 * 2.0 - 1.0, 0.0),
                7 => (if j * 2 < n { 0.3 } else { 0.1 }, 0.2),
                8 => ((n - j) as f64 * 0.1, (j * 3 % 7) as f64 * 0.1),
                _ => (0.5 + (j * 29 % 31) as f64 * 1e-3, 0.5),
            })
            .collect();
        w.at(|| format!("{n} pairs of shape {shape}"));
        w.state(&("tn", n, shape));
        relate_t(&p, &some_perms(n), w);
    });
    let mut spaces: Vec<(usize, usize, u64, bool)> =
        vec![(2, 2, 5, true), (3, 2, 4, true), (2, 3, 4, true), (3, 3, 3, true), (4, 2, 3, true), (2, 4, 3, true), (4, 3, 2, true), (3, 4, 2, true), (5, 2, 3, true), (2, 5, 3, false), (4, 4, 2, false)];
    if th {
        spaces.extend([(3, 3, 4, true), (4, 2, 5, true), (2, 4, 5, true), (5, 2, 4, true), (4, 3, 3, false), (3, 4, 3, false)]);
    }
    for (n, m, k, full) in spaces {
        let total = k.pow((n * m) as u32);
        cx.family(&format!("ANOVA and Tukey HSD: all matrices of {n} topics x {m} systems over {k} values"), total, |i, w| {
            let mut r = Radix(i);
            let x: Vec<Vec<i64>> = (0..n).map(|_| r.vec(k, m).iter().map(|&c| [0_i64, 1, 4, -3, 9][c as usize]).collect()).collect();
            w.at(|| format!("scores {x:?} / 4"));
            w.state(&("a", n, m, i));
            relate_a(&x, full, w);
        });
    }
    let tops: Vec<(usize, usize)> = (2..=if th { 100 } else { 40 }).flat_map(|n| [(n, 2), (n, 3), (n, 5), (2, n), (5, n)]).collect();
    let tops = &tops;
    cx.family("ANOVA and Tukey HSD: larger sizes", tops.len() as u64 * 6, |i, w| {
        let mut r = Radix(i);
        let &(n, m) = r.pick(tops);
        let shape = r.take(6) as i64;
        let x: Vec<Vec<i64>> = (0..n as i64).map(|t| (0..m as i64).map(|s| match shape {
            0 => (t * 7 + s * 11) % 13,
            1 => (t == 0 && s == 0) as i64,
            2 => (t == n as i64 - 1 && s == m as i64 - 1) as i64 * 5 + t + s,
            3 => t * s % 5 - s,
            4 => (t * t + 3 * s * t + s) % 17,
            _ => 100 * t + (s * 5 + t * 3) % 4,
        }).collect()).collect();
        w.at(|| format!("scores {x:?} / 4"));
        w.state(&("an", n, m, shape));
        relate_a(&x, false, w);
    });
    // Randomised tests.
    let bv = [-2_i64, 0, 1, 3];
    let bn = 5;
    cx.family("bootstrap: all difference vectors, exact expectations", seq_count(4, 2, bn), |i, w| {
        let a: Vec<i64> = seq_at(i, 4, 2, bn).iter().map(|&c| bv[c as usize]).collect();
        if a.iter().any(|x| *x != a[0]) && a.windows(2).all(|p| p[0] <= p[1]) {
            w.at(|| format!("differences {a:?}"));
            w.state(&("b", &a));
            relate_boot(&a, th || a.len() < 5, w);
        }
    });
    let ts: Vec<(usize, usize, u64)> = if th { vec![(2, 1, 5), (2, 2, 5), (2, 3, 5), (3, 1, 5), (3, 2, 4), (4, 1, 5), (2, 4, 4), (3, 3, 2), (4, 2, 2), (5, 1, 3)] } else { vec![(2, 1, 5), (2, 2, 5), (2, 3, 4), (3, 1, 5), (3, 2, 3), (4, 1, 4), (2, 4, 3), (3, 3, 2)] };
    for (m, n, k) in ts {
        cx.family(&format!("randomized Tukey HSD: {n} topics x {m} systems over {k} values, exact expectations"), k.pow((n * m) as u32), |i, w| {
            let mut r = Radix(i);
            let x: Vec<Vec<i64>> = (0..n).map(|_| r.vec(k, m).iter().map(|&c| [0_i64, 1, 3, -2, 7][c as usize]).collect()).collect();
            w.at(|| format!("scores {x:?} times {n}"));
            w.state(&("rt", &x));
            relate_tukey(&x, w);
        });
    }
    // Larger data: the real generator, so only up to its noise.
    let reps = 20_000;
    let tol = |p: f64| 8.0 * (2.0 * (p * (1.0 - p)).max(1e-3) / reps as f64).sqrt();
    cx.family("randomised tests: larger data, seeded", 2 * 12 * 6, |i, w| {
        let mut r = Radix(i);
        let kind = r.take(2);
        let n = r.take(12) as usize + 5;
        let shape = r.take(6) as usize;
        w.state(&("seeded", kind, n, shape));
        let m = 3;
        // Irrational-looking scores: no ties.
        let x: Vec<Vec<f64>> = (0..n).map(|t| (0..m).map(|s| ((t * 37 + s * 101 + shape * 7) as f64).sqrt().fract() + s as f64 * 0.06 * shape as f64).collect()).collect();
        w.at(|| format!("test {kind}, {n} topics, shape {shape}: {x:?}"));
        let run = |y: &[Vec<f64>], st: u64| -> Vec<Vec<f64>> {
            if kind == 0 {
                vec![vec![BootstrapTester::new().with_n_resamples(reps).with_random_state(st).test(y.iter().map(|t| (t[0], t[1]))).map(|t| t.p_value()).unwrap_or(f64::NAN)]]
            } else {
                RandomizedTukeyHsdTester::new(m).with_n_iters(reps).with_random_state(st).test(y.iter()).map(|t| t.p_values()).unwrap_or_default()
            }
        };
        let base = run(&x, 77);
        let so: Vec<usize> = if kind == 0 { vec![1, 0, 2] } else { vec![2, 0, 1] };
        let vars: [(&str, Vec<Vec<f64>>, bool); 5] = [
            ("topics reversed", x.iter().rev().cloned().collect(), false),
            ("topics rotated", x.iter().cycle().skip(2).take(n).cloned().collect(), false),
            ("systems permuted", x.iter().map(|t| so.iter().map(|&s| t[s]).collect()).collect(), true),
            ("constants added to the topics", x.iter().enumerate().map(|(i, t)| t.iter().map(|v| v + (i * 3 % 5) as f64).collect()).collect(), false),
            ("all scores times 0.013", x.iter().map(|t| t.iter().map(|v| v * 0.013).collect()).collect(), false),
        ];
        for (what, y, perm) in vars {
            let b = run(&y, 78);
            w.op();
            for (i, row) in b.iter().enumerate() {
                for (j, p) in row.iter().enumerate() {
                    let want = if kind == 1 && perm { base[so[i]][so[j]] } else { base[i][j] };
                    w.check((p - want).abs() <= tol(want.max(*p).min(1.0)), || format!("{what}: p-value {i},{j} is {p} from {reps} repetitions instead of about {want}"));
                }
            }
        }
        w.trace();
    });
    cx.assume("equality is up to rounding (1e-9 relative, more where the variation is tiny against the scores); where observed and resampled statistics are equal, rounding may decide either way for reordered or scaled bootstrap inputs; inputs without any residual variation are left to C17, C18 and C24");
    cx.bound("t-test: all difference vectors up to length 6 (7) in every topic order, all lists of up to 4 (5) pairs over four scores, ten shapes up to 305 (1005) topics; ANOVA and Tukey HSD: all matrices of the listed shapes under every topic and system order, larger shapes up to 40 (100); bootstrap and randomized Tukey HSD: exact expectations over every sequence of draws for small data, 20000 repetitions (8 standard deviations) for 5-16 topics");
}
