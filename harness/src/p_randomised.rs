//! C14 (bootstrap), C15 (randomized Tukey HSD) and C16 (random states).
use crate::common::*;
use crate::rngx::*;
use elinor::statistical_tests::bootstrap_test::BootstrapTester;
use elinor::statistical_tests::randomized_tukey_hsd_test::RandomizedTukeyHsdTester;
use elinor::statistical_tests::*;
use elinor::ElinorError;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- exact distributions

/// What resamples of integer differences can do against the observed statistic, exactly.
pub struct Exact {
    /// Weight of resamples that certainly count, and that may count (ties only equal as ratios, degenerate ones).
    pub strict: f64,
    pub weak: f64,
    /// Weight of the resamples without variance.
    pub flat: f64,
}

/// `a`: integer differences. All n^n resamples, as multisets with multinomial weights.
pub fn bootstrap_exact(a: &[i64]) -> Exact {
    let n = a.len();
    let s: i64 = a.iter().sum();
    let c: Vec<i64> = a.iter().map(|x| x * n as i64 - s).collect(); // n times the shifted values
    // t^2/(n-1)*... compare S^2/Q with S = sum, Q = n*sum of squares - S^2 (all over the same n).
    let obs_s = (s as i128) * n as i128; // sum of n*a
    let obs_q: i128 = n as i128 * a.iter().map(|x| (*x as i128 * n as i128).pow(2)).sum::<i128>() - obs_s * obs_s;
    let mut fact = vec![1.0_f64; n + 1];
    for i in 1..=n {
        fact[i] = fact[i - 1] * i as f64;
    }
    let total = (n as f64).powi(n as i32);
    let (mut strict, mut weak, mut flat) = (0.0, 0.0, 0.0);
    fn rec(c: &[i64], i: usize, left: usize, s: i128, q2: i128, w: f64, fact: &[f64], f: &mut dyn FnMut(i128, i128, f64)) {
        if i + 1 == c.len() {
            let k = left as i128;
            let x = c[i] as i128;
            f(s + k * x, q2 + k * x * x, w / fact[left]);
            return;
        }
        for k in 0..=left {
            let x = c[i] as i128;
            rec(c, i + 1, left - k, s + k as i128 * x, q2 + k as i128 * x * x, w / fact[k], fact, f);
        }
    }
    rec(&c, 0, n, 0, 0, fact[n] / total, &fact, &mut |rs, rq2, w| {
        let rq = n as i128 * rq2 - rs * rs;
        if rq == 0 {
            flat += w;
        }
        if obs_s == 0 {
            // t = 0: every proper resample counts, a degenerate one may.
            weak += w;
            if rq != 0 {
                strict += w;
            }
            return;
        }
        if rq == 0 {
            return;
        }
        let (l, r) = (rs * rs * obs_q, obs_s * obs_s * rq);
        if l > r || (rs.abs() == obs_s.abs() && rq == obs_q) {
            strict += w;
            weak += w;
        } else if l == r {
            weak += w;
        }
    });
    Exact { strict, weak, flat }
}

/// `n0` differences of `lo` and `n1` of `hi`: how many of the larger ones a resample holds is
/// binomial and decides everything, so that any size can be compared.
pub fn bootstrap_two(n0: usize, n1: usize, lo: i64, hi: i64) -> Exact {
    let n = (n0 + n1) as i128;
    let s = n0 as i128 * lo as i128 + n1 as i128 * hi as i128;
    let (cl, ch) = (lo as i128 * n - s, hi as i128 * n - s);
    // Common factors would overflow the products below.
    let g = {
        let (mut a, mut b) = (cl.abs(), ch.abs());
        while b != 0 {
            (a, b) = (b, a % b);
        }
        a.max(1)
    };
    let (cl, ch) = (cl / g, ch / g);
    let q_of = |a: i128, b: i128| n0 as i128 * n1 as i128 * (a - b) * (a - b);
    let (obs_s, obs_q) = (s, q_of(lo as i128, hi as i128));
    let lnf: Vec<f64> = (0..=n as usize).scan(0.0, |a, i| { if i > 0 { *a += (i as f64).ln(); } Some(*a) }).collect();
    let (pl, ph) = ((n0 as f64 / n as f64).ln(), (n1 as f64 / n as f64).ln());
    let (mut strict, mut weak, mut flat) = (0.0, 0.0, 0.0);
    for k in 0..=n {
        let wt = (lnf[n as usize] - lnf[k as usize] - lnf[(n - k) as usize] + k as f64 * ph + (n - k) as f64 * pl).exp();
        let rs = k * ch + (n - k) * cl;
        let rq = k * (n - k) * (ch - cl) * (ch - cl);
        if rq == 0 {
            flat += wt;
            if obs_s == 0 {
                weak += wt;
            }
            continue;
        }
        // Both t are sums over roots of q: here in floating point, ties within rounding only weakly.
        let (l, r) = ((rs as f64).powi(2) / rq as f64, (obs_s as f64).powi(2) / obs_q as f64);
        if l > r * (1.0 + 1e-9) {
            strict += wt;
        }
        if l >= r * (1.0 - 1e-9) {
            weak += wt;
        }
    }
    Exact { strict, weak, flat }
}

/// All permutations within topics; integer scores. For each pair (i, j): (strict, weak) proportions.
pub fn tukey_exact(x: &[Vec<i64>]) -> Vec<Vec<(f64, f64)>> {
    let (n, m) = (x.len(), x[0].len());
    // Distribution of column-sum vectors up to common order, by dynamic programming.
    let perms: Vec<Vec<usize>> = (0..factorial(m as u64)).map(|i| perm_at(i, m)).collect();
    let mut dist: BTreeMap<Vec<i64>, f64> = BTreeMap::new();
    dist.insert(vec![0; m], 1.0);
    for t in x {
        let mut next = BTreeMap::new();
        for (v, w) in &dist {
            for p in &perms {
                let mut u: Vec<i64> = (0..m).map(|s| v[s] + t[p[s]]).collect();
                u.sort_unstable(); // the range is symmetric, and later topics are permuted uniformly
                *next.entry(u).or_insert(0.0) += w / perms.len() as f64;
            }
        }
        dist = next;
    }
    let sums: Vec<i64> = (0..m).map(|s| x.iter().map(|t| t[s]).sum()).collect();
    let _ = n;
    (0..m)
        .map(|i| {
            (0..m)
                .map(|j| {
                    let d = (sums[i] - sums[j]).abs();
                    let (mut s, mut w) = (0.0, 0.0);
                    for (u, p) in &dist {
                        let r = u[m - 1] - u[0];
                        if r > d {
                            s += p;
                        }
                        if r >= d {
                            w += p;
                        }
                    }
                    (s, w)
                })
                .collect()
        })
        .collect()
}

fn within(got: f64, lo: f64, hi: f64, tol: f64) -> bool {
    got >= lo - tol && got <= hi + tol
}

fn note_tree(t: &Tree, w: &mut W) {
    w.ops(t.leaves);
    w.add("generator_leaves", t.leaves);
    w.add("generator_draws", t.points);
    w.max("max_draws_per_execution", t.max_depth as u64);
    if t.raw {
        w.add("executions_not_enumerable", 1);
    }
}

/// The tree is complete and its probabilities add up.
fn tree_ok(t: &Tree, w: &mut W) -> bool {
    note_tree(t, w);
    if t.raw || t.too_many {
        return false; // other ways of drawing: left to the seeded runs
    }
    if t.diverged {
        w.fail("", "the same random state and draws lead to a different number of draws: the run is not a function of the random state".into());
        return false;
    }
    if (t.total_weight - 1.0).abs() > 1e-9 {
        w.engine_error(format!("leaf probabilities add up to {}", t.total_weight));
        return false;
    }
    true
}

// ---------------------------------------------------------------- C14

/// Integer differences scaled so that every intermediate value (mean, squares, variance) is exact.
fn boot_pairs(a: &[i64]) -> Vec<(f64, f64)> {
    let n = a.len() as i64;
    let s = 60 * n * n;
    a.iter().enumerate().map(|(j, x)| ((x * s + j as i64 * 5) as f64, (j as i64 * 5) as f64)).collect()
}

fn boot_tree(a: &[i64], resamples: usize, w: &mut W) {
    let pairs = boot_pairs(a);
    let n = a.len();
    let ex = bootstrap_exact(a);
    let tester = BootstrapTester::new().with_n_resamples(resamples).with_random_state(5);
    let mut mean = 0.0;
    let mut hist: BTreeMap<u64, f64> = BTreeMap::new();
    let mut bad = None;
    let t = explore(
        &[],
        3_000_000,
        || tester.test(handed(pairs.iter().copied(), (n * 3 + resamples) as u64)),
        |wt, r, _| match r {
            Ok(r) => {
                let p = r.p_value();
                if r.n_topics() != n || r.n_resamples() != resamples || r.random_state() != 5 {
                    bad = Some(format!("reports n_topics {}, n_resamples {}, random_state {} for {n}, {resamples}, 5", r.n_topics(), r.n_resamples(), r.random_state()));
                }
                let k = p * resamples as f64;
                if !((0.0..=1.0).contains(&p) && (k - k.round()).abs() < 1e-9) {
                    bad = Some(format!("p-value {p} is not a multiple of 1/{resamples}"));
                }
                mean += wt * p;
                *hist.entry(k.round() as u64).or_insert(0.0) += wt;
            }
            Err(e) => bad = Some(format!("{e:?}")),
        },
    );
    w.trace();
    if let Some(b) = bad {
        w.fail("", b);
    }
    if !tree_ok(&t, w) {
        return;
    }
    w.outcome(&(mean.to_bits(), n));
    let (p, q) = (ex.strict, ex.weak);
    w.check(within(mean, p, q, 1e-9), || format!("differences {a:?}: over all {} equally likely sequences of draws the p-value is {mean} on average; {p} (to {q}) of the {n}^{n} resamples qualify", t.leaves));
    // Resamples are independent: the number that qualify is binomial. The success probability
    // is the one observed (it lies between the strict and the weak one).
    let m = resamples as u64;
    for (k, pr) in &hist {
        let want = binom(m, *k) * mean.powi(*k as i32) * (1.0 - mean).powi((m - k) as i32);
        w.check((pr - want).abs() < 1e-9, || format!("differences {a:?}: {k} of {m} resamples qualify with probability {pr}; independent resamples would give {want}"));
    }
}

fn binom(n: u64, k: u64) -> f64 {
    (1..=k).map(|i| (n - k + i) as f64 / i as f64).product()
}

fn not_constant(a: &[i64]) -> bool {
    a.iter().any(|x| *x != a[0])
}

pub fn c14(cx: &mut Cx) {
    cx.rule = "state = a distinct list of differences and number of resamples; every sequence of draws of the generator is executed on the real test, and the exact probability of each p-value is compared with the enumeration of all n^n resamples".into();
    let th = cx.thorough;
    let vals = [-2_i64, 0, 1, 3, -1];
    // n = 2..4 (5): all vectors; one resample.
    let hi = 5;
    cx.family("all difference vectors, one resample", seq_count(5, 2, hi), |i, w| {
        let a: Vec<i64> = seq_at(i, 5, 2, hi).iter().map(|&c| vals[c as usize]).collect();
        if not_constant(&a) {
            w.at(|| format!("differences {a:?}, one resample"));
            w.state(&(&a, 1));
            boot_tree(&a, 1, w);
            w.sample(|| format!("{a:?}"));
        }
    });
    // Larger n: sorted vectors (the order is covered above).
    let mut big: Vec<Vec<i64>> = vec![];
    for n in if th { vec![6_usize, 7] } else { vec![6] } {
        for i in 0..5_u64.pow(n as u32) {
            let v = Radix(i).vec(5, n as usize);
            if v.windows(2).all(|p| p[0] <= p[1]) {
                big.push(v.iter().map(|&c| [-2_i64, -1, 0, 1, 3][c as usize]).collect());
            }
        }
    }
    big.extend([vec![0, 0, 0, 0, 0, 1], vec![-1, 2, 2, 5, 0, 3], vec![4, 1, 1, 2, 3, 9], vec![1, 0, 0, 0, 0, 0, 0], vec![3, 1, 4, 1, 5, 9, 2], vec![-1, 2, 0, 4, -3, 1, 1]]);
    let big = &big;
    cx.family("sorted difference vectors, one resample", big.len() as u64, |i, w| {
        let a = &big[i as usize];
        if not_constant(a) {
            w.at(|| format!("differences {a:?}, one resample"));
            w.state(&(a, 1));
            boot_tree(a, 1, w);
        }
    });
    // Two and three resamples: independence, and every draw used once.
    let multi: Vec<(usize, usize)> = if th { vec![(2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 8), (3, 2), (3, 3), (3, 4), (4, 2)] } else { vec![(2, 2), (2, 3), (2, 4), (2, 5), (3, 2), (3, 3), (4, 2)] };
    for (n, m) in multi {
        cx.family(&format!("all vectors of {n}, {m} resamples"), 5_u64.pow(n as u32), |i, w| {
            let a: Vec<i64> = Radix(i).vec(5, n).iter().map(|&c| vals[c as usize]).collect();
            if not_constant(&a) && (n < 4 || i % 25 == 7) {
                w.at(|| format!("differences {a:?}, {m} resamples"));
                w.state(&(&a, m));
                boot_tree(&a, m, w);
            }
        });
    }
    // Seeded runs against the exact probability for larger n (a supplement, with the real generator).
    let ns: Vec<usize> = vec![3, 5, 7, 8, 9, 10];
    let seeds = if th { 40 } else { 6 };
    cx.family("seeded runs against exact proportions", ns.len() as u64 * 6 * seeds, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(&ns);
        let shape = r.take(6);
        let seed = r.take(seeds);
        let a: Vec<i64> = (0..n as i64)
            .map(|j| match shape {
                0 => j - 1,
                1 => (j * j) % 7 - 1,
                2 => (j % 2) * 2 - 1 + (j % 3),
                3 => 10 + (j * 3) % 5,
                4 => (j == 0) as i64 * 5 - 1,
                _ => j * j * j % 11 - 5,
            })
            .collect();
        if !not_constant(&a) {
            return;
        }
        let ex = bootstrap_exact(&a);
        let reps = 20000;
        w.at(|| format!("differences {a:?}, random state {seed}, {reps} resamples"));
        w.op();
        w.state(&(&a, seed, "seeded"));
        match BootstrapTester::new().with_n_resamples(reps).with_random_state(seed * 0x1234_5678_9abc + 7).test(boot_pairs(&a)) {
            Ok(t) => {
                let tol = |p: f64| 7.0 * ((p * (1.0 - p)).max(0.0) / reps as f64).sqrt() + 1e-3;
                w.check(within(t.p_value(), ex.strict - tol(ex.strict), ex.weak + tol(ex.weak), 0.0), || format!("differences {a:?}: p-value {} from {reps} resamples, the exact proportion is {} to {}", t.p_value(), ex.strict, ex.weak));
            }
            Err(e) => w.fail("", format!("{e:?}")),
        }
        w.trace();
    });
    // Two different differences only: the same for any number of topics.
    let sizes: Vec<usize> = if th { (11..=300).chain([499, 500, 501, 512, 513, 999, 1000, 1001, 1024, 1025, 2000, 5000]).collect() } else { vec![11, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 249, 250, 255, 256, 257, 300, 500, 1000, 1025] };
    let sizes = &sizes;
    cx.family("seeded runs of two-valued differences against exact proportions", sizes.len() as u64 * 6, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(sizes);
        let (share, lo, hi) = [(2, -3_i64, 4_i64), (2, -1, 1), (3, -2, 3), (n.min(7), 0, 1), (5, -1, 5), (2, -20, 23)][r.take(6) as usize];
        let n1 = (n / share).max(1);
        let n0 = n - n1;
        let ex = bootstrap_two(n0, n1, lo, hi);
        // Resamples without variance play a role: only here the listed finding can show.
        let odd = ex.flat > 1e-4;
        if n <= 12 {
            // The two ways of computing the proportion agree.
            let a: Vec<i64> = (0..n).map(|j| if j < n1 { hi } else { lo }).collect();
            let e2 = bootstrap_exact(&a);
            if e2.strict < ex.strict - 1e-9 || e2.strict > ex.weak + 1e-9 {
                w.engine_error(format!("proportions {} {} and {} {}", ex.strict, ex.weak, e2.strict, e2.weak));
            }
        }
        // The larger ones in front, at the end or spread.
        let pairs: Vec<(f64, f64)> = (0..n)
            .map(|j| {
                let up = match i % 3 {
                    0 => j < n1,
                    1 => j >= n0,
                    _ => (j + 1) * n1 / n > j * n1 / n,
                };
                let b = (j % 5) as f64;
                (b + if up { hi } else { lo } as f64, b)
            })
            .collect();
        let reps = 20000;
        w.at(|| format!("{n1} differences of {hi} and {n0} of {lo}, {reps} resamples; exact proportion {} to {}", ex.strict, ex.weak));
        w.op();
        w.state(&(n0, n1, lo, hi));
        match BootstrapTester::new().with_n_resamples(reps).with_random_state(i * 77 + 5).test(pairs) {
            Ok(t) => {
                let tol = |p: f64| 7.0 * ((p * (1.0 - p)).max(0.0) / reps as f64).sqrt() + 1e-3;
                w.check(t.n_topics() == n && t.n_resamples() == reps, || format!("reports {} topics, {} resamples", t.n_topics(), t.n_resamples()));
                let top = ex.weak + ex.flat;
                let key = if within(t.p_value(), ex.strict - tol(ex.strict), top + tol(top), 0.0) { "flat-resample-rounding" } else { "" };
                if !within(t.p_value(), ex.strict - tol(ex.strict), ex.weak + tol(ex.weak), 0.0) {
                    w.fail(if odd { key } else { "" }, format!("{n1} differences of {hi} and {n0} of {lo}: p-value {} from {reps} resamples, the exact proportion is {} to {}; a proportion of {} has no variance", t.p_value(), ex.strict, ex.weak, ex.flat));
                }
                w.outcome(&t.p_value().to_bits());
            }
            Err(e) => w.fail("", format!("{e:?}")),
        }
        w.trace();
    });
    // Refusals.
    cx.family("refused inputs", 3 * 14 * 12 + 2, |i, w| {
        w.op();
        w.state(&("bad", i));
        let tester = BootstrapTester::new().with_n_resamples(3).with_random_state(1);
        if i < 2 {
            let p: Vec<(f64, f64)> = vec![(1.0, 0.5); i as usize];
            w.at(|| format!("pairs {p:?}"));
            let r = tester.test(p).map(|t| t.p_value());
            w.check(matches!(r, Err(ElinorError::InvalidArgument(_))), || format!("{i} pairs: {r:?}, expected an invalid argument"));
        } else {
            let mut r = Radix(i - 2);
            let c = *r.pick(&[0.0, 1.0, -1.0, 0.5, 3.25, 0.1, 0.2, 0.3, -0.7, 1.0 / 3.0, 0.01, 123.456, 1e-3, 64.0]);
            let form = r.take(3);
            let n = r.take(12) as usize + 2;
            let p: Vec<(f64, f64)> = (0..n).map(|j| if form == 0 { (c, 0.0) } else if form == 1 { (0.0, c) } else { (j as f64, j as f64) }).collect();
            w.at(|| format!("pairs {p:?}"));
            let r = tester.test(p).map(|t| t.p_value());
            let exact = form == 2 || (c * 1024.0_f64).fract() == 0.0;
            let key = if !exact && r.is_ok() { "equal-differences-rounding" } else { "" };
            if !matches!(r, Err(ElinorError::Uncomputable(_))) {
                w.fail(key, format!("equal differences {c} x {n} (form {form}): {r:?}, expected an uncomputable error"));
            }
        }
        w.trace();
    });
    cx.assume("the generator behind a seed is an arbitrary source of independent uniform draws (rand's StdRng is trusted for that); when t is zero a resample without variance may count or not; resamples whose t equals the observed one only as a ratio of different sums may count or not");
    cx.bound("one resample: all difference vectors of length 2-5 over five values, all sorted ones of length 6 (7) and three of length 7; 2-5 (8) resamples for n = 2, 3 and 4: every draw sequence executed. Supplement: seeded runs of 20000 resamples for n up to 10, and two-valued ones up to 1025 (5000), against the exact proportion, 7 standard deviations");
}

// ---------------------------------------------------------------- C15

/// scale 1: exact means (scores are multiples of n); 0.1: rounded ones.
fn tukey_tree(x: &[Vec<i64>], scale: f64, iters: usize, limit: u64, w: &mut W) {
    let (n, m) = (x.len(), x[0].len());
    let samples: Vec<Vec<f64>> = x.iter().map(|t| t.iter().map(|v| if scale == 1.0 { (*v * n as i64) as f64 } else { *v as f64 * scale }).collect()).collect();
    let ex = tukey_exact(x);
    let tester = RandomizedTukeyHsdTester::new(m).with_n_iters(iters).with_random_state(9);
    let mut mean = vec![vec![0.0; m]; m];
    let mut hist: BTreeMap<(usize, usize, u64), f64> = BTreeMap::new();
    let mut bad = None;
    let t = explore(
        &[],
        limit,
        || tester.test(handed(samples.iter(), (n * 3 + m + iters) as u64)),
        |wt, r, _| match r {
            Ok(r) => {
                if r.n_topics() != n || r.n_systems() != m || r.n_iters() != iters || r.random_state() != 9 {
                    bad = Some(format!("reports {} topics, {} systems, {} iterations, state {}", r.n_topics(), r.n_systems(), r.n_iters(), r.random_state()));
                }
                let p = r.p_values();
                if p.len() != m || p.iter().any(|r| r.len() != m) {
                    bad = Some(format!("p-value matrix {p:?} is not {m} x {m}"));
                    return;
                }
                for i in 0..m {
                    for j in 0..m {
                        let k = p[i][j] * iters as f64;
                        if p[i][i] != 1.0 || p[i][j].to_bits() != p[j][i].to_bits() || !(0.0..=1.0).contains(&p[i][j]) || (k - k.round()).abs() > 1e-9 {
                            bad = Some(format!("bad p-value matrix {p:?}"));
                        }
                        mean[i][j] += wt * p[i][j];
                        if iters > 1 && i < j {
                            *hist.entry((i, j, k.round() as u64)).or_insert(0.0) += wt;
                        }
                    }
                }
            }
            Err(e) => bad = Some(format!("{e:?}")),
        },
    );
    w.trace();
    if let Some(b) = bad {
        w.fail("", b);
    }
    if !tree_ok(&t, w) {
        return;
    }
    for i in 0..m {
        for j in 0..i {
            let (s, wk) = ex[i][j];
            let g = mean[i][j];
            w.outcome(&(g.to_bits(), n, m));
            if scale == 1.0 || (g - wk).abs() < 1e-9 {
                w.check((g - wk).abs() < 1e-9, || format!("scores {samples:?}, systems {i} and {j}: the p-value is {g} on average over all {} sequences of draws; {wk} of the ({m}!)^{n} permutations have a range at least as large", t.leaves));
            } else {
                // Known finding: equal differences of rounded means may be missed.
                let key = if within(g, s, wk, 1e-9) { "rounding-ties" } else { "" };
                w.fail(key, format!("scores {samples:?}, systems {i} and {j}: the p-value is {g} on average, the exact proportion is {wk} ({s} without ties)"));
            }
        }
    }
    for ((i, j, k), pr) in &hist {
        let q = mean[*i][*j];
        let want = binom(iters as u64, *k) * q.powi(*k as i32) * (1.0 - q).powi((iters as u64 - k) as i32);
        w.check((pr - want).abs() < 1e-9, || format!("scores {samples:?}, systems {i},{j}: {k} of {iters} iterations qualify with probability {pr}; independent iterations would give {want}"));
    }
}

pub fn c15(cx: &mut Cx) {
    cx.rule = "state = a distinct score matrix and number of iterations; every sequence of draws of the generator is executed on the real test, and the exact probability of each p-value is compared with the enumeration of all (m!)^n permutations".into();
    let th = cx.thorough;
    // (systems, topics, values, iterations)
    let mut spaces: Vec<(usize, usize, Vec<i64>, usize)> = vec![
        (2, 1, vec![0, 1, 3, -2, 7], 1),
        (2, 2, vec![0, 1, 3, -2], 1),
        (2, 3, vec![0, 1, 3], 1),
        (2, 4, vec![0, 1], 1),
        (3, 1, vec![0, 1, 3, -2], 1),
        (3, 2, vec![0, 1, 3], 1),
        (3, 3, vec![0, 1], 1),
        (4, 1, vec![0, 1, 3], 1),
        (2, 2, vec![0, 1, 3], 2),
        (2, 2, vec![0, 1], 3),
        (3, 1, vec![0, 1, 3], 2),
        (3, 2, vec![0, 1], 2),
        (2, 3, vec![0, 1], 2),
        (1, 3, vec![0, 1], 2),
        (5, 1, vec![0, 1], 1),
        (2, 4, vec![0, 1, 3], 1),
        (2, 5, vec![0, 1], 1),
        (2, 3, vec![0, 1, 3], 2),
        (4, 2, vec![0, 1], 1),
        (4, 1, vec![0, 1, 2], 2),
        (5, 1, vec![0, 1, 3], 1),
    ];
    spaces.extend([(3, 3, vec![0, 1, 3], 1), (2, 6, vec![0, 1], 1), (3, 2, vec![0, 1, 3], 2), (4, 2, vec![0, 1, 3], 1), (2, 1, vec![0, 1, 3], 8), (5, 2, vec![0, 1], 1), (6, 1, vec![0, 1, 3], 1)]);
    if th {
        spaces.extend([(3, 4, vec![0, 1], 1), (3, 3, vec![0, 1, 3, -2], 1), (2, 5, vec![0, 1, 3], 1), (4, 3, vec![0, 1], 1), (4, 2, vec![0, 1, 3, -2], 1), (7, 1, vec![0, 1], 1), (3, 5, vec![0, 1], 1), (2, 4, vec![0, 1], 3), (3, 3, vec![0, 1], 2), (2, 2, vec![0, 1, 3, -2], 4)]);
    }
    for (m, n, vals, iters) in &spaces {
        let (m, n, iters) = (*m, *n, *iters);
        let cells = m * n;
        cx.family(&format!("all {n}x{m} matrices over {vals:?}, {iters} iterations"), (vals.len() as u64).pow(cells as u32), |i, w| {
            let v = Radix(i).vec(vals.len() as u64, cells);
            let x: Vec<Vec<i64>> = v.chunks(m).map(|c| c.iter().map(|&c| vals[c as usize]).collect()).collect();
            w.at(|| format!("scores {x:?} (times {n}), {iters} iterations"));
            w.state(&(&x, iters));
            tukey_tree(&x, 1.0, iters, 3_000_000, w);
            w.sample(|| format!("{x:?}"));
        });
    }
    // Selected larger matrices: deeper trees.
    let mut large: Vec<Vec<Vec<i64>>> = vec![
        vec![vec![1, 0, 2], vec![3, 1, 0], vec![2, 2, 1], vec![0, 4, 1], vec![5, 0, 0]],
        vec![vec![3, 1, 0, 2], vec![1, 0, 4, 4], vec![2, 7, 1, 0]],
        (0..12).map(|j| vec![j % 5, (j * 3) % 7]).collect(),
        (0..13).map(|j| vec![(j * j) % 4 + (j == 3) as i64 * 9, 1]).collect(),
        vec![vec![0, 1, 2, 3, 4], vec![4, 0, 0, 1, 1]],
        vec![vec![0, 1, 2, 3, 4, 9]],
    ];
    {
        large.extend([
            vec![vec![1, 0, 2], vec![3, 1, 0], vec![2, 2, 1], vec![0, 4, 1], vec![5, 0, 0], vec![1, 2, 3], vec![0, 0, 1]],
            vec![vec![3, 1, 0, 2], vec![1, 0, 4, 4], vec![2, 7, 1, 0], vec![0, 1, 2, 3]],
            (0..18).map(|j| vec![j % 5, (j * 3) % 7]).collect(),
            vec![vec![0, 1, 2, 3, 4, 9], vec![9, 1, 0, 1, 0, 1]],
            vec![vec![5, 0, 1, 2, 3, 4, 9, 9]],
        ]);
    }
    let large = &large;
    cx.family("larger matrices", large.len() as u64, |i, w| {
        let x = &large[i as usize];
        w.at(|| format!("scores {x:?}"));
        w.state(&(x, "large"));
        tukey_tree(x, 1.0, 1, 3_000_000, w);
    });
    // Scores in tenths: means are rounded, ties must still count.
    for (m, n, k) in [(2, 2, 4_u64), (2, 3, 3), (3, 2, 3), (3, 1, 5)] {
        cx.family(&format!("all {n}x{m} matrices of tenths"), k.pow(m * n), |i, w| {
            let v = Radix(i).vec(k, (m * n) as usize);
            let x: Vec<Vec<i64>> = v.chunks(m as usize).map(|c| c.iter().map(|&c| c as i64).collect()).collect();
            w.at(|| format!("scores {x:?} tenths"));
            w.state(&(&x, "tenths"));
            tukey_tree(&x, 0.1, 1, 1_000_000, w);
        });
    }
    // Seeded runs against exact proportions, larger inputs.
    let seeds = if th { 30 } else { 4 };
    cx.family("seeded runs against exact proportions", 16 * seeds, |i, w| {
        let mut r = Radix(i);
        let shape = r.take(16);
        let seed = r.take(seeds);
        let (n, m) = [(20, 2), (30, 2), (6, 3), (5, 4), (10, 2), (12, 3), (3, 5), (40, 2), (100, 2), (257, 2), (25, 3), (40, 3), (8, 4), (4, 5), (2, 7), (1, 8)][shape as usize];
        let x: Vec<Vec<i64>> = (0..n as i64).map(|t| (0..m as i64).map(|s| (t * t * 3 + s * 5 + t * s) % 7 + (s == 0) as i64).collect()).collect();
        let samples: Vec<Vec<f64>> = x.iter().map(|t| t.iter().map(|v| (v * n as i64) as f64).collect()).collect();
        let iters = 10000;
        let ex = tukey_exact(&x);
        w.at(|| format!("{n} topics, {m} systems, state {seed}"));
        w.state(&(n, m, seed, "seeded"));
        w.op();
        match RandomizedTukeyHsdTester::new(m).with_n_iters(iters).with_random_state(seed * 0x1234_5678_9abc + 3).test(samples.iter()) {
            Ok(t) => {
                for a in 0..m {
                    for b in 0..a {
                        let p = ex[a][b].1;
                        let tol = 7.0 * ((p * (1.0 - p)).max(0.0) / iters as f64).sqrt() + 1e-3;
                        let g = t.p_values()[a][b];
                        w.check((g - p).abs() <= tol, || format!("{n} topics, systems {a} and {b} of {m}: p-value {g} from {iters} iterations, the exact proportion is {p}; scores {x:?}"));
                    }
                }
            }
            Err(e) => w.fail("", format!("{e:?}")),
        }
        w.trace();
    });
    // Refusals: no topics; a wrong length at every position.
    cx.family("refused inputs", 5 * 6 * 4 + 5, |i, w| {
        w.op();
        w.state(&("bad", i));
        if i < 5 {
            w.at(|| format!("no topics, {i} systems"));
            let r = RandomizedTukeyHsdTester::new(i as usize).with_n_iters(2).with_random_state(1).test(Vec::<Vec<f64>>::new()).map(|t| t.p_values());
            w.check(matches!(r, Err(ElinorError::InvalidArgument(_))), || format!("no topics: {r:?}, expected an invalid argument"));
        } else {
            let mut r = Radix(i - 5);
            let m = r.take(5) as usize + 1;
            let n = r.take(6) as usize + 1;
            let len = [0, m - 1, m + 1, 2 * m][r.take(4) as usize];
            for at in 0..n {
                let x: Vec<Vec<f64>> = (0..n).map(|t| vec![t as f64; if t == at { len } else { m }]).collect();
                w.at(|| format!("{m} systems, lengths {:?}", x.iter().map(|t| t.len()).collect::<Vec<_>>()));
                let r = RandomizedTukeyHsdTester::new(m).with_n_iters(2).with_random_state(1).test(x).map(|t| t.p_values());
                if len != m {
                    w.check(matches!(r, Err(ElinorError::InvalidArgument(_))), || format!("topic {at} of {n} has {len} scores for {m} systems: {r:?}, expected an invalid argument"));
                }
            }
        }
        w.trace();
    });
    cx.assume("the generator behind a seed is an arbitrary source of independent uniform draws (rand's StdRng is trusted for that)");
    cx.bound("all matrices: 1-6 topics x 2 systems, 1-3 (5) x 3, 1-2 (3) x 4, 1-2 x 5, 1 x 6 (7) over 2-5 scores with 1-8 iterations, and selected ones up to 3.0e6 draw sequences, every draw sequence executed; all small matrices of tenths; seeded runs up to 257 topics or 8 systems against the exact distribution, 7 standard deviations");
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Opt {
    Reps(usize),
    State(u64),
}

const STATES: [u64; 10] = [0, 1, 2, 42, u32::MAX as u64, 1 << 32, (1 << 32) + 1, i64::MAX as u64, u64::MAX - 1, u64::MAX];

fn boot_data(d: u64) -> Vec<(f64, f64)> {
    match d {
        0 => vec![(0.7, 0.5), (0.3, 0.1), (0.2, 0.9), (0.6, 0.65)],
        1 => (0..30).map(|j| (((j * 37) % 11) as f64 / 10.0 + 0.07, ((j * 53) % 13) as f64 / 12.0)).collect(),
        _ => vec![(1.0, 0.0), (0.0, 1.0), (3.0, 1.0)],
    }
}
fn tukey_data(d: u64) -> Vec<Vec<f64>> {
    match d {
        0 => vec![vec![0.7, 0.5, 0.1], vec![0.3, 0.1, 0.2], vec![0.2, 0.9, 0.3], vec![0.6, 0.65, 0.1]],
        1 => (0..20).map(|j| vec![((j * 37) % 11) as f64 / 10.0 + 0.05, ((j * 53) % 13) as f64 / 12.0, ((j * 29) % 7) as f64 / 6.0]).collect(),
        _ => vec![vec![1.0, 0.0, 0.0], vec![2.0, 1.0, 0.5], vec![3.0, 1.0, 2.0]],
    }
}

type Out = (usize, u64, Vec<u64>);
fn boot_run(t: &BootstrapTester, d: u64) -> Out {
    let r = t.test(boot_data(d)).expect("bootstrap test");
    (r.n_resamples(), r.random_state(), vec![r.p_value().to_bits()])
}
fn tukey_run(t: &RandomizedTukeyHsdTester, d: u64) -> Out {
    let r = t.test(tukey_data(d)).expect("Tukey test");
    (r.n_iters(), r.random_state(), r.p_values().concat().iter().map(|x| x.to_bits()).collect())
}
fn build(kind: u64, opts: &[Opt]) -> Box<dyn Fn(u64) -> Out> {
    if kind == 0 {
        let mut t = BootstrapTester::new();
        for o in opts {
            t = match o {
                Opt::Reps(n) => t.with_n_resamples(*n),
                Opt::State(s) => t.with_random_state(*s),
            };
        }
        Box::new(move |d| boot_run(&t, d))
    } else {
        let mut t = RandomizedTukeyHsdTester::new(3);
        for o in opts {
            t = match o {
                Opt::Reps(n) => t.with_n_iters(*n),
                Opt::State(s) => t.with_random_state(*s),
            };
        }
        Box::new(move |d| tukey_run(&t, d))
    }
}

pub fn c16(cx: &mut Cx) {
    cx.rule = "state = a distinct sequence of option settings and runs; outcomes are compared bit for bit with a fresh run of the reported configuration".into();
    let th = cx.thorough;
    let menu = [Opt::Reps(0), Opt::Reps(1), Opt::Reps(7), Opt::Reps(64), Opt::State(0), Opt::State(1), Opt::State(u64::MAX), Opt::State(1 << 32)];
    let maxl = if th { 6 } else { 5 };
    // All sequences of option settings: last one wins, options are independent, defaults hold.
    cx.family("all option sequences", 2 * seq_count(8, 0, maxl), |i, w| {
        let mut r = Radix(i);
        let kind = r.take(2);
        let opts: Vec<Opt> = seq_at(r.0, 8, 0, maxl).iter().map(|&c| menu[c as usize]).collect();
        w.at(|| format!("test {kind}, options {opts:?}"));
        w.state(&(kind, &opts));
        let reps = opts.iter().rev().find_map(|o| if let Opt::Reps(n) = o { Some((*n).max(1)) } else { None });
        let state = opts.iter().rev().find_map(|o| if let Opt::State(s) = o { Some(*s) } else { None });
        // The default of 10000 repetitions is costly: use the smallest data.
        let d = if reps.is_none() { 2 } else { 0 };
        let run = build(kind, &opts);
        let got = run(d);
        w.ops(3);
        w.check(got.0 == reps.unwrap_or(10000), || format!("reports {} repetitions", got.0));
        if let Some(s) = state {
            w.check(got.1 == s, || format!("reports random state {} instead of {s}", got.1));
        }
        let fresh = build(kind, &[Opt::Reps(got.0), Opt::State(got.1)])(d);
        w.check(fresh == got, || format!("a fresh run of the reported configuration gives {fresh:?} instead of {got:?}"));
        let fresh2 = build(kind, &[Opt::State(got.1), Opt::Reps(got.0)])(d);
        w.check(fresh2 == got, || format!("the options in the other order give {fresh2:?} instead of {got:?}"));
        if state.is_some() {
            let again = run(d);
            w.check(again == got, || format!("the same tester again gives {again:?} instead of {got:?}"));
        }
        w.outcome(&got);
        w.trace();
    });
    // All short histories of runs over testers with states, data sets and unseeded runs.
    let acts = 10_u64;
    let maxh = if th { 7 } else { 6 };
    cx.family("all histories of runs", seq_count(acts, 2, maxh), |i, w| {
        let h = seq_at(i, acts, 2, maxh);
        w.at(|| format!("history of runs {h:?}"));
        w.state(&("h", &h));
        let mut seen: BTreeMap<u64, Out> = BTreeMap::new();
        for &a in &h {
            // 0-3: bootstrap (state 3 or 4, data 0 or 2); 4-7: Tukey; 8, 9: unseeded runs in between.
            let (kind, opts, d): (u64, Vec<Opt>, u64) = match a {
                0..=7 => (a / 4, vec![Opt::Reps(5), Opt::State(3 + a % 2)], if a / 2 % 2 == 0 { 0 } else { 2 }),
                _ => (a - 8, vec![Opt::Reps(3)], 0),
            };
            let o = build(kind, &opts)(d);
            w.op();
            if a < 8 {
                if let Some(p) = seen.get(&a) {
                    w.check(*p == o, || format!("run {a} gives {o:?} after {h:?}, but {p:?} before"));
                }
                seen.insert(a, o);
            }
        }
        for (a, o) in &seen {
            let again = build(a / 4, &[Opt::Reps(5), Opt::State(3 + a % 2)])(if a / 2 % 2 == 0 { 0 } else { 2 });
            w.check(*o == again, || format!("run {a} of the history {h:?} gave {o:?}, alone {again:?}"));
        }
        w.trace();
    });
    // Random states of every size; prefix consistency is not required, repetition is.
    let reps = [1_usize, 2, 3, 10, 100, 1000, 5000];
    cx.family("random states x repetitions x data", 2 * (STATES.len() as u64 + 64) * reps.len() as u64 * 2, |i, w| {
        let mut r = Radix(i);
        let kind = r.take(2);
        let s = r.take(STATES.len() as u64 + 64);
        let s = if s < STATES.len() as u64 { STATES[s as usize] } else { 1_u64 << (s - STATES.len() as u64) };
        let n = *r.pick(&reps);
        let d = r.take(2);
        w.at(|| format!("test {kind}, state {s}, {n} repetitions, data {d}"));
        w.state(&(kind, s, n, d));
        w.ops(2);
        let opts = [Opt::Reps(n), Opt::State(s)];
        let (a, b) = (build(kind, &opts)(d), build(kind, &opts)(d));
        w.check(a == b, || format!("two runs give {a:?} and {b:?}"));
        w.check(a.0 == n && a.1 == s, || format!("reports {} repetitions and state {}", a.0, a.1));
        w.outcome(&a);
        w.trace();
    });
    // Unseeded runs: the state drawn is reported, whatever it is. The draw is scripted.
    let menu2 = [0_u64, 1, 7, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX, 0x9e37_79b9_7f4a_7c15];
    cx.family("unseeded runs, every drawn state", 2 * menu2.len() as u64 * 3, |i, w| {
        let mut r = Radix(i);
        let kind = r.take(2);
        let word = *r.pick(&menu2);
        let d = r.take(3);
        w.at(|| format!("test {kind}, drawn word {word:#x}, data {d}"));
        w.state(&("drawn", kind, word, d));
        // First with the generator's own stream and only the drawn state scripted.
        for opts in [vec![Opt::Reps(50)], vec![Opt::Reps(1)], vec![]] {
            w.ops(2);
            let a = build(kind, &opts)(d); // truly unseeded
            let b = build(kind, &[Opt::Reps(a.0), Opt::State(a.1)])(d);
            w.check(a == b, || format!("an unseeded run gives {a:?}; with the reported state {b:?}"));
        }
        w.trace();
        // All draws of one scripted run: same state, same draws, same result.
        let mut first: BTreeMap<Vec<u32>, Out> = BTreeMap::new();
        let menu3 = [word];
        let lim = 300;
        let mut reported = None;
        let t = explore(&menu3, lim, || build(kind, &[Opt::Reps(1)])(2), |_, o, ctx| {
            reported = Some(o.1);
            first.insert(ctx.trace.iter().map(|x| x.1).collect(), o);
        });
        w.ops(t.leaves);
        let st = reported.unwrap();
        let mut bad = None;
        let t2 = explore(&menu3, lim, || build(kind, &[Opt::Reps(1), Opt::State(st)])(2), |_, o, ctx| {
            let k: Vec<u32> = ctx.trace.iter().map(|x| x.1).collect();
            if first.get(&k) != Some(&o) {
                bad = Some(format!("draws {k:?}: {o:?} with the reported state, {:?} without a state", first.get(&k)));
            }
        });
        w.ops(t2.leaves);
        if !(t.raw || t2.raw || t.too_many || t2.too_many) {
            if let Some(b) = bad {
                w.fail("", b);
            }
            w.check(t.leaves == t2.leaves, || format!("{} executions without a state, {} with the reported one", t.leaves, t2.leaves));
        }
    });
    // Convenience constructors are the default testers.
    cx.family("convenience constructors", 3, |i, w| {
        w.state(&("conv", i));
        w.ops(4);
        let a = BootstrapTest::from_paired_samples(boot_data(i)).expect("bootstrap");
        let b = build(0, &[Opt::State(a.random_state())])(i);
        w.check(a.n_resamples() == 10000 && b == (a.n_resamples(), a.random_state(), vec![a.p_value().to_bits()]), || format!("from_paired_samples reports {} resamples, state {}, p {}; the tester gives {b:?}", a.n_resamples(), a.random_state(), a.p_value()));
        let c = RandomizedTukeyHsdTest::from_tupled_samples(tukey_data(i), 3).expect("tukey");
        let d = build(1, &[Opt::State(c.random_state())])(i);
        w.check(c.n_iters() == 10000 && d == (c.n_iters(), c.random_state(), c.p_values().concat().iter().map(|x| x.to_bits()).collect()), || format!("from_tupled_samples reports {} iterations, state {}; the tester gives {d:?}", c.n_iters(), c.random_state()));
        let e = BootstrapTester::default().test(boot_data(i)).expect("bootstrap");
        w.check(e.n_resamples() == 10000, || format!("the default tester uses {} resamples", e.n_resamples()));
        w.trace();
    });
    cx.assume("truly unseeded runs are repeated with whatever state they report (the state itself is random); the drawn word is also scripted");
    cx.bound("all sequences of up to 5 (6) option settings out of 8 for both tests; all histories of up to 6 (7) runs out of 10 actions; 74 random states x 7 repetition counts x 2 data sets; 8 scripted drawn states with every sequence of draws of one repetition");
}
