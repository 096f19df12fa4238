//! C17 (two-way ANOVA without replication) and C18 (Tukey HSD effect sizes).
use crate::common::*;
use crate::stats_ref::*;
use elinor::statistical_tests::{TukeyHsdTest, TwoWayAnovaWithoutReplication};
use elinor::ElinorError;

pub struct Table {
    pub sys: Vec<f64>,
    pub top: Vec<f64>,
    pub sa: f64,
    pub sb: f64,
    pub se: f64,
    pub st: f64,
}

/// The table by definition, on centred data (so that large common offsets do no harm).
pub fn reference(x: &[Vec<f64>]) -> Table {
    let (n, m) = (x.len(), x[0].len());
    let flat: Vec<f64> = x.concat();
    let (g, st) = mean_ss(&flat);
    let c: Vec<Vec<f64>> = x.iter().map(|t| t.iter().map(|v| v - g).collect()).collect();
    let sys: Vec<f64> = (0..m).map(|j| mean_ss(&c.iter().map(|t| t[j]).collect::<Vec<_>>()).0).collect();
    let top: Vec<f64> = c.iter().map(|t| mean_ss(t).0).collect();
    let sa = n as f64 * sys.iter().map(|v| v * v).sum::<f64>();
    let sb = m as f64 * top.iter().map(|v| v * v).sum::<f64>();
    let se = (0..n).map(|i| (0..m).map(|j| (c[i][j] - sys[j] - top[i]).powi(2)).sum::<f64>()).sum();
    Table { sys: sys.iter().map(|v| v + g).collect(), top: top.iter().map(|v| v + g).collect(), sa, sb, se, st }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Residual {
    /// Certainly some residual variation.
    Some,
    /// Zero up to rounding.
    Zero,
}

pub fn residual(x: &[Vec<f64>], t: &Table) -> Residual {
    let scale = x.iter().flatten().fold(0.0_f64, |a, v| a.max(v.abs()));
    let nm = (x.len() * x[0].len()) as f64;
    if t.se > 1e-20 * nm * scale * scale {
        Residual::Some
    } else {
        Residual::Zero
    }
}

fn kind(e: &ElinorError) -> &'static str {
    match e {
        ElinorError::InvalidArgument(_) => "invalid argument",
        ElinorError::Uncomputable(_) => "uncomputable",
        _ => "other",
    }
}

/// The input must be refused; panics on known inputs are known findings.
fn refused<T>(what: &str, want: &str, known: &str, f: impl FnOnce() -> Result<T, ElinorError>, describe: impl Fn(&T) -> (bool, String), w: &mut W) {
    match guard(f) {
        Ok(Err(e)) if kind(&e) == want => {}
        Ok(Err(e)) => w.fail("", format!("{what}: {e:?}, expected an error of kind {want}")),
        Ok(Ok(t)) => {
            let (noise, d) = describe(&t);
            let key = if noise && known == "zero-residual" { "zero-residual-rounding".to_string() } else { String::new() };
            w.fail(&key, format!("{what}: {d}, expected an error of kind {want}"));
        }
        Err(p) => {
            let key = if known.is_empty() { String::new() } else { format!("{known}-panic") };
            w.fail(&key, format!("{what}: panics ({p}), expected an error of kind {want}"));
        }
    }
}

fn noise_bound(x: &[Vec<f64>]) -> f64 {
    let nm = (x.len() * x[0].len()) as f64;
    let scale = x.iter().flatten().fold(0.0_f64, |a, v| a.max(v.abs()));
    nm * (8.0 * nm * f64::EPSILON * scale).powi(2)
}

/// A way of handing over that depends on the data only.
fn way(x: &[Vec<f64>]) -> u64 {
    x.iter().flatten().fold(x.len() as u64, |a, v| a.wrapping_mul(31).wrapping_add(v.to_bits() >> 48)) % WAYS
}

pub fn check_anova(x: &[Vec<f64>], levels: &[f64], w: &mut W) {
    let (n, m) = (x.len(), x[0].len());
    let t = reference(x);
    let show = || if n * m <= 20 { format!("{x:?}") } else { format!("{n}x{m} {:?}...", &x[0][..m.min(5)]) };
    w.op();
    w.trace();
    let run = || TwoWayAnovaWithoutReplication::from_tupled_samples(handed(x.iter(), way(x)), m);
    let res = residual(x, &t);
    if res != Residual::Some {
        let nb = noise_bound(x);
        refused(&format!("zero residual in {}", show()), "uncomputable", "zero-residual", run, |a| (a.residual_variation() <= nb, format!("residual variation {}, F {} and {}", a.residual_variation(), a.between_system_f_stat(), a.between_topic_f_stat())), w);
        return;
    }
    let a = match run() {
        Ok(a) => a,
        Err(e) => {
            w.fail("", format!("{}: {e:?}", show()));
            return;
        }
    };
    let (nf, mf) = (n as f64, m as f64);
    let scale = x.iter().flatten().fold(0.0_f64, |s, v| s.max(v.abs()));
    let abs = 1e-13 * nf * mf * scale * scale;
    w.check(a.n_topics() == n && a.n_systems() == m, || format!("{} topics and {} systems reported for {}", a.n_topics(), a.n_systems(), show()));
    let vec_ok = |g: &[f64], r: &[f64]| g.len() == r.len() && g.iter().zip(r).all(|(a, b)| (a - b).abs() <= 1e-11 * scale);
    w.check(vec_ok(&a.system_means(), &t.sys), || format!("system_means() = {:?}, expected {:?} of {}", a.system_means(), t.sys, show()));
    w.check(vec_ok(&a.topic_means(), &t.top), || format!("topic_means() = {:?}, expected {:?} of {}", a.topic_means(), t.top, show()));
    let (da, db, de) = (mf - 1.0, nf - 1.0, (mf - 1.0) * (nf - 1.0));
    for (what, got, want, div) in [
        ("between_system_variation", a.between_system_variation(), t.sa, 1.0),
        ("between_topic_variation", a.between_topic_variation(), t.sb, 1.0),
        ("residual_variation", a.residual_variation(), t.se, 1.0),
        ("between_system_variance", a.between_system_variance(), t.sa / da, da),
        ("between_topic_variance", a.between_topic_variance(), t.sb / db, db),
        ("residual_variance", a.residual_variance(), t.se / de, de),
    ] {
        w.check(got >= 0.0 && (got - want).abs() <= 1e-9 * want + abs / div, || format!("{what}() = {got}, expected {want} of {}", show()));
    }
    let sum = a.between_system_variation() + a.between_topic_variation() + a.residual_variation();
    w.check((sum - t.st).abs() <= 1e-9 * t.st + 3.0 * abs, || format!("the sums of squares add up to {sum}, the total is {} of {}", t.st, show()));
    // Statistics derived from the reported mean squares, which have just been checked.
    let ve = a.residual_variance();
    for (what, f, p, v, d) in [
        ("system", a.between_system_f_stat(), a.between_system_p_value(), a.between_system_variance(), da),
        ("topic", a.between_topic_f_stat(), a.between_topic_p_value(), a.between_topic_variance(), db),
    ] {
        let want = v / ve;
        w.check((f - want).abs() <= 1e-12 * want, || format!("between_{what}_f_stat() = {f}, expected {want} of {}", show()));
        let wp = f_upper(f, d, de);
        w.check((0.0..=1.0).contains(&p) && (p - wp).abs() <= 1e-8 * wp + 1e-300, || format!("between_{what}_p_value() = {p}, expected {wp} for F = {f} with {d} and {de} degrees of freedom; {}", show()));
        w.outcome(&(f.to_bits(), p.to_bits()));
    }
    for &l in levels {
        w.op();
        match a.margin_of_error(l) {
            Ok(g) => {
                let tail = t_two_sided(g / (ve / nf).sqrt(), de);
                let mtol = if de <= 5000.0 { 1e-6 } else { 1e-4 };
                w.check(g >= 0.0 && g.is_finite() && (tail - l).abs() <= mtol * l, || format!("margin_of_error({l}) = {g}, beyond which the probability is {tail}; {}", show()));
            }
            Err(e) => w.fail("", format!("margin_of_error({l}): {e:?}")),
        }
    }
}

fn check_effects(x: &[Vec<f64>], w: &mut W) {
    let (n, m) = (x.len(), x[0].len());
    let t = reference(x);
    let show = || if n * m <= 20 { format!("{x:?}") } else { format!("{n}x{m} {:?}...", &x[0][..m.min(5)]) };
    w.op();
    w.trace();
    let run = || TukeyHsdTest::from_tupled_samples(handed(x.iter(), way(x)), m);
    let res = residual(x, &t);
    if res != Residual::Some {
        let nb = noise_bound(x);
        refused(
            &format!("zero residual in {}", show()),
            "uncomputable",
            "zero-residual",
            run,
            |a| {
                // Rounding noise as residual: effect sizes are differences over at most that noise.
                let e = a.effect_sizes();
                let sd = (nb / ((n - 1) * (m - 1)) as f64).sqrt();
                let ok = (0..m).all(|i| (0..m).all(|j| e[i][j].abs() >= ((t.sys[i] - t.sys[j]).abs() - 1e-9) / sd));
                (ok, format!("effect sizes {e:?}"))
            },
            w,
        );
        return;
    }
    let a = match run() {
        Ok(a) => a,
        Err(e) => {
            w.fail("", format!("{}: {e:?}", show()));
            return;
        }
    };
    w.check(a.n_topics() == n && a.n_systems() == m, || format!("{} topics and {} systems reported for {}", a.n_topics(), a.n_systems(), show()));
    let e = a.effect_sizes();
    w.check(e.len() == m && e.iter().all(|r| r.len() == m), || format!("effect sizes {e:?} are not {m} x {m}"));
    if e.len() != m || e.iter().any(|r| r.len() != m) {
        return;
    }
    let ve = t.se / ((m - 1) * (n - 1)) as f64;
    let sd = ve.sqrt();
    let scale = x.iter().flatten().fold(0.0_f64, |s, v| s.max(v.abs()));
    let cond = 1e-9 + 1e-13 * (n * m) as f64 * scale * scale / ve;
    let abs = 1e-11 * scale / sd;
    for i in 0..m {
        w.check(e[i][i] == 0.0, || format!("effect size of system {i} with itself is {}", e[i][i]));
        for j in 0..m {
            let want = (t.sys[i] - t.sys[j]) / sd;
            w.check((e[i][j] - want).abs() <= cond * want.abs() + abs, || format!("effect size of systems {i} and {j} is {}, expected {want} of {}", e[i][j], show()));
            w.check((e[i][j] + e[j][i]).abs() <= 1e-12 * e[i][j].abs() + abs, || format!("effect sizes {} and {} of {i}, {j} are not opposite", e[i][j], e[j][i]));
            for k in 0..m.min(6) {
                let (ij, jk, ik) = (e[i][j], e[j][k], e[i][k]);
                w.check((ij + jk - ik).abs() <= 1e-10 * (ij.abs() + jk.abs()) + 3.0 * abs, || format!("effect sizes {ij} + {jk} is not {ik} for systems {i}, {j}, {k} of {}", show()));
            }
        }
    }
    w.outcome(&e.concat().iter().map(|v| v.to_bits()).collect::<Vec<_>>());
    let again = a.effect_sizes();
    w.check(again == e, || "effect_sizes() differs the second time".to_string());
    w.ops(1);
}

fn spaces(cx: &mut Cx, f: impl Fn(&[Vec<f64>], bool, &mut W) + Sync) {
    let th = cx.thorough;
    let mut sp: Vec<(usize, usize, Vec<f64>)> = vec![
        (2, 2, vec![0.0, 1.0, 0.5, -2.0, 12.0, 0.1]),
        (2, 3, vec![0.0, 1.0, 0.25, 6.0]),
        (3, 2, vec![0.0, 1.0, 0.25, 6.0]),
        (4, 2, vec![0.0, 1.0, 3.0]),
        (2, 4, vec![0.0, 1.0, 3.0]),
        (3, 3, vec![0.0, 1.0, 3.0]),
        (2, 5, vec![0.0, 1.0]),
        (5, 2, vec![0.0, 1.0]),
        (3, 4, vec![0.0, 0.1]),
        (4, 3, vec![0.0, 0.7]),
    ];
    sp.extend([(3, 3, vec![0.0, 1.0, 0.25, 6.0]), (5, 2, vec![0.0, 1.0, 3.0]), (2, 5, vec![0.0, 1.0, 3.0]), (4, 4, vec![0.0, 1.0]), (5, 3, vec![0.0, 1.0]), (3, 5, vec![0.0, 1.0]), (3, 4, vec![0.0, 0.1, 0.3])]);
    if th {
        sp.extend([(3, 3, vec![0.0, 1.0, 0.25, 6.0, -0.1]), (4, 3, vec![0.0, 0.7, 1.0]), (6, 2, vec![0.0, 1.0, 0.1]), (2, 6, vec![0.0, 1.0, 0.1]), (4, 5, vec![0.0, 1.0]), (5, 4, vec![0.0, 1.0]), (3, 6, vec![0.0, 1.0]), (6, 3, vec![0.0, 1.0]), (7, 3, vec![0.0, 0.1]), (4, 2, vec![0.0, 1.0, 0.5, -2.0, 12.0, 0.1, 3.0])]);
    }
    for (n, m, v) in &sp {
        cx.family(&format!("all {n}x{m} matrices over {v:?}"), (v.len() as u64).pow((n * m) as u32), |i, w| {
            let c = Radix(i).vec(v.len() as u64, n * m);
            let x: Vec<Vec<f64>> = c.chunks(*m).map(|r| r.iter().map(|&k| v[k as usize]).collect()).collect();
            w.at(|| format!("scores {x:?}"));
            w.state(&(n, m, v.len(), i));
            f(&x, i % 64 == 0, w);
            w.sample(|| format!("{x:?}"));
        });
    }
    // Exactly additive matrices (no residual), all of them over small factor levels.
    cx.family("additive matrices without residual", 4 * seq_count(3, 4, 7), |i, w| {
        let mut r = Radix(i);
        let form = r.take(4);
        let s = seq_at(r.0, 3, 4, 7);
        let m = 2 + form as usize % 2;
        let n = s.len() - m;
        if n < 2 {
            return;
        }
        let nm = (n * m) as f64;
        let unit = if form < 2 { nm } else { 0.1 };
        let x: Vec<Vec<f64>> = (0..n).map(|i| (0..m).map(|j| unit * (s[j] + s[m + i]) as f64).collect()).collect();
        w.at(|| format!("scores {x:?}"));
        w.state(&("additive", form, &s));
        f(&x, false, w);
    });
    // Sizes and shapes.
    let mut sizes: Vec<(usize, usize)> = vec![];
    for n in 2..=if th { 150 } else { 40 } {
        for m in 2..=if th { 30 } else { 16 } {
            sizes.push((n, m));
        }
    }
    sizes.extend([(50, 2), (50, 3), (100, 5), (249, 7), (500, 2), (1000, 3), (2, 40), (3, 25), (20, 20), (257, 2), (5000, 2), (20_011, 3), (65_537, 2), (2, 300), (3, 1000)]);
    let sizes = &sizes;
    cx.family("sizes x shapes", sizes.len() as u64 * 8, |i, w| {
        let mut r = Radix(i);
        let (n, m) = *r.pick(sizes);
        let shape = r.take(8);
        let x: Vec<Vec<f64>> = (0..n)
            .map(|t| {
                (0..m)
                    .map(|s| {
                        let h = ((t * 31 + s * 17) * (t + 2 * s + 3) % 101) as f64;
                        match shape {
                            0 => h,
                            1 => h / 100.0,
                            2 => h / 100.0 + 10.0 * s as f64,
                            3 => h / 100.0 + 10.0 * t as f64,
                            4 => 1000.0 + h,
                            5 => h * 1e-6,
                            6 => (t == 0 && s == 0) as u8 as f64,
                            _ => ((t + s) % 2) as f64,
                        }
                    })
                    .collect()
            })
            .collect();
        w.at(|| format!("{n}x{m} shape {shape}"));
        w.state(&("size", n, m, shape));
        f(&x, true, w);
    });
}

/// Wrong shapes: each must be refused as an invalid argument.
fn bad_shapes(cx: &mut Cx, f: impl Fn(&[Vec<f64>], usize, &str, &mut W) + Sync) {
    cx.family("wrong lengths at every position", 5 * 6 * 5, |i, w| {
        let mut r = Radix(i);
        let m = r.take(5) as usize + 2;
        let n = r.take(6) as usize + 1;
        let len = [0, m - 1, m + 1, 2 * m, 1][r.take(5) as usize];
        if len == m {
            return;
        }
        w.state(&("len", m, n, len));
        for at in 0..n {
            let x: Vec<Vec<f64>> = (0..n).map(|t| (0..if t == at { len } else { m }).map(|s| (t * s + t) as f64).collect()).collect();
            w.at(|| format!("{m} systems, scores {x:?}"));
            f(&x, m, "", w);
        }
    });
    cx.family("too few topics or systems", 8 * 4, |i, w| {
        let mut r = Radix(i);
        let m = r.take(8) as usize;
        let n = r.take(4) as usize;
        w.state(&("few", m, n));
        if n < 2 || m < 2 {
            let x: Vec<Vec<f64>> = (0..n).map(|t| (0..m).map(|s| (t * s + t) as f64).collect()).collect();
            w.at(|| format!("{m} systems, scores {x:?}"));
            f(&x, m, if n >= 2 { "one-system" } else { "" }, w);
        }
    });
}

fn self_checked(cx: &mut Cx) {
    match self_check() {
        Ok(n) => {
            cx.extra.insert("oracle_cross_checks", n);
        }
        Err(e) => cx.errors.push(format!("the reference distributions disagree: {e}")),
    }
}

const BOUND: &str = "all matrices of 17 (27) shapes from 2x2 to 4x4 (7x3) over 2-7 scores; all additive matrices of up to 7 factor levels; sizes 2-40 x 2-16 (2-150 x 2-30) and up to 65537x2, 20011x3, 2x300 and 3x1000 in eight shapes; every wrong length at every position";

pub fn c17(cx: &mut Cx) {
    cx.rule = "state = a distinct score matrix; the real ANOVA runs on each and every reported number is compared with an independent computation".into();
    self_checked(cx);
    spaces(cx, |x, all, w| check_anova(x, if all { &LEVELS } else { &[0.05] }, w));
    bad_shapes(cx, |x, m, known, w| {
        w.op();
        refused(&format!("{} topics, {m} systems", x.len()), "invalid argument", known, || TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), m), |a| (false, format!("F {}", a.between_system_f_stat())), w);
        w.trace();
    });
    cx.family("levels outside (0,1]", (BAD_LEVELS.len() as u64 + 1) * 6, |i, w| {
        let mut r = Radix(i);
        let l = r.take(BAD_LEVELS.len() as u64 + 1) as usize;
        let n = r.take(6) as usize + 2;
        let x: Vec<Vec<f64>> = (0..n).map(|t| (0..3).map(|s| (t * t * 3 + s * t + s) as f64 % 5.0).collect()).collect();
        w.op();
        w.state(&("level", l, n));
        let a = TwoWayAnovaWithoutReplication::from_tupled_samples(x.iter(), 3).expect("ANOVA");
        let level = BAD_LEVELS.get(l).copied().unwrap_or(f64::NAN);
        w.at(|| format!("level {level}, scores {x:?}"));
        match guard(|| a.margin_of_error(level)) {
            Ok(Err(ElinorError::InvalidArgument(_))) => {}
            Err(p) => w.fail(if level.is_nan() { "nan-level" } else { "" }, format!("margin_of_error({level}) panics: {p}")),
            Ok(v) => w.fail("", format!("margin_of_error({level}) = {v:?}, expected an invalid argument")),
        }
        w.trace();
    });
    cx.assume("F and t tail probabilities come from an independent continued fraction, cross-checked against closed forms in every run; margins are judged by the probability beyond them");
    cx.bound(BOUND);
}

pub fn c18(cx: &mut Cx) {
    cx.rule = "state = a distinct score matrix; the real effect sizes are compared with an independent computation, and pairwise relations checked".into();
    spaces(cx, |x, _, w| check_effects(x, w));
    bad_shapes(cx, |x, m, known, w| {
        w.op();
        refused(&format!("{} topics, {m} systems", x.len()), "invalid argument", known, || TukeyHsdTest::from_tupled_samples(x.iter(), m), |a| (false, format!("effect sizes {:?}", a.effect_sizes())), w);
        w.trace();
    });
    cx.bound(BOUND);
}
