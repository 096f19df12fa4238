//! C13: the paired t-test.
use crate::common::*;
use crate::stats_ref::*;
use elinor::statistical_tests::StudentTTest;
use elinor::ElinorError;

/// Which inputs make equal differences unequal in floating point, or exactly equal.
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Variation {
    Some,
    /// All differences are the same double.
    None,
}

pub fn variation(d: &[f64]) -> Variation {
    if d.iter().all(|x| *x == d[0]) {
        Variation::None
    } else {
        Variation::Some
    }
}

pub fn check_t(pairs: &[(f64, f64)], levels: &[f64], w: &mut W) {
    let d: Vec<f64> = pairs.iter().map(|(x, y)| x - y).collect();
    let n = d.len();
    w.op();
    let way = pairs.iter().fold(n as u64, |a, p| a.wrapping_mul(31).wrapping_add(p.0.to_bits() >> 50));
    let r = StudentTTest::from_paired_samples(handed(pairs.iter().copied(), way));
    w.trace();
    if n < 2 {
        w.check(matches!(r, Err(ElinorError::InvalidArgument(_))), || format!("{n} pairs: {:?}, expected an invalid argument", r.as_ref().map(|t| t.t_stat())));
        return;
    }
    if variation(&d) == Variation::None {
        if let Ok(t) = &r {
            // Known finding: the computed variance of equal differences may be rounding noise.
            let noise = (n as f64 * f64::EPSILON * d[0].abs()).powi(2);
            // Sums of this difference are exact up to n terms: then the variance must be exactly zero.
            let exact = d[0] == 0.0 || (d[0] * 1024.0).fract() == 0.0 && d[0].abs() * 1024.0 * (n as f64) < 2_f64.powi(50);
            let key = if !exact && t.variance() > 0.0 && t.variance() <= noise { "equal-differences-rounding" } else { "" };
            w.fail(key, format!("equal differences {} x {n} give variance {} and t = {} instead of an uncomputable error", d[0], t.variance(), t.t_stat()));
        } else {
            w.check(matches!(r, Err(ElinorError::Uncomputable(_))), || format!("equal differences: {:?}, expected an uncomputable error", r.as_ref().map(|t| t.t_stat())));
        }
        return;
    }
    let t = match r {
        Ok(t) => t,
        Err(e) => {
            w.fail("", format!("differences {d:?}: {e:?}"));
            return;
        }
    };
    let (mean, ss) = mean_ss(&d);
    let nf = n as f64;
    let var = ss / (nf - 1.0);
    let scale = d.iter().fold(0.0_f64, |a, x| a.max(x.abs()));
    let show = || if n <= 12 { format!("{d:?}") } else { format!("{:?}... ({n})", &d[..8]) };
    w.check(t.n_topics() == n, || format!("n_topics() = {} for {n} pairs", t.n_topics()));
    #[allow(deprecated)]
    w.check(t.n_samples() == n, || format!("n_samples() = {} for {n} pairs", t.n_samples()));
    w.check((t.mean() - mean).abs() <= 1e-12 * scale, || format!("mean() = {}, expected {mean} of {}", t.mean(), show()));
    let vtol = 1e-10 * var + 1e-14 * scale * scale;
    w.check((t.variance() - var).abs() <= vtol, || format!("variance() = {}, expected {var} of {}", t.variance(), show()));
    // Everything else is judged relative to the conditioning of the variance.
    let cond = 1e-9 + 1e-13 * scale * scale / var;
    let es = mean / var.sqrt();
    w.check((t.effect_size() - es).abs() <= cond * es.abs() + 1e-12 * scale / var.sqrt(), || format!("effect_size() = {}, expected {es} of {}", t.effect_size(), show()));
    let ts = mean / (var / nf).sqrt();
    let ttol = cond * ts.abs() + 1e-12 * scale / (var / nf).sqrt();
    w.check((t.t_stat() - ts).abs() <= ttol, || format!("t_stat() = {}, expected {ts} of {}", t.t_stat(), show()));
    // The p-value belongs to the reported t, which has just been checked.
    let p = t_two_sided(t.t_stat(), nf - 1.0);
    w.check((t.p_value() - p).abs() <= 1e-8 * p + 1e-300, || format!("p_value() = {}, expected {p} for t = {} with {} degrees of freedom; {}", t.p_value(), t.t_stat(), n - 1, show()));
    w.check((0.0..=1.0).contains(&t.p_value()), || format!("p_value() = {}", t.p_value()));
    w.outcome(&(t.t_stat().to_bits(), n));
    for &a in levels {
        w.op();
        match (t.margin_of_error(a), t.confidence_interval(a)) {
            (Ok(m), Ok((lo, hi))) => {
                let tail = t_two_sided(m / (t.variance() / nf).sqrt(), nf - 1.0);
                // The quantile of a distribution with so many degrees of freedom is itself less exact.
                let mtol = if n <= 5000 { 1e-6 } else { 1e-4 };
                w.check(m >= 0.0 && m.is_finite() && (tail - a).abs() <= mtol * a, || format!("margin_of_error({a}) = {m}, beyond which the probability is {tail}; {}", show()));
                let tol = 1e-12 * (m.abs() + scale);
                w.check((lo - (t.mean() - m)).abs() <= tol && (hi - (t.mean() + m)).abs() <= tol, || format!("confidence_interval({a}) = ({lo}, {hi}), mean {} margin {m}", t.mean()));
            }
            (m, c) => w.fail("", format!("level {a}: margin {m:?}, interval {c:?}")),
        }
    }
}

fn bad_levels(t: &StudentTTest, w: &mut W) {
    for a in BAD_LEVELS {
        w.op();
        let (m, c) = (t.margin_of_error(a), t.confidence_interval(a));
        w.check(matches!(m, Err(ElinorError::InvalidArgument(_))) && matches!(c, Err(ElinorError::InvalidArgument(_))), || format!("level {a}: margin {m:?}, interval {c:?}, expected invalid arguments"));
    }
    w.op();
    match guard(|| (t.margin_of_error(f64::NAN), t.confidence_interval(f64::NAN))) {
        Ok((Err(ElinorError::InvalidArgument(_)), Err(ElinorError::InvalidArgument(_)))) => {}
        Err(p) => w.fail("nan-level", format!("margin_of_error(NaN) panics: {p}")),
        Ok((m, c)) => w.fail("", format!("level NaN: margin {m:?}, interval {c:?}, expected invalid arguments")),
    }
}

pub fn c13(cx: &mut Cx) {
    cx.rule = "state = a distinct list of pairs; the real test runs on each and every reported number is compared with an independent computation".into();
    match self_check() {
        Ok(n) => {
            cx.extra.insert("oracle_cross_checks", n);
        }
        Err(e) => cx.errors.push(format!("the reference distributions disagree: {e}")),
    }
    let th = cx.thorough;
    let few = [0.05];
    let sc = [0.0, 0.5, 1.0, -0.25];
    let maxn = if th { 6 } else { 5 };
    cx.family("all lists of pairs over four scores", seq_count(16, 0, maxn), |i, w| {
        let p: Vec<(f64, f64)> = seq_at(i, 16, 0, maxn).iter().map(|&c| (sc[(c / 4) as usize], sc[(c % 4) as usize])).collect();
        w.at(|| format!("pairs {p:?}"));
        w.state(&p.iter().map(|x| (x.0.to_bits(), x.1.to_bits())).collect::<Vec<_>>());
        check_t(&p, &few, w);
        w.sample(|| format!("{p:?}"));
    });
    let maxd = if th { 10 } else { 8 };
    cx.family("all difference vectors over five values", seq_count(5, 2, maxd), |i, w| {
        let v = seq_at(i, 5, 2, maxd);
        let p: Vec<(f64, f64)> = v.iter().enumerate().map(|(j, &c)| ([-1.0, 0.0, 0.25, 2.0, 7.0][c as usize] + j as f64, j as f64)).collect();
        w.at(|| format!("differences {v:?} over [-1, 0, 0.25, 2, 7]"));
        w.state(&("d", &v));
        check_t(&p, if i % 16 == 0 { &LEVELS } else { &few }, w);
    });
    // Every level for one vector of every size, and levels that must be refused.
    let sizes: Vec<usize> = (2..=if th { 700 } else { 200 }).chain([100, 101, 250, 500, 1000, 1001, 2000, 5000, 10_007, 32_769, 65_535, 65_536, 65_537, 100_003]).collect();
    let pats = 8_u64;
    cx.family("sizes x shapes x levels", sizes.len() as u64 * pats, |i, w| {
        let mut r = Radix(i);
        let n = *r.pick(&sizes);
        let pat = r.take(pats);
        let p: Vec<(f64, f64)> = (0..n)
            .map(|j| {
                let jf = j as f64;
                match pat {
                    0 => (jf, 0.0),
                    1 => (0.3, if j == 0 { 0.1 } else { 0.2 }),
                    2 => ((j % 2) as f64, 0.5),
                    3 => (((j * 37) % 11) as f64 / 10.0, ((j * 53) % 13) as f64 / 12.0),
                    4 => (1000.0 + ((j * 7) % 5) as f64, 0.0),
                    5 => (1e-6 * ((j * j) % 17) as f64, -1e-6),
                    6 => (if j == n - 1 { 100.0 } else { 0.0 }, 0.0),
                    _ => (0.5 + ((j * 29) % 7) as f64 * 1e-4, 0.5),
                }
            })
            .collect();
        w.at(|| format!("{n} pairs of shape {pat}: {:?}...", &p[..n.min(6)]));
        w.state(&("n", n, pat));
        check_t(&p, &LEVELS, w);
        if let Ok(t) = StudentTTest::from_paired_samples(p.iter().copied()) {
            bad_levels(&t, w);
        }
    });
    // Differences without variation: exact ones and ones whose sums are rounded.
    let cs = [0.0, 1.0, -1.0, 0.5, 3.25, 0.1, 0.2, 0.3, -0.7, 1.0 / 3.0, 0.01, 123.456, 1e-3];
    let nn = if th { 600 } else { 200_u64 };
    cx.family("equal differences", cs.len() as u64 * nn * 3, |i, w| {
        let mut r = Radix(i);
        let c = *r.pick(&cs);
        let form = r.take(3);
        let n = r.take(nn) as usize + 1;
        let p: Vec<(f64, f64)> = (0..n)
            .map(|j| match form {
                0 => (c, 0.0),
                1 => (0.0, c),
                _ => (j as f64, j as f64), // zero differences from different scores
            })
            .collect();
        w.at(|| format!("{n} pairs with difference {c}, form {form}"));
        w.state(&("c", c.to_bits(), form, n));
        check_t(&p, &few, w);
    });
    // Orders and magnitudes.
    let mags: Vec<f64> = (-12..=12).map(|e| 10_f64.powi(e)).chain([2_f64.powi(60), 2_f64.powi(-60)]).collect();
    cx.family("magnitudes", mags.len() as u64 * seq_count(3, 2, 5), |i, w| {
        let mut r = Radix(i);
        let s = *r.pick(&mags);
        let v = seq_at(r.0, 3, 2, 5);
        let p: Vec<(f64, f64)> = v.iter().map(|&c| (s * c as f64, s * 0.5)).collect();
        w.at(|| format!("scores {s} x {v:?} against {s}/2"));
        w.state(&("m", s.to_bits(), &v));
        check_t(&p, &few, w);
    });
    cx.assume("tail probabilities are computed by an independent continued fraction that is cross-checked against closed forms in every run; margins are judged by the probability beyond them, to 1e-6 (beyond 5000 pairs 1e-4) relative, for levels down to 1e-6");
    cx.bound("all lists of up to 5 (6) pairs over four scores; all difference vectors up to length 8 (10) over five values; every size to 200 (700) and up to 100003 in eight shapes with twelve valid and ten invalid levels; equal differences of 13 values up to 200 (600) pairs; 27 magnitudes");
}
