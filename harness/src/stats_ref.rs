//! Reference statistics, written independently of the library and of statrs.

/// Compensated mean, and sum of squared deviations by two passes.
pub fn mean_ss(v: &[f64]) -> (f64, f64) {
    let n = v.len() as f64;
    let (mut s, mut c) = (0.0, 0.0);
    for &x in v {
        let y = x - c;
        let t = s + y;
        c = (t - s) - y;
        s = t;
    }
    let mean = s / n;
    let (mut q, mut e) = (0.0, 0.0);
    for &x in v {
        q += (x - mean) * (x - mean);
        e += x - mean;
    }
    (mean, (q - e * e / n).max(0.0))
}

fn ln_gamma(x: f64) -> f64 {
    // Stirling with shift: exact to about 1e-15 relative.
    let mut x = x;
    let mut l = 0.0;
    while x < 30.0 {
        l -= x.ln();
        x += 1.0;
    }
    let i = 1.0 / x;
    let i2 = i * i;
    let s = i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 * (1.0 / 1680.0 - i2 / 1188.0))));
    l + (x - 0.5) * x.ln() - x + 0.918_938_533_204_672_8 + s
}

/// Regularised incomplete beta by Lentz's continued fraction; y = 1 - x given separately.
pub fn inc_beta(a: f64, b: f64, x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if y <= 0.0 {
        return 1.0;
    }
    if x > (a + 1.0) / (a + b + 2.0) {
        return 1.0 - inc_beta_small(b, a, y, x);
    }
    inc_beta_small(a, b, x, y)
}

fn inc_beta_small(a: f64, b: f64, x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    let front = (a * x.ln() + b * y.ln() + ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b)).exp() / a;
    let tiny = 1e-300;
    let mut c = 1.0;
    let mut d = 1.0 - (a + b) * x / (a + 1.0);
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..20000 {
        let m = m as f64;
        let mut step = |num: f64| {
            d = 1.0 + num * d;
            if d.abs() < tiny {
                d = tiny;
            }
            c = 1.0 + num / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            del
        };
        step(m * (b - m) * x / ((a + 2.0 * m - 1.0) * (a + 2.0 * m)));
        let del = step(-(a + m) * (a + b + m) * x / ((a + 2.0 * m) * (a + 2.0 * m + 1.0)));
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    front * h
}

/// P(|T| >= |t|) for Student's t with v degrees of freedom.
pub fn t_two_sided(t: f64, v: f64) -> f64 {
    let t2 = t * t;
    if t2.is_infinite() {
        return 0.0;
    }
    inc_beta(v / 2.0, 0.5, v / (v + t2), t2 / (v + t2)).clamp(0.0, 1.0)
}

/// P(F >= f) for Fisher's F with d1 and d2 degrees of freedom.
pub fn f_upper(f: f64, d1: f64, d2: f64) -> f64 {
    if f <= 0.0 {
        return 1.0;
    }
    let z = d2 + d1 * f;
    inc_beta(d2 / 2.0, d1 / 2.0, d2 / z, d1 * f / z).clamp(0.0, 1.0)
}

/// The same by finite sums (integer degrees of freedom), to cross-check the fraction above.
fn t_two_sided_sum(t: f64, v: u32) -> f64 {
    let th = (t.abs() / (v as f64).sqrt()).atan();
    let (s, c) = (th.sin(), th.cos());
    let a = if v % 2 == 1 {
        let mut sum = 0.0;
        let mut term = c;
        let mut k = 1;
        while k + 2 <= v {
            sum += term;
            term *= c * c * (k + 1) as f64 / (k + 2) as f64;
            k += 2;
        }
        2.0 / std::f64::consts::PI * (th + s * sum)
    } else {
        let mut sum = 0.0;
        let mut term = 1.0;
        let mut k = 0;
        while k < v {
            sum += term;
            term *= c * c * (k + 1) as f64 / (k + 2) as f64;
            k += 2;
        }
        s * sum
    };
    1.0 - a
}

/// I_x(a, b) by recurrences from closed forms (2a, 2b integers), for moderate arguments.
fn inc_beta_rec(a2: u32, b2: u32, x: f64) -> f64 {
    let lb = |a: f64, b: f64| ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b);
    let (a0, b0) = (if a2 % 2 == 1 { 0.5 } else { 1.0 }, if b2 % 2 == 1 { 0.5 } else { 1.0 });
    let mut v = match (a0 == 0.5, b0 == 0.5) {
        (true, true) => 2.0 / std::f64::consts::PI * x.sqrt().asin(),
        (true, false) => x.sqrt(),
        (false, true) => 1.0 - (1.0 - x).sqrt(),
        (false, false) => x,
    };
    let (mut a, mut b) = (a0, b0);
    while a * 2.0 < a2 as f64 {
        v -= (a * x.ln() + b * (1.0 - x).ln() - a.ln() - lb(a, b)).exp();
        a += 1.0;
    }
    while b * 2.0 < b2 as f64 {
        v += (a * x.ln() + b * (1.0 - x).ln() - b.ln() - lb(a, b)).exp();
        b += 1.0;
    }
    v
}

/// The two independent evaluations agree; otherwise the oracle itself cannot be trusted.
pub fn self_check() -> Result<u64, String> {
    let mut n = 0;
    for v in 1..60_u32 {
        for t in [0.0, 0.01, 0.3, 1.0, 1.7, 2.5, 4.0, 9.0] {
            let (a, b) = (t_two_sided(t, v as f64), t_two_sided_sum(t, v));
            if (a - b).abs() > 1e-12 {
                return Err(format!("t tail {t} {v}: {a} {b}"));
            }
            n += 1;
        }
    }
    for d1 in 1..24_u32 {
        for d2 in 1..24_u32 {
            for f in [0.05, 0.4, 1.0, 1.9, 3.3, 8.0] {
                let x = d2 as f64 / (d2 as f64 + d1 as f64 * f);
                let (a, b) = (f_upper(f, d1 as f64, d2 as f64), inc_beta_rec(d2, d1, x));
                if (a - b).abs() > 1e-10 {
                    return Err(format!("F tail {f} {d1} {d2}: {a} {b}"));
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

/// Valid significance levels and invalid ones.
pub const LEVELS: [f64; 12] = [1.0, 0.5, 0.1, 0.05, 0.01, 0.001, 1e-4, 1e-6, 0.999, 0.999_999_9, 0.317_3, 0.25];
pub const BAD_LEVELS: [f64; 9] = [0.0, -0.0, -0.05, -1.0, 1.000_000_000_000_000_2, 1.5, 95.0, f64::INFINITY, f64::NEG_INFINITY];
