//! Reference distribution functions, written from textbook series and continued fractions; they
//! share no code with the crate under test or with its statistics dependency.
use std::f64::consts::PI;

pub fn lgamma(x: f64) -> f64 {
    // Stirling with recurrence shift to x >= 20
    let mut x = x;
    let mut s = 0.0;
    while x < 20.0 {
        s -= x.ln();
        x += 1.0;
    }
    let i = 1.0 / x;
    let i2 = i * i;
    let ser = i * (1. / 12. - i2 * (1. / 360. - i2 * (1. / 1260. - i2 * (1. / 1680. - i2 * (1. / 1188. - i2 * 691. / 360360.)))));
    s + (x - 0.5) * x.ln() - x + 0.5 * (2.0 * PI).ln() + ser
}

/// regularized incomplete gamma: (P, Q)
pub fn gamma_pq(a: f64, x: f64) -> (f64, f64) {
    if x <= 0.0 {
        return (0.0, 1.0);
    }
    if x.is_infinite() {
        return (1.0, 0.0);
    }
    let lpre = a * x.ln() - x - lgamma(a);
    if x < a + 1.0 {
        let mut sum = 1.0 / a;
        let mut t = sum;
        let mut n = a;
        for _ in 0..100000 {
            n += 1.0;
            t *= x / n;
            sum += t;
            if t.abs() < sum.abs() * 1e-17 {
                break;
            }
        }
        let p = (lpre + sum.ln()).exp();
        (p, 1.0 - p)
    } else {
        // Lentz
        let tiny = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / tiny;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..100000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-16 {
                break;
            }
        }
        let q = (lpre + h.ln()).exp();
        (1.0 - q, q)
    }
}

pub fn chi2_sf(x: f64, k: f64) -> f64 {
    if x <= 0.0 { 1.0 } else { gamma_pq(k / 2.0, x / 2.0).1 }
}

pub fn norm_sf(z: f64) -> f64 {
    let q = if z == 0.0 { 1.0 } else { gamma_pq(0.5, z * z / 2.0).1 };
    if z >= 0.0 { 0.5 * q } else { 1.0 - 0.5 * q }
}
pub fn norm_cdf(z: f64) -> f64 {
    norm_sf(-z)
}

/// regularized incomplete beta I_x(a,b)
pub fn betai(a: f64, b: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x >= 1.0 {
        return 1.0;
    }
    let lpre = lgamma(a + b) - lgamma(a) - lgamma(b) + a * x.ln() + b * (-x).ln_1p();
    if x < (a + 1.0) / (a + b + 2.0) {
        (lpre.exp()) * betacf(a, b, x) / a
    } else {
        1.0 - (lpre.exp()) * betacf(b, a, 1.0 - x) / b
    }
}
fn betacf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let (qab, qap, qam) = (a + b, a + 1.0, a - 1.0);
    let mut c = 1.0;
    let mut d = 1.0 - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..100000 {
        let m = m as f64;
        let m2 = 2.0 * m;
        let aa = m * (b - m) * x / ((qam + m2) * (a + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    h
}
/// two-tailed Student-t p-value
pub fn t_two(t: f64, df: f64) -> f64 {
    betai(df / 2.0, 0.5, df / (df + t * t))
}
/// upper tail of F(d1,d2)
pub fn f_sf(f: f64, d1: f64, d2: f64) -> f64 {
    if f <= 0.0 { 1.0 } else { betai(d2 / 2.0, d1 / 2.0, d2 / (d2 + d1 * f)) }
}
/// inverse of the standard normal CDF by bisection on the smaller tail
pub fn norm_inv(p: f64) -> f64 {
    if p <= 0.0 {
        return f64::NEG_INFINITY;
    }
    if p >= 1.0 {
        return f64::INFINITY;
    }
    let (tail, sign) = if p < 0.5 { (p, -1.0) } else { (1.0 - p, 1.0) };
    let (mut lo, mut hi) = (0.0, 40.0);
    for _ in 0..14 {
        let m = 0.5 * (lo + hi);
        if norm_sf(m) > tail { lo = m } else { hi = m }
    }
    // Newton on the logarithm of the tail, which is concave
    let mut z = lo;
    for _ in 0..6 {
        let q = norm_sf(z);
        let d = (-0.5 * z * z).exp() / (2.0 * PI).sqrt();
        z += (q / tail).ln() * q / d;
    }
    sign * z
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn known_values() {
        assert!((lgamma(0.5) - PI.sqrt().ln()).abs() < 1e-14);
        assert!((norm_sf(1.959963984540054) - 0.025).abs() < 1e-14);
        assert!((chi2_sf(3.841458820694124, 1.0) - 0.05).abs() < 1e-13);
        assert!((t_two(2.228138851964939, 10.0) - 0.05).abs() < 1e-12);
        assert!((f_sf(4.964602743730711, 1.0, 10.0) - 0.05).abs() < 1e-12);
        assert!((norm_inv(0.975) - 1.959963984540054).abs() < 1e-12);
        assert!((gamma_pq(3.0, 2.0).0 - 0.3233235838169366).abs() < 1e-14);
    }
}
