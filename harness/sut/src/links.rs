//! Custom link functions, written against the crate's public `link` interface exactly as the
//! documentation tells a user to. Half of them re-state a built-in link, the other half are links
//! the crate does not ship.
use ndarray::Array1;
use ndarray_glm::link::{Canonical, Link, Transform};
use ndarray_glm::num::Float;
use ndarray_glm::{Exponential, Gamma, InvGaussian, Linear, Logistic, Poisson};
use num_traits::Float as NF;

macro_rules! ident_transform {
    ($t:ty) => {
        impl Transform for $t {
            fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
                w
            }
            fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
                Array1::ones(w.len())
            }
        }
    };
}

fn c<F: Float>(x: f64) -> F {
    F::from(x).unwrap()
}

// ---- re-statements of built-in links --------------------------------------------------------
/// Identity, by the `Canonical` shortcut.
pub struct MyId;
impl Canonical for MyId {}
impl Link<Linear<MyId>> for MyId {
    fn func<F: Float>(y: F) -> F {
        y
    }
    fn func_inv<F: Float>(w: F) -> F {
        w
    }
}
/// Identity, with an explicit transformation.
pub struct MyId2;
ident_transform!(MyId2);
impl Link<Linear<MyId2>> for MyId2 {
    fn func<F: Float>(y: F) -> F {
        y
    }
    fn func_inv<F: Float>(w: F) -> F {
        w
    }
}
/// Logit with an explicit transformation.
pub struct MyLogit;
ident_transform!(MyLogit);
impl Link<Logistic<MyLogit>> for MyLogit {
    fn func<F: Float>(y: F) -> F {
        NF::ln(y / (F::one() - y))
    }
    fn func_inv<F: Float>(w: F) -> F {
        F::one() / (F::one() + NF::exp(-w))
    }
}
/// Complementary log-log.
pub struct MyCloglog;
impl Transform for MyCloglog {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| NF::ln(NF::exp_m1(NF::exp(x))))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|x| {
            let t = NF::exp(x);
            t / (-NF::exp_m1(-t))
        })
    }
}
impl Link<Logistic<MyCloglog>> for MyCloglog {
    fn func<F: Float>(y: F) -> F {
        NF::ln(-NF::ln_1p(-y))
    }
    fn func_inv<F: Float>(w: F) -> F {
        -NF::exp_m1(-NF::exp(w))
    }
}
/// Log for Poisson, explicit transformation.
pub struct MyPLog;
ident_transform!(MyPLog);
impl Link<Poisson<MyPLog>> for MyPLog {
    fn func<F: Float>(y: F) -> F {
        NF::ln(y)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}
/// Log for the three positive families.
pub struct MyLog;
impl Link<Exponential<MyLog>> for MyLog {
    fn func<F: Float>(y: F) -> F {
        NF::ln(y)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}
impl Link<Gamma<MyLog>> for MyLog {
    fn func<F: Float>(y: F) -> F {
        NF::ln(y)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}
impl Transform for MyLog {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| -NF::exp(-x))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|x| NF::exp(-x))
    }
}
pub struct MyLogIg;
impl Link<InvGaussian<MyLogIg>> for MyLogIg {
    fn func<F: Float>(y: F) -> F {
        NF::ln(y)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}
impl Transform for MyLogIg {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| c::<F>(-0.5) * NF::exp(c::<F>(-2.) * x))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|x| NF::exp(c::<F>(-2.) * x))
    }
}

// ---- links the crate does not ship ----------------------------------------------------------
/// sqrt(mu) for Poisson (the example in the crate's documentation).
pub struct Sqrt;
impl Link<Poisson<Sqrt>> for Sqrt {
    fn func<F: Float>(mu: F) -> F {
        NF::sqrt(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        w * w
    }
}
impl Transform for Sqrt {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|w| c::<F>(2.) * NF::ln(w))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| c::<F>(2.) / w)
    }
}
/// log(mu) for the linear family.
pub struct LinLog;
impl Link<Linear<LinLog>> for LinLog {
    fn func<F: Float>(mu: F) -> F {
        NF::ln(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::exp(w)
    }
}
impl Transform for LinLog {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|w| NF::exp(w))
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| NF::exp(w))
    }
}
/// 1/mu for gamma: the conventional sign of the canonical link, so eta = -omega.
pub struct Recip;
impl Link<Gamma<Recip>> for Recip {
    fn func<F: Float>(mu: F) -> F {
        NF::recip(mu)
    }
    fn func_inv<F: Float>(w: F) -> F {
        NF::recip(w)
    }
}
impl Transform for Recip {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|w| -w)
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|_| -F::one())
    }
}
/// Cauchit for the logistic family: eta = ln(p/(1-p)), p = 1/2 + atan(w)/pi.
pub struct Cauchit;
impl Link<Logistic<Cauchit>> for Cauchit {
    fn func<F: Float>(p: F) -> F {
        NF::tan(c::<F>(std::f64::consts::PI) * (p - c::<F>(0.5)))
    }
    fn func_inv<F: Float>(w: F) -> F {
        c::<F>(0.5) + NF::atan(w) / c::<F>(std::f64::consts::PI)
    }
}
impl Transform for Cauchit {
    fn nat_param<F: Float>(w: Array1<F>) -> Array1<F> {
        w.mapv(|w| {
            let a = NF::atan(w) / c::<F>(std::f64::consts::PI);
            NF::ln((c::<F>(0.5) + a) / (c::<F>(0.5) - a))
        })
    }
    fn d_nat_param<F: Float>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| {
            let a = NF::atan(w) / c::<F>(std::f64::consts::PI);
            let v = c::<F>(0.25) - a * a;
            F::one() / (c::<F>(std::f64::consts::PI) * (F::one() + w * w) * v)
        })
    }
}
