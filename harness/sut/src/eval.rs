//! The link functions themselves, element by element.
use crate::*;
use ndarray_glm::link::{Link, Transform};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    Func,
    Inv,
    Nat,
    DNat,
}
struct P<M, L>(PhantomData<(M, L)>);
macro_rules! probe {
    ($name:ident, $fam:ident) => {
        // the default links of some families can't be named from outside, but they can be inferred
        fn $name<L: Link<$fam<L>>, F: Float>(_: PhantomData<$fam<L>>, e: Ev, xs: &[f64]) -> Vec<f64> {
            P::<$fam<L>, L>(PhantomData).run::<F>(e, xs)
        }
        impl<L: Link<$fam<L>>> P<$fam<L>, L> {
            fn run<F: Float>(&self, e: Ev, xs: &[f64]) -> Vec<f64> {
                let v: Array1<F> = arr::<F>(xs);
                let r: Array1<F> = match e {
                    Ev::Func => v.mapv(<L as Link<$fam<L>>>::func::<F>),
                    Ev::Inv => v.mapv(<L as Link<$fam<L>>>::func_inv::<F>),
                    Ev::Nat => <L as Transform>::nat_param::<F>(v),
                    Ev::DNat => <L as Transform>::d_nat_param::<F>(&v),
                };
                r.iter().map(|&x| to64(x)).collect()
            }
        }
    };
}
probe!(p_lin, Linear);
probe!(p_logit, Logistic);
probe!(p_pois, Poisson);
probe!(p_exp, Exponential);
probe!(p_gam, Gamma);
probe!(p_ig, InvGaussian);
fn go<F: Float>(fl: Fl, e: Ev, xs: &[f64]) -> Option<Vec<f64>> {
    Some(match fl {
        Fl::Lin => p_lin::<_, F>(PhantomData::<Linear>, e, xs),
        Fl::Logit => p_logit::<_, F>(PhantomData::<Logistic>, e, xs),
        Fl::Cloglog => p_logit::<_, F>(PhantomData::<Logistic<logistic_link::Cloglog>>, e, xs),
        Fl::Pois => p_pois::<_, F>(PhantomData::<Poisson>, e, xs),
        Fl::ExpN => p_exp::<_, F>(PhantomData::<Exponential>, e, xs),
        Fl::ExpL => p_exp::<_, F>(PhantomData::<Exponential<exp_link::Log>>, e, xs),
        Fl::GamN => p_gam::<_, F>(PhantomData::<Gamma>, e, xs),
        Fl::GamL => p_gam::<_, F>(PhantomData::<Gamma<gamma_link::Log>>, e, xs),
        Fl::IgN => p_ig::<_, F>(PhantomData::<InvGaussian>, e, xs),
        Fl::IgL => p_ig::<_, F>(PhantomData::<InvGaussian<inv_gauss_link::Log>>, e, xs),
        _ => return None,
    })
}
/// Evaluate one of the maps of a link at each of `xs`; None if the link can't be reached directly.
pub fn ev(fl: Fl, fp: Fp, e: Ev, xs: &[f64]) -> Result<Option<Vec<f64>>, String> {
    catch_unwind(AssertUnwindSafe(|| match fp {
        Fp::F64 => go::<f64>(fl, e, xs),
        Fp::F32 => go::<f32>(fl, e, xs),
    }))
    .map_err(panic_msg)
}
