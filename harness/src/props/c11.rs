//! C11: dispersion, degrees of freedom, covariance, Wald z.
use super::common::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s) = (&a.p, &a.st);
        let k = p.k;
        ctx.transitions += 4;
        let phi = a.s(&Q::Disp)?;
        let bm = p.bmag(&a.b);
        let drel = 1e-12 * bm * s.dev_scale;
        if !crate::refm::free_disp(p.c.fl) {
            if phi != 1. {
                return Err(format!("dispersion of a family without one is {phi}"));
            }
        } else if s.phi.is_finite() {
            let den = (1. - k as f64 / p.n_eff()) * p.sum_w();
            if den > 1e-6 * p.sum_w() {
                ctx.within("dispersion", phi, s.phi, drel / den + 1e-11 * p.sum_w() / den * s.phi)?;
            }
        } else if phi.is_finite() && s.dev > drel {
            return Err(format!("dispersion is {phi} for a model with as many parameters as observations"));
        }
        let ndf = a.s(&Q::Ndf)?;
        ctx.within("ndf", ndf, p.n_obs() - k as f64, 1e-9)?;
        ctx.within("number of observations", a.m.n_obs(), p.n_obs(), 1e-9)?;
        ctx.within("effective number of observations", a.m.n_eff(), p.n_eff(), 1e-9 * p.n_eff())?;
        let dev = a.s(&Q::Dev)?;
        ctx.within("deviance", dev, s.dev, drel)?;
        if !phi.is_finite() {
            ctx.count("no finite dispersion");
            return Ok(());
        }
        let cov = a.q(&Q::Cov)?;
        if cov.len() != k * k {
            return Err(format!("covariance has {} entries", cov.len()));
        }
        // the definition, with the library's own dispersion
        let mut want = s.cov();
        if s.phi > 0. {
            want.iter_mut().for_each(|r| r.iter_mut().for_each(|x| *x *= phi / s.phi));
        }
        let rel = 1e-13 / a.eig * bm * s.vmax;
        // a perfect fit leaves nothing but rounding to scale by
        let iv = s.inv.as_ref().unwrap();
        let floor = |j: usize| 1e-9 * phi * iv[j][j];
        if s.phi > 0. && (!crate::refm::free_disp(p.c.fl) || s.dev > 1e-7 * s.dev_scale) {
            for i in 0..k {
                for j in 0..k {
                    let t = rel * phi * (iv[i][i] * iv[j][j]).sqrt() * 10.;
                    ctx.within("covariance", cov[i * k + j], want[i][j], t).map_err(|m| format!("[{i},{j}] {m}; library {cov:?}, definition {want:?}"))?;
                    ctx.within("covariance symmetry", cov[i * k + j], cov[j * k + i], t)?;
                }
                if !(cov[i * k + i] > 0.) && want[i][i] > floor(i) {
                    return Err(format!("variance of coefficient {i} is {}", cov[i * k + i]));
                }
            }
            let z = a.q(&Q::WaldZ)?;
            for j in 0..k {
                if !(want[j][j] > floor(j)) {
                    // (a penalized coefficient the data say nothing about has no error)
                    ctx.count("coefficient without sampling error");
                    continue;
                }
                let w = a.b[j] / want[j][j].sqrt();
                ctx.within("wald z", z[j], w, rel * 10. * (w.abs() + 1e-3) * (phi * iv[j][j] / want[j][j])).map_err(|m| format!("[{j}] {m}"))?;
            }
        }
        Ok(())
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    vec![Group { name: "covariance", plans: plans(th, &regs, &BUILTIN), check }]
}
