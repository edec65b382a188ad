//! C12: null model and the omnibus tests.
use super::common::*;
use crate::refm::*;
use crate::space::*;
use crate::stats::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s) = (&a.p, &a.st);
        let fl = p.c.fl;
        let tn = a.s(&Q::TestNdf)?;
        if tn != case.d.p as f64 {
            return Err(format!("test_ndf is {tn} with {} covariates", case.d.p));
        }
        let Some((b0, l0)) = null_model(p) else {
            ctx.count("null model without finite optimum");
            return Ok(());
        };
        ctx.transitions += 4;
        let bm = p.bmag(&a.b);
        let om0 = p.lin(&b0);
        let ls: f64 = p.wsum(|i| (1. + ll(fl, p.y[i], om0[i]).abs() + (p.y[i] * om0[i]).abs() + mu(fl, om0[i]).abs()));
        let nl = a.s(&Q::NullLike)?;
        ctx.within("null likelihood", nl, l0, 1e-10 * ls)?;
        let lr = a.s(&Q::Lr)?;
        let obj = p.obj(&a.b);
        let lscale = ls + s.dev_scale + p.penalty(&a.b);
        ctx.within("likelihood ratio", lr, 2. * (obj - l0), 1e-10 * bm * lscale)?;
        if concave(fl) && lr < -(if p.c.l1 > 0. { 1e-7 } else { 1e-10 }) * bm * lscale {
            return Err(format!("negative likelihood ratio {lr}"));
        }
        if case.d.p == 0 {
            ctx.within("likelihood ratio of the null model itself", lr, 0., 1e-10 * bm * lscale)?;
        }
        // quadratic forms at the null parameters
        if regular(p, &b0).is_none() {
            ctx.count("null at an irregular point");
        } else {
            let e0 = regular(p, &b0).unwrap();
            let g = p.grad(&b0);
            let i0 = p.info(&b0);
            if let Some(iv) = inv(&i0) {
                let sc = dot(&g, &matvec(&iv, &g));
                let d: Vec<f64> = (0..p.k).map(|j| a.b[j] - b0[j]).collect();
                let wa = dot(&d, &matvec(&i0, &d));
                let dm: f64 = (0..p.k).map(|i| (0..p.k).map(|j| (d[i] * i0[i][j] * d[j]).abs()).sum::<f64>()).sum();
                let st0 = Stats::new(p, &b0);
                let rel = 1e-11 * bm * st0.vmax / e0;
                let amp = ls / 1e3;
                // with an offset the null parameters come from an iterative fit, whose distance
                // from the optimum is of the order of the root of its tolerance
                let it = if p.c.icpt && case.d.off.is_some() { 3e-5 } else { 0. };
                let slack = it / e0.min(1.) * ls.max(1.);
                let got = a.s(&Q::ScoreTest)?;
                ctx.within("score statistic", got, sc, rel * 10. * (sc.abs() + amp) + slack)?;
                let gw = a.s(&Q::Wald)?;
                ctx.within("wald statistic", gw, wa, rel * (wa.abs() + dm) * 10. + 1e-7 * amp + slack)?;
                if fl == Fl::Lin && p.c.l1 == 0. && p.c.l2 == 0. {
                    ctx.within("linear: score statistic is the likelihood ratio", got, lr, (rel * 100. + 1e-9) * (sc.abs() + lscale))?;
                    ctx.within("linear: wald statistic is the likelihood ratio", gw, lr, (rel * 100. + 1e-9) * (sc.abs() + lscale))?;
                }
                // against the null, explicitly
                let ga = a.s(&Q::ScoreTestAgainst(b0.clone()))?;
                ctx.within("score statistic against the null parameters", ga, sc, rel * 10. * (sc.abs() + amp))?;
                let wg = a.s(&Q::WaldAgainst(b0.clone()))?;
                ctx.within("wald statistic against the null parameters", wg, wa, rel * (wa.abs() + dm) * 10. + 1e-9 * amp)?;
                let lg = a.s(&Q::LrAgainst(b0.clone()))?;
                ctx.within("likelihood ratio against the null parameters", lg, 2. * (obj - l0), 1e-10 * bm * lscale)?;
            }
        }
        if fl == Fl::Lin {
            let d0: f64 = 2. * (p.wsum(|i| sat(fl, p.y[i])) - l0);
            let r = a.s(&Q::RSq)?;
            if d0 > 1e-6 * lscale {
                ctx.within("r squared", r, 1. - s.dev / d0, 1e-10 * bm * lscale / d0)?;
                // (least squares with an offset need not beat the null mean by shrinkage alone)
                if p.c.icpt && !(r > -1e-9 * lscale / d0 && r < 1. + 1e-9) {
                    return Err(format!("r squared is {r}"));
                }
            }
            let rss = a.s(&Q::Rss)?;
            ctx.within("residual sum of squares", rss, p.wsum(|i| s.resp[i] * s.resp[i]), 1e-11 * bm * s.dev_scale)?;
        }
        Ok(())
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    vec![Group { name: "null", plans: plans(th, &regs, &BUILTIN), check }]
}
