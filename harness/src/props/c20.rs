//! C20: information criteria.
use super::common::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s) = (&a.p, &a.st);
        let (aic, bic) = (a.s(&Q::Aic)?, a.s(&Q::Bic)?);
        ctx.transitions += 2;
        let lw: f64 = (0..p.n).map(|i| p.f[i] * p.w[i].ln()).sum();
        let lwm: f64 = (0..p.n).map(|i| p.f[i] * p.w[i].ln().abs()).sum();
        let bm = p.bmag(&a.b);
        let k = p.k as f64;
        let ls: f64 = p.wsum(|i| 1. + ll(p.c.fl, p.y[i], s.om[i]).abs() + (p.y[i] * s.om[i]).abs() + s.mu[i].abs()) + p.penalty(&a.b);
        let t = 1e-12 * bm * (s.dev_scale + ls + lwm + k * p.n_obs().ln().abs());
        ctx.within("aic", aic, s.dev + 2. * k - 2. * lw, t)?;
        ctx.within("bic", bic, k * p.n_obs().ln() - 2. * p.obj(&a.b) - 2. * lw, t * 10.)?;
        // through the library's own numbers
        ctx.within("aic from the deviance", aic, a.s(&Q::Dev)? + 2. * k - 2. * lw, t)?;
        ctx.within("bic from the likelihood", bic, k * a.m.n_obs().ln() - 2. * a.fit.model_like() - 2. * lw, t)?;
        // nested models: leave out the last covariate, then all
        if case.d.p == 0 || !concave(p.c.fl) {
            return Ok(());
        }
        for keep in [case.d.p - 1, 0] {
            if keep == 0 && !p.c.icpt {
                continue;
            }
            let dd = Data { x: case.d.x.iter().map(|r| r[..keep].to_vec()).collect(), p: keep, ..case.d.clone() };
            let Ok(m) = ctx.build(&mk_build(&dd, &p.c, case.conf.fp)) else { return Err("the nested model does not build".into()) };
            ctx.transitions += 1;
            ctx.inner_states += 1;
            let Ok(f2) = m.fit(&how(&p.c)) else {
                ctx.count("nested model has no fit");
                continue;
            };
            let dk = (case.d.p - keep) as f64;
            let q = Prob::new(&dd, p.c);
            let b2 = f2.result();
            let d2 = want(&*f2, &Q::Dev)?[0];
            let t2 = t + 1e-12 * q.bmag(&b2) * (d2 + ls);
            ctx.within("difference of aic", want(&*f2, &Q::Aic)?[0] - aic, d2 - s.dev - 2. * dk, t2)?;
            ctx.within("difference of bic", want(&*f2, &Q::Bic)?[0] - bic, 2. * (a.fit.model_like() - f2.model_like()) - dk * p.n_obs().ln(), t2)?;
            if p.c.l1 == 0. && p.c.l2 == 0. {
                // the likelihood-ratio statistic against the nested fit's parameters
                let mut full = b2.clone();
                full.resize(p.k, 0.);
                let lr = a.s(&Q::LrAgainst(full))?;
                ctx.within("likelihood ratio is the change of deviance", lr, d2 - s.dev, 1e-11 * bm * q.bmag(&b2) * (s.dev_scale + ls + d2))?;
            }
            ctx.count("nested models compared");
        }
        Ok(())
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.), (0.2, 0.3)];
    vec![Group { name: "criteria", plans: plans(th, &regs, &BUILTIN), check }]
}
