//! C13: p-values.
use super::common::*;
use crate::cdf::*;
use crate::refm::*;
use crate::space::*;
use crate::stats::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s) = (&a.p, &a.st);
        let fl = p.c.fl;
        let free = free_disp(fl);
        let ndf = p.n_obs() - p.k as f64;
        let bm = p.bmag(&a.b);
        ctx.transitions += 3;
        let pl = a.s(&Q::PLr)?;
        // monotone in the statistic: an interval of statistics gives an interval of p-values
        let mut interval = |k: &'static str, got: f64, f: &dyn Fn(f64) -> f64, stat: f64, e: f64| -> Result<(), String> {
            if !(-1e-12..=1. + 1e-12).contains(&got) {
                return Err(format!("{k} is {got}"));
            }
            let (hi, lo) = (f(stat - e), f(stat + e));
            // the t and F tails lose half the digits of a vanishing statistic
            // (relative, so that tails are decided, too)
            let tol = 1e-290 + 1e-8 * hi + if stat.abs() < 1e-5 { 1e-6 } else { 0. };
            if got < lo - tol || got > hi + tol {
                return Err(format!("{k}: library gives {got:e}, tail probability of {stat:e} is {:e} (between {lo:e} and {hi:e})", f(stat)));
            }
            ctx.dev(k, (lo - got).max(got - hi).max(0.) / tol);
            Ok(())
        };
        match null_model(p) {
            Some((b0, l0)) => {
                let om0 = p.lin(&b0);
                let ls: f64 = p.wsum(|i| (1. + ll(fl, p.y[i], om0[i]).abs() + (p.y[i] * om0[i]).abs() + mu(fl, om0[i]).abs()));
                let stat = 2. * (p.obj(&a.b) - l0);
                let e = 1e-10 * bm * (ls + s.dev_scale + p.penalty(&a.b));
                let k = case.d.p as f64;
                if case.d.p == 0 {
                    if pl != 1. {
                        return Err(format!("omnibus p-value without covariates is {pl}"));
                    }
                } else {
                    interval("omnibus p-value", pl, &|x| chi2_sf(x.max(0.), k), stat, e)?;
                }
            }
            None => {}
        }
        let dof_ok = !free || (s.phi.is_finite() && s.phi > 0. && ndf > 0. && s.dev > 1e-7 * s.dev_scale && p.n_eff() - p.k as f64 > 1e-3);
        if !dof_ok {
            ctx.count("saturated");
            return Ok(());
        }
        let pw = a.q(&Q::PWald)?;
        let cov = s.cov();
        let rel = 1e-12 / a.eig * bm * s.vmax + 1e-11 * bm * s.dev_scale / s.dev.max(1e-300) * free as i32 as f64;
        for j in 0..p.k {
            if !(cov[j][j] > 1e-9 * s.phi * s.inv.as_ref().unwrap()[j][j]) {
                // (a penalized coefficient the data say nothing about has no error)
                continue;
            }
            let z = (a.b[j] / cov[j][j].sqrt()).abs();
            let f = |z: f64| if free { t_two(z.max(0.), ndf) } else { 2. * norm_sf(z.max(0.)) };
            interval("wald p-value", pw[j], &f, z, 100. * rel * (z + 1e-3) * (s.phi * s.inv.as_ref().unwrap()[j][j] / cov[j][j])).map_err(|m| format!("[{j}] {m}"))?;
        }
        if !concave(fl) {
            return Ok(());
        }
        // exact: refit without each covariate
        let mut want = vec![];
        let mut all_wp = true;
        for j in 0..p.k {
            let q = p.without(j);
            if q.k == 0 {
                let l = q.loglik(&[]);
                if !l.is_finite() {
                    all_wp = false;
                    want.push(None);
                } else {
                    want.push(Some(q.deviance(&[])));
                }
                continue;
            }
            match q.solve() {
                Some(o) if q.well_posed(&o) && (p.c.l1 > 0. || regular(&q, &o.b).is_some()) => want.push(Some(q.deviance(&o.b))),
                _ => {
                    all_wp = false;
                    want.push(None)
                }
            }
        }
        let got = match a.fit.get(&Q::PExact) {
            Out::Val(_, v) => v,
            Out::Err(e) if !all_wp || !canonical(fl) || p.c.l1 > 0. => {
                ctx.count("exact p-values: a reduced model has no fit");
                let _ = e;
                return Ok(());
            }
            o => return Err(format!("exact p-values: {} although every reduced model has a unique optimum", o.show())),
        };
        if got.len() != p.k {
            return Err(format!("{} exact p-values", got.len()));
        }
        let mut interval = |k: &'static str, got: f64, f: &dyn Fn(f64) -> f64, stat: f64, e: f64| -> Result<(), String> {
            if !(-1e-12..=1. + 1e-12).contains(&got) {
                return Err(format!("{k} is {got}"));
            }
            let (hi, lo) = (f(stat - e), f(stat + e));
            let tol = 1e-290 + 1e-8 * hi + if stat.abs() < 1e-5 * (1. + s.phi) { 1e-5 } else { 0. };
            if got < lo - tol || got > hi + tol {
                return Err(format!("{k}: library gives {got:e}, tail probability of {stat:e} is {:e} (between {lo:e} and {hi:e})", f(stat)));
            }
            ctx.dev(k, (lo - got).max(got - hi).max(0.) / tol);
            Ok(())
        };
        for j in 0..p.k {
            let Some(dr) = want[j] else { continue };
            let delta = dr - s.dev;
            // (the deviance is stationary at an unpenalized fit only, so the last step shows with a ridge)
            let e = if p.c.l1 > 0. { 3e-4 } else if p.c.l2 > 0. { 1e-5 } else { 1e-8 } * bm * (s.dev_scale + dr.abs());
            let f = |x: f64| if free { f_sf((x / s.phi).max(0.), 1., ndf) } else { chi2_sf(x.max(0.), 1.) };
            interval("exact p-value", got[j], &f, delta, e).map_err(|m| format!("[{j}] {m}"))?;
        }
        ctx.count("exact p-values compared");
        Ok(())
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    vec![Group { name: "pvalues", plans: plans(th, &regs, &BUILTIN), check }]
}
