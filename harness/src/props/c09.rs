//! C09: hat matrix, leverage, influence, Cook's distance, exact leave-one-out refits.
use super::c03::constant;
use super::c04::take;
use super::common::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, s, d) = (&a.p, &a.st, &case.d);
        let (n, k) = (p.n, p.k);
        let hat = a.q(&Q::Hat)?;
        let lev = a.q(&Q::Lev)?;
        let cooks = a.q(&Q::Cooks)?;
        let infl = a.q(&Q::Infl)?;
        ctx.transitions += 4;
        if hat.len() != n * n || lev.len() != n || cooks.len() != n || infl.len() != n * k {
            return Err(format!("hat, leverage, Cook's distances, influence have {}, {}, {}, {} entries", hat.len(), lev.len(), cooks.len(), infl.len()));
        }
        let bm = p.bmag(&a.b);
        let iv = s.inv.as_ref().unwrap();
        let quad: Vec<f64> = (0..n).map(|i| dot(&p.xr[i], &matvec(iv, &p.xr[i])).max(0.).sqrt()).collect();
        let he = 1e-12 / a.eig * bm * s.vmax;
        let wcooks = s.cooks(p);
        let winfl = s.infl(p);
        let mut trace = 0.;
        for i in 0..n {
            for j in 0..n {
                let t = he * s.vamp[i] * s.v[i] * s.de[i].abs() * quad[i] * quad[j] * p.wt[j] * s.de[j].abs() + 1e-14;
                ctx.within("hat matrix", hat[i * n + j], s.hat[i][j], t).map_err(|m| format!("[{i},{j}] {m}; library {hat:?}, definition {:?}", s.hat))?;
            }
            if lev[i] != hat[i * n + i] {
                return Err(format!("leverage {i} is {} and the diagonal of the hat matrix {}", lev[i], hat[i * n + i]));
            }
            let slack = 10. * he + 1e-12;
            if !(lev[i] >= -slack && lev[i] <= 1. + slack) {
                return Err(format!("leverage {i} is {}", lev[i]));
            }
            trace += lev[i];
            let omh = 1. - s.lev[i];
            if omh > 1e-6 {
                let e = 1e-13 * (bm * s.dm[i].abs() + p.y[i].abs() + s.mu[i].abs());
                let rel = he * s.vamp[i] / omh;
                if s.phi.is_finite() && s.phi > 0. && (!free_disp(p.c.fl) || s.dev > 1e-7 * s.dev_scale) {
                    let pe = e * (p.w[i] / s.v[i]).sqrt() + 1e-13 * s.vamp[i] * bm * s.pear[i].abs();
                    let c = |r2: f64| r2 * s.lev[i] / (k as f64 * s.phi * omh * omh);
                    let prel = 1e-12 * bm * s.dev_scale / s.dev;
                    let t = (4. * rel + if free_disp(p.c.fl) { prel } else { 0. } + 1e-12) * wcooks[i] + c(2. * s.pear[i].abs() * pe + pe * pe) + he * s.pear[i].powi(2) / (s.phi * omh * omh);
                    ctx.within("cooks distance", cooks[i], wcooks[i], t).map_err(|m| format!("[{i}] {m}"))?;
                }
                for j in 0..k {
                    let sc = p.wt[i] * s.de[i].abs() / omh * quad[i] * iv[j][j].sqrt();
                    let t = sc * (e * 10. + (rel * 10. + 1e-12 * s.vamp[i]) * s.resp[i].abs());
                    ctx.within("influence", infl[i * k + j], winfl[i][j], t).map_err(|m| format!("row {i} coefficient {j}: {m}"))?;
                }
            }
        }
        if p.c.l2 == 0. {
            ctx.within("trace of the hat matrix", trace, k as f64, n as f64 * 10. * he + 1e-12)?;
        } else if trace > k as f64 + n as f64 * 10. * he {
            return Err(format!("effective number of parameters {trace} of a ridge fit exceeds {k}"));
        }
        if fam(p.c.fl) == Fam::Lin && p.c.l1 == 0. && p.c.l2 == 0. {
            for i in 0..n {
                let fitted: f64 = (0..n).map(|j| hat[i * n + j] * (p.y[j] - p.off[j])).sum();
                let m: f64 = (0..n).map(|j| (hat[i * n + j] * (p.y[j] - p.off[j])).abs()).sum();
                ctx.within("linear: hat times response is the fitted value", fitted, s.om[i] - p.off[i], 100. * he * (m + bm))?;
            }
        }
        // refits without each row
        let many = n > 8 && (case.letters.len() > 1 || case.letters.first().is_some_and(|l| *l > 1));
        if many || !concave(p.c.fl) || (p.c.l1 > 0. && n > 8) {
            return Ok(());
        }
        let mut red = vec![];
        let mut posed = true;
        for i in 0..n {
            let rows: Vec<usize> = (0..n).filter(|&r| r != i).collect();
            let f = d.f.as_ref().map(|f| rows.iter().map(|&r| f[r]).collect::<Vec<_>>());
            let dd = take(d, &rows, f);
            if dd.y.is_empty() || (0..dd.y.len()).all(|r| dd.f.as_ref().is_some_and(|f| f[r] == 0)) {
                posed = false;
                red.push(None);
                continue;
            }
            let q = Prob::new(&dd, p.c);
            // (a covariate that is constant without the row is penalized on its own scale)
            let amb = (p.c.l2 > 0. || p.c.l1 > 0.) && p.c.std && (0..d.p).any(|j| constant(&dd, &q, j));
            match q.solve() {
                Some(o) if !amb && q.well_posed(&o) && regular(&q, &o.b).is_some() => red.push(Some((q, o))),
                _ => {
                    posed = false;
                    red.push(None)
                }
            }
        }
        ctx.transitions += n as u64;
        let loo = match a.fit.get(&Q::Loo) {
            Out::Val(_, v) => v,
            Out::Err(_) if !posed || !canonical(p.c.fl) || p.c.l1 > 0. => {
                ctx.count("leave-one-out: a reduced problem has no fit");
                return Ok(());
            }
            o => return Err(format!("leave-one-out: {} although every reduced problem has a unique optimum", o.show())),
        };
        if loo.len() != n * k {
            return Err(format!("leave-one-out: {} values", loo.len()));
        }
        for i in 0..n {
            let Some((q, o)) = &red[i] else { continue };
            let b = &loo[i * k..(i + 1) * k];
            let scale: f64 = 1. + q.wsum(|r| q.y[r].abs() + 1. + ll(p.c.fl, q.y[r], dot(&q.xr[r], &o.b) + q.off[r]).abs()) + q.penalty(&o.b);
            let t = if p.c.l1 > 0. { 1e-6 } else { 1e-10 } * scale * q.bmag(&o.b);
            let gap = o.obj - q.obj(b);
            if !(gap <= t) {
                return Err(format!("leave-one-out without row {i}: coefficients {b:?} have objective {}, a fit without the row has {} at {:?}", q.obj(b), o.obj, o.b));
            }
            ctx.dev("leave-one-out objective", gap.max(0.) / t);
            if fam(p.c.fl) == Fam::Lin && p.c.l1 == 0. && p.c.l2 == 0. && s.lev[i] < 1. - 1e-6 {
                let iq = inv(&q.info(&o.b));
                for j in 0..k {
                    let e = iq.as_ref().map(|m| m[j][j].sqrt()).unwrap_or(1.);
                    let t = 1e-9 / a.eig.min(o.min_eig) * (bm + q.bmag(&o.b)) * (e + a.b[j].abs() + o.b[j].abs()) / (1. - s.lev[i]);
                    ctx.within("linear: one-step influence is the exact difference", a.b[j] - infl[i * k + j], o.b[j], t).map_err(|m| format!("row {i} coefficient {j}: {m}"))?;
                }
            }
        }
        ctx.count("leave-one-out compared");
        Ok(())
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    let mut ps = plans(th, &regs, &BUILTIN);
    if !th {
        let f = Prod { reg: regs.to_vec(), wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], ..full() };
        ps[1].confs = f.confs();
        ps[3].confs = Prod { wp: vec![Wp::Wf0], ..f.clone() }.confs();
    }
    vec![Group { name: "influence", plans: ps, check }]
}
