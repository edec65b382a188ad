//! Everything a fit reports, with the accuracy each value can be expected to have, and mappings
//! between the reports of equivalent problems.
//!
//! The accuracy is measured, not guessed: each statistic's definition is evaluated at the fit and
//! at coefficient vectors around it whose objective is within the solver's tolerance.
use crate::cdf::*;
use crate::props::common::*;
use crate::refm::*;
use crate::space::*;
use crate::stats::*;
use sut::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ax {
    /// scalar
    S,
    /// coefficients
    B,
    /// per-coefficient statistic, invariant up to the sign of the coefficient
    Z,
    /// per-coefficient statistic, invariant
    T,
    /// gradient
    G,
    /// per row
    R,
    /// per row, but about the whole group of identical rows
    Rg,
    /// covariance-like
    Cov,
    /// information-like
    Inf,
    /// per row: coefficient differences, about the whole group
    RPg,
    /// per row: coefficients, about the whole group
    RBg,
    /// row by covariate
    RC,
    /// row by row
    RR,
}
#[derive(Clone, Debug)]
pub struct Fact {
    pub name: &'static str,
    pub ax: Ax,
    pub v: Vec<f64>,
    pub tol: Vec<f64>,
}
#[derive(Clone, Copy, PartialEq)]
pub struct Want {
    /// exact p-values and leave-one-out refits too
    pub refits: bool,
    pub hat: bool,
}

struct Rf {
    name: &'static str,
    ax: Ax,
    q: Option<Q>,
    v: Vec<f64>,
    mag: Vec<f64>,
}
fn sq(v: &[f64]) -> Vec<f64> {
    v.iter().map(|x| x * x).collect()
}
/// Definitions of all statistics at coefficients b, with null coefficients b0.
fn defs(p: &Prob, d: &Data, b: &[f64], b0: Option<&[f64]>, pt: Option<&[f64]>, hat: bool) -> Vec<Rf> {
    let s = Stats::new(p, b);
    let fl = p.c.fl;
    let free = free_disp(fl);
    let k = p.k;
    let n = p.n;
    let mut out: Vec<Rf> = vec![];
    let Some(iv) = s.inv.clone() else { return out };
    let ndf = p.n_obs() - k as f64;
    let obj = p.obj(b);
    let ls: f64 = p.wsum(|i| (1. + ll(fl, p.y[i], s.om[i]).abs() + (p.y[i] * s.om[i]).abs() + s.mu[i].abs() + p.y[i].abs())) + s.dev_scale + p.penalty(b);
    let dead = f64::INFINITY;
    // dispersion-dependent statistics of a (nearly) perfect fit
    let drel = if free { if s.phi.is_finite() && s.dev > 1e-6 * s.dev_scale { s.dev_scale / s.dev } else { dead } } else { 1. };
    macro_rules! add {
        ($n:expr, $ax:ident, $q:expr, $v:expr, $m:expr) => {
            out.push(Rf { name: $n, ax: Ax::$ax, q: $q, v: $v, mag: $m })
        };
    }
    add!("model likelihood", S, None, vec![obj], vec![ls]);
    add!("deviance", S, Some(Q::Dev), vec![s.dev], vec![ls]);
    add!("dispersion", S, Some(Q::Disp), vec![s.phi], vec![if free { s.phi * drel } else { 0. }]);
    add!("ndf", S, Some(Q::Ndf), vec![ndf], vec![1.]);
    add!("test_ndf", S, Some(Q::TestNdf), vec![d.p as f64], vec![0.]);
    let lw: f64 = (0..n).filter(|&i| p.f[i] > 0.).map(|i| p.f[i] * p.w[i].ln()).sum();
    let lwm: f64 = (0..n).filter(|&i| p.f[i] > 0.).map(|i| p.f[i] * p.w[i].ln().abs()).sum();
    add!("aic", S, Some(Q::Aic), vec![s.dev + 2. * k as f64 - 2. * lw], vec![ls + k as f64 + lwm]);
    add!("bic", S, Some(Q::Bic), vec![k as f64 * p.n_obs().ln() - 2. * obj - 2. * lw], vec![2. * ls + k as f64 * 5. + lwm]);
    match b0 {
        Some(b0) => {
            let l0 = p.null().loglik(&b0[..if p.c.icpt { 1 } else { 0 }]);
            let om0 = p.lin(b0);
            let ls0: f64 = ls + p.wsum(|i| (1. + ll(fl, p.y[i], om0[i]).abs() + (p.y[i] * om0[i]).abs() + mu(fl, om0[i]).abs()));
            add!("null likelihood", S, Some(Q::NullLike), vec![l0], vec![ls0]);
            let lr = 2. * (obj - l0);
            add!("likelihood ratio", S, Some(Q::Lr), vec![lr], vec![ls0]);
            let pl = if d.p == 0 { 1. } else { chi2_sf(lr.max(0.), d.p as f64) };
            let root = if lr < 1e-3 { 1e-2 / 1e-9 } else { 1e2 };
            add!("omnibus p-value", S, Some(Q::PLr), vec![pl], vec![root]);
            let g = p.grad(b0);
            let i0 = p.info(b0);
            let (sc, m0) = match inv(&i0) {
                Some(iv) if regular(p, b0).is_some() => (dot(&g, &matvec(&iv, &g)), ls0 / regular(p, b0).unwrap().min(1.)),
                _ => (f64::NAN, dead),
            };
            add!("score test", S, Some(Q::ScoreTest), vec![sc], vec![m0]);
            let df: Vec<f64> = (0..k).map(|j| b[j] - b0[j]).collect();
            let wa = dot(&df, &matvec(&i0, &df));
            let dm: f64 = (0..k).map(|i| (0..k).map(|j| (df[i] * i0[i][j] * df[j]).abs()).sum::<f64>()).sum();
            add!("wald test", S, Some(Q::Wald), vec![wa], vec![m0 + dm]);
        }
        None => {
            for (nm, q) in [("null likelihood", Q::NullLike), ("likelihood ratio", Q::Lr), ("omnibus p-value", Q::PLr), ("score test", Q::ScoreTest), ("wald test", Q::Wald)] {
                add!(nm, S, Some(q), vec![f64::NAN], vec![dead]);
            }
        }
    }
    let sc = 1. + p.wt.iter().zip(&p.y).map(|(w, y)| w * (y.abs() + 1.)).sum::<f64>();
    let bm: Vec<f64> = (0..k).map(|j| b[j].abs() + (iv[j][j] * sc).sqrt()).collect();
    add!("coefficients", B, None, b.to_vec(), bm.clone());
    let cov = s.cov();
    let cd: Vec<f64> = (0..k).map(|j| s.phi * iv[j][j]).collect();
    let cflat: Vec<f64> = cov.iter().flatten().cloned().collect();
    let cm: Vec<f64> = (0..k * k).map(|e| (cd[e / k] * cd[e % k]).sqrt() * drel).collect();
    add!("covariance", Cov, Some(Q::Cov), cflat, cm);
    let (mut z, mut zm, mut pw, mut pm) = (vec![], vec![], vec![], vec![]);
    for j in 0..k {
        let alive = cov[j][j] > 1e-6 * cd[j];
        let zz = b[j] / cov[j][j].sqrt();
        z.push(zz);
        let m = if alive { (zz.abs() + 1.) * drel * (cd[j] / cov[j][j]) } else { dead };
        zm.push(m);
        let ok = alive && (!free || ndf > 0.);
        pw.push(if !ok { f64::NAN } else if free { t_two(zz.abs(), ndf) } else { 2. * norm_sf(zz.abs()) });
        pm.push(if ok { m + if zz.abs() < 1e-5 { 1e4 } else { 10. } } else { dead });
    }
    add!("wald z", Z, Some(Q::WaldZ), z, zm);
    add!("wald p-value", T, Some(Q::PWald), pw, pm);
    if let Some(pt) = pt {
        let g = p.grad(pt);
        let om = p.lin(pt);
        let gm: Vec<f64> = (0..k)
            .map(|j| p.wsum(|i| (p.y[i].abs() + mu(fl, om[i]).abs()) * (deta(fl, om[i]) * p.xr[i][j]).abs()) + p.c.l2 * p.sig[j].powi(2) * pt[j].abs() + p.c.l1 * p.sig[j])
            .collect();
        add!("score", G, Some(Q::Score(pt.to_vec())), g, gm);
        let f = p.info(pt);
        let fm: Vec<f64> = (0..k * k).map(|e| (f[e / k][e / k] * f[e % k][e % k]).sqrt()).collect();
        add!("fisher", Inf, Some(Q::Fisher(pt.to_vec())), f.iter().flatten().cloned().collect(), fm);
    }
    let rm: Vec<f64> = (0..n).map(|i| p.y[i].abs() + s.mu[i].abs() + s.dm[i].abs()).collect();
    add!("response residuals", R, Some(Q::ResResp), s.resp.clone(), rm.clone());
    let wm: Vec<f64> = (0..n).map(|i| rm[i] / s.dm[i].abs()).collect();
    add!("working residuals", R, Some(Q::ResWork), s.work.clone(), wm.clone());
    let pmg: Vec<f64> = (0..n).map(|i| rm[i] * (p.w[i] / s.v[i]).sqrt()).collect();
    add!("pearson residuals", R, Some(Q::ResPear), s.pear.clone(), pmg.clone());
    add!("squared deviance residuals", R, Some(Q::ResDev), s.dt.clone(), s.dt_scale.clone());
    let omh: Vec<f64> = s.lev.iter().map(|h| 1. - h).collect();
    let hd = |i: usize| if omh[i] > 1e-3 { 1. / omh[i] } else { dead };
    add!("squared standardized deviance residuals", R, Some(Q::ResDevStd), (0..n).map(|i| s.dt[i] / (s.phi * omh[i])).collect(), (0..n).map(|i| (s.dt_scale[i] / (s.phi * omh[i])) * hd(i) * drel).collect());
    add!("standardized pearson residuals", R, Some(Q::ResPearStd), (0..n).map(|i| s.pear[i] / (s.phi * omh[i]).sqrt()).collect(), (0..n).map(|i| pmg[i] / (s.phi * omh[i]).sqrt() * hd(i) * drel).collect());
    let st = s.student(p);
    add!("squared studentized residuals", Rg, Some(Q::ResStudent), (0..n).map(|i| st[i].0 / st[i].1).collect(), (0..n)
        .map(|i| {
            let left = s.dev - p.f[i] * (s.dt[i] + s.lev[i] / omh[i] * s.pear[i].powi(2));
            let s1 = p.sum_w() - p.wt[i];
            let s2 = if p.has_w { (0..n).map(|j| p.f[j] * p.w[j] * p.w[j]).sum::<f64>() - p.f[i] * p.w[i] * p.w[i] } else { s1 };
            let dof = (s1 - k as f64 * s2 / s1) / s1;
            if free && !(left > 1e-4 * s.dev && dof > 1e-4 && st[i].1 > 0.) { return dead }
            let amp = if free { s.dev / left / dof.min(1.) } else { 1. };
            (s.dt_scale[i] + pmg[i] * pmg[i]) / st[i].1 * hd(i) * hd(i) * hd(i) * drel * amp
        })
        .collect());
    add!("leverage", R, Some(Q::Lev), s.lev.clone(), vec![1.; n]);
    add!("cook's distances", Rg, Some(Q::Cooks), s.cooks(p), (0..n).map(|i| pmg[i] * pmg[i] / (s.phi * k as f64) * hd(i) * hd(i) * hd(i) * drel).collect());
    let inf = s.infl(p);
    add!("influence", RPg, Some(Q::Infl), inf.iter().flatten().cloned().collect(), (0..n * k).map(|e| bm[e % k] * hd(e / k) * hd(e / k)).collect());
    add!("predictions", R, Some(Q::Predict(d.x.clone(), d.p, d.off.clone())), s.mu.clone(), rm.clone());
    add!("partial residuals", RC, Some(Q::ResPart), s.resid_part(p, d, b), (0..n * d.p).map(|e| wm[e / d.p] + p.bmag(b)).collect());
    if let Some(q) = s.quantile(p) {
        add!("quantile residuals", R, Some(Q::ResQuant), q.iter().map(|x| x.0).collect(), q.iter().map(|x| x.1 * drel).collect());
    }
    if hat {
        add!("hat matrix", RR, Some(Q::Hat), s.hat.iter().flatten().cloned().collect(), (0..n * n).map(|e| (s.lev[e / n] * s.lev[e % n]).abs().sqrt() + s.hat[e / n][e % n].abs()).collect());
    }
    if fam(fl) == Fam::Lin {
        let l0 = b0.map(|b0| p.null().loglik(&b0[..if p.c.icpt { 1 } else { 0 }])).unwrap_or(f64::NAN);
        let d0: f64 = 2. * (p.wsum(|i| sat(fl, p.y[i])) - l0);
        add!("r squared", S, Some(Q::RSq), vec![1. - s.dev / d0], vec![if d0 > 1e-6 * ls { ls / d0 } else { dead }]);
        add!("residual sum of squares", S, Some(Q::Rss), vec![p.wsum(|i| s.resp[i].powi(2))], vec![ls]);
    }
    out
}
/// columns d with d d' summing to e * I^-1
fn directions(iv: &Mat, e: f64) -> Vec<Vec<f64>> {
    let k = iv.len();
    let mut l = vec![vec![0.; k]; k];
    for i in 0..k {
        for j in 0..=i {
            let mut s = iv[i][j];
            for q in 0..j {
                s -= l[i][q] * l[j][q];
            }
            l[i][j] = if i == j { s.max(0.).sqrt() } else if l[j][j] > 0. { s / l[j][j] } else { 0. };
        }
    }
    (0..k).map(|j| (0..k).map(|i| l[i][j] * e.sqrt()).collect()).collect()
}
/// parameters to query score and information at
pub fn point(p: &Prob, b: &[f64]) -> Option<Vec<f64>> {
    let q: Vec<f64> = b.iter().map(|x| x * (1. + 1. / 64.)).collect();
    let om = p.lin(&q);
    if om.iter().all(|&w| in_domain(p.c.fl, w) && w.abs() < if bounded(p.c.fl) || lk(p.c.fl) == Lk::Id { 1e6 } else { 12. }) && (!bounded(p.c.fl) || om.iter().all(|w| w.abs() > 1e-3)) {
        Some(q)
    } else {
        None
    }
}
/// Everything the fit at `a` reports.
pub fn facts(a: &At, want: Want, pt: Option<&[f64]>, loose: f64) -> Result<Vec<Fact>, String> {
    let (p, b, d) = (&a.p, &a.b, &a.case.d);
    let nm = null_model(p);
    let b0 = nm.as_ref().map(|x| x.0.as_slice());
    let base = defs(p, d, b, b0, pt, want.hat);
    let sc = 1. + p.wt.iter().zip(&p.y).map(|(w, y)| w * (y.abs() + 1.)).sum::<f64>();
    let e = 1e-12 * sc * loose * if p.c.l1 > 0. { 1e4 } else { 1. };
    let iv = a.st.inv.as_ref().unwrap();
    let f32_ = a.case.conf.fp == Fp::F32;
    let mut floor = 1e-9 + 1e-12 * p.bmag(b) * a.st.vmax / a.eig;
    if f32_ {
        floor = 1e-5 + 3e-6 * p.bmag(b) * a.st.vmax / a.eig;
    }
    let mut tol: Vec<Vec<f64>> = base.iter().map(|r| r.mag.iter().map(|m| if *m == 0. { 0. } else { m * floor }).collect()).collect();
    let mut vary = |q: Vec<Rf>| {
        for (i, r) in q.iter().enumerate() {
            for (j, x) in r.v.iter().enumerate() {
                let dl = (x - base[i].v[j]).abs();
                tol[i][j] += if dl.is_nan() { f64::INFINITY } else { 2. * dl };
            }
        }
    };
    for dir in directions(iv, e) {
        let bb: Vec<f64> = b.iter().zip(&dir).map(|(x, y)| x + y).collect();
        let q = defs(p, d, &bb, b0, pt, want.hat);
        if q.len() != base.len() {
            return Err("internal: definitions not evaluable around the fit".into());
        }
        vary(q);
    }
    if let (Some(b0), true) = (b0, p.c.icpt) {
        let q0 = p.null();
        let i0 = q0.info(&b0[..1])[0][0];
        let mut c0 = b0.to_vec();
        c0[0] += (e / i0).sqrt();
        vary(defs(p, d, b, Some(&c0), pt, want.hat));
    }
    let mut out = vec![];
    for (r, t) in base.into_iter().zip(tol) {
        let v = match &r.q {
            None if r.name == "coefficients" => b.clone(),
            None => vec![a.fit.model_like()],
            Some(q) => match a.fit.get(q) {
                Out::Val(_, v) => v,
                Out::NA => continue,
                o => return Err(format!("{}: {}", r.name, o.show())),
            },
        };
        if v.len() != r.v.len() {
            return Err(format!("{}: {} values, expected {}", r.name, v.len(), r.v.len()));
        }
        let v = if r.name.starts_with("squared ") { sq(&v) } else { v };
        out.push(Fact { name: r.name, ax: r.ax, v, tol: t });
    }
    if want.refits {
        // (the caller only asks for these where every reduced problem has a unique optimum)
        for (name, q) in [("exact p-values", Q::PExact), ("leave-one-out coefficients", Q::Loo)] {
            let v = match a.fit.get(&q) {
                Out::Val(_, v) => v,
                Out::Err(_) => continue,
                o => return Err(format!("{name}: {}", o.show())),
            };
            let k = p.k;
            if q == Q::PExact {
                let ok = !free_disp(p.c.fl) || (a.st.phi.is_finite() && a.st.dev > 1e-6 * a.st.dev_scale && p.n_obs() > k as f64);
                let t = v.iter().map(|x| if !ok { f64::INFINITY } else if *x > 0.99 { 2e-2 } else { 2e-4 }).collect();
                out.push(Fact { name, ax: Ax::T, v, tol: t });
            } else {
                let bm: Vec<f64> = (0..k).map(|j| b[j].abs() + (iv[j][j] * sc).sqrt()).collect();
                let t = (0..v.len())
                    .map(|x| {
                        let h = 1. - a.st.lev[x / k];
                        if h > 0.02 { 1e-4 * bm[x % k] / h / h } else { f64::INFINITY }
                    })
                    .collect();
                out.push(Fact { name, ax: Ax::RBg, v, tol: t });
            }
        }
    }
    Ok(out)
}

/// How the report of an equivalent problem follows from the original one.
pub struct Map<'a> {
    /// row of the original for each row
    pub rows: Vec<usize>,
    /// coefficients = a * original + t
    pub a: Mat,
    pub t: Vec<f64>,
    /// covariate of the original for each covariate
    pub cols: Vec<usize>,
    /// for each row the share of the original row's frequency it stands for
    pub rep: Vec<f64>,
    /// (name, original value) -> (value, factor of its error); None: not comparable
    pub adj: Box<dyn Fn(&'static str, f64) -> Option<(f64, f64)> + 'a>,
}
pub fn ident(k: usize) -> Mat {
    (0..k).map(|i| (0..k).map(|j| (i == j) as i32 as f64).collect()).collect()
}
impl<'a> Map<'a> {
    pub fn id(p: &Prob, ncov: usize) -> Map<'a> {
        Map { rows: (0..p.n).collect(), a: ident(p.k), t: vec![0.; p.k], cols: (0..ncov).collect(), rep: vec![1.; p.n], adj: Box::new(|_, v| Some((v, 1.))) }
    }
    pub fn coef(&self, b: &[f64]) -> Vec<f64> {
        self.a.iter().zip(&self.t).map(|(r, t)| dot(r, b) + t).collect()
    }
    /// the original coefficient each coefficient is a multiple of
    fn single(&self, i: usize) -> Option<(usize, f64)> {
        let nz: Vec<usize> = (0..self.a[i].len()).filter(|&j| self.a[i][j] != 0.).collect();
        if nz.len() == 1 && self.t[i] == 0. { Some((nz[0], self.a[i][nz[0]])) } else { None }
    }
    pub fn apply(&self, fs: &[Fact], n1: usize) -> Vec<Fact> {
        let k2 = self.a.len();
        let k1 = if k2 == 0 { 0 } else { self.a[0].len() };
        let at: Mat = (0..k1).map(|j| (0..k2).map(|i| self.a[i][j]).collect()).collect();
        let ai = if k1 == k2 { inv_gen(&self.a) } else { None };
        let abs = |m: &Mat| -> Mat { m.iter().map(|r| r.iter().map(|x| x.abs()).collect()).collect() };
        let aa = abs(&self.a);
        let p1 = self.cols.len();
        fs.iter()
            .map(|f| {
                let mut v = vec![];
                let mut t = vec![];
                let dead = f64::INFINITY;
                match f.ax {
                    Ax::S => {
                        v.push(f.v[0]);
                        t.push(f.tol[0]);
                    }
                    Ax::B => {
                        v = self.coef(&f.v);
                        t = matvec(&aa, &f.tol);
                    }
                    Ax::Z | Ax::T => {
                        for i in 0..k2 {
                            match self.single(i) {
                                Some((j, s)) => {
                                    v.push(if f.ax == Ax::Z { f.v[j] * s.signum() } else { f.v[j] });
                                    t.push(f.tol[j]);
                                }
                                None => {
                                    v.push(f64::NAN);
                                    t.push(dead);
                                }
                            }
                        }
                    }
                    Ax::G => match &ai {
                        Some(ai) => {
                            let tr: Mat = (0..k1).map(|i| (0..k1).map(|j| ai[j][i]).collect()).collect();
                            v = matvec(&tr, &f.v);
                            t = matvec(&abs(&tr), &f.tol);
                        }
                        None => {
                            v = vec![f64::NAN; k2];
                            t = vec![dead; k2];
                        }
                    },
                    Ax::Cov | Ax::Inf => {
                        let sq = |x: &[f64]| -> Mat { (0..k1).map(|i| x[i * k1..(i + 1) * k1].to_vec()).collect() };
                        let (m, tm) = (sq(&f.v), sq(&f.tol));
                        let (l, r) = if f.ax == Ax::Cov {
                            (self.a.clone(), at.clone())
                        } else {
                            let ai = ai.clone().unwrap();
                            let tr: Mat = (0..k1).map(|i| (0..k1).map(|j| ai[j][i]).collect()).collect();
                            (tr, ai)
                        };
                        v = matmul(&matmul(&l, &m), &r).concat();
                        t = matmul(&matmul(&abs(&l), &tm), &abs(&r)).concat();
                    }
                    Ax::R | Ax::Rg => {
                        for (r, &i) in self.rows.iter().enumerate() {
                            v.push(if f.name == "leverage" { f.v[i] * self.rep[r] } else { f.v[i] });
                            t.push(if self.rep[r] == 1. || f.ax == Ax::R && !f.name.contains("standardized") { f.tol[i] } else { dead });
                        }
                    }
                    Ax::RPg | Ax::RBg => {
                        for (r, &i) in self.rows.iter().enumerate() {
                            let row = &f.v[i * k1..(i + 1) * k1];
                            let tr = &f.tol[i * k1..(i + 1) * k1];
                            let mut x = matvec(&self.a, row);
                            if f.ax == Ax::RBg {
                                x = self.coef(row);
                            }
                            v.extend(x);
                            if self.rep[r] != 1. {
                                t.extend(vec![dead; k2]);
                            } else {
                                t.extend(matvec(&aa, tr));
                            }
                        }
                    }
                    Ax::RC => {
                        for &i in &self.rows {
                            for &j in &self.cols {
                                v.push(f.v[i * p1 + j]);
                                t.push(f.tol[i * p1 + j]);
                            }
                        }
                    }
                    Ax::RR => {
                        for &i in &self.rows {
                            for (r, &j) in self.rows.iter().enumerate() {
                                v.push(f.v[i * n1 + j] * self.rep[r]);
                                t.push(f.tol[i * n1 + j]);
                            }
                        }
                    }
                }
                for (x, e) in v.iter_mut().zip(t.iter_mut()) {
                    match (self.adj)(f.name, *x) {
                        Some((nx, s)) => {
                            *x = nx;
                            *e *= s;
                        }
                        None => *e = dead,
                    }
                }
                Fact { name: f.name, ax: f.ax, v, tol: t }
            })
            .collect()
    }
}
fn inv_gen(a: &Mat) -> Option<Mat> {
    let n = a.len();
    let mut m: Mat = (0..n)
        .map(|i| {
            let mut r = a[i].clone();
            r.extend((0..n).map(|j| (i == j) as i32 as f64));
            r
        })
        .collect();
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| m[i][c].abs().total_cmp(&m[j][c].abs()))?;
        if m[p][c] == 0. {
            return None;
        }
        m.swap(c, p);
        let piv = m[c][c];
        m[c].iter_mut().for_each(|x| *x /= piv);
        for i in 0..n {
            if i != c && m[i][c] != 0. {
                let f = m[i][c];
                for j in 0..2 * n {
                    m[i][j] -= f * m[c][j];
                }
            }
        }
    }
    Some(m.iter().map(|r| r[n..].to_vec()).collect())
}

pub struct Variant<'a> {
    pub label: String,
    pub d: Data,
    pub c: Cfg,
    pub build: Build,
    pub map: Map<'a>,
    /// factor on the allowed distance from the optimum
    pub loose: f64,
    /// compare only this many rows
    pub prefix: Option<usize>,
}
pub fn variant<'a>(label: impl Into<String>, d: Data, c: Cfg, fp: Fp, map: Map<'a>) -> Variant<'a> {
    let build = mk_build(&d, &c, fp);
    Variant { label: label.into(), d, c, build, map, loose: 1., prefix: None }
}
/// Does every model without one covariate, and without one row, have a unique optimum?
pub fn refits_posed(d: &Data, p: &Prob) -> bool {
    if p.c.l1 > 0. || !canonical(p.c.fl) || p.k == 0 {
        return false;
    }
    for j in 0..p.k {
        if p.c.icpt && j == 0 && p.c.l2 > 0. {
            return false;
        }
        let q = p.without(j);
        if q.k == 0 {
            if !q.loglik(&[]).is_finite() {
                return false;
            }
            continue;
        }
        match q.solve() {
            Some(o) if q.well_posed(&o) && regular(&q, &o.b).is_some() => {}
            _ => return false,
        }
    }
    for i in 0..p.n {
        let mut f: Vec<usize> = d.f.clone().unwrap_or(vec![1; p.n]);
        f[i] = 0;
        if f.iter().sum::<usize>() == 0 {
            return false;
        }
        let dd = Data { f: Some(f), ..d.clone() };
        let q = Prob::new(&dd, p.c);
        // (a covariate that is constant without the row is penalized on its own scale)
        if p.c.l2 > 0. && p.c.std && (0..d.p).any(|j| crate::props::c03::constant(&dd, &q, j)) {
            return false;
        }
        match q.solve() {
            Some(o) if q.well_posed(&o) && regular(&q, &o.b).is_some() => {}
            _ => return false,
        }
    }
    true
}
/// Fit the equivalent problems and compare their reports with what the original's implies.
pub fn compare(a: &At, ctx: &mut Ctx, want: Want, variants: &[Variant]) -> Result<(), String> {
    let p = &a.p;
    let want = Want { refits: want.refits && refits_posed(&a.case.d, p), ..want };
    let pt = point(p, &a.b);
    let base = facts(a, want, pt.as_deref(), 1.)?;
    if want.refits {
        ctx.count("refits compared");
    }
    for v in variants {
        let lab = |e: String| format!("{}: {e}", v.label);
        ctx.inner_states += 1;
        let m = ctx.build(&v.build).map_err(|e| lab(format!("build failed: {e:?}")))?;
        ctx.transitions += 1;
        let q = Prob::new(&v.d, v.c);
        let fit = match m.fit(&how(&v.c)) {
            Ok(f) => f,
            Err(Ferr::Panic(e)) => return Err(lab(format!("fit panicked: {e}"))),
            Err(e) => {
                let easy = canonical(v.c.fl) && v.c.l1 == 0. && a.fit.n_iter() <= 12 && v.build.fp == Fp::F64 && p.solve().is_some_and(|o| p.well_posed(&o)) && q.solve().is_some_and(|o| q.well_posed(&o));
                if easy {
                    return Err(lab(format!("fit fails with {}", e.kind())));
                }
                ctx.count("equivalent problem not fit");
                continue;
            }
        };
        let b = fit.result();
        if b.len() != q.k {
            return Err(lab(format!("{} coefficients", b.len())));
        }
        // which optimum a fit without a concave objective finds is not determined
        let ex = v.map.coef(&a.b);
        let osc = 1e-7 * (1. + q.wt.iter().zip(&q.y).map(|(w, y)| w * (y.abs() + 1.)).sum::<f64>());
        if !concave(v.c.fl) && (q.obj(&b) - q.obj(&ex)).abs() > osc {
            ctx.count("another local optimum");
            continue;
        }
        let Some(eig) = regular(&q, &b) else {
            if concave(v.c.fl) && q.obj(&b) < q.obj(&ex) - osc * 1e3 {
                return Err(lab(format!("coefficients {b:?}, implied by the original fit: {ex:?}")));
            }
            ctx.count("equivalent fit at an irregular point");
            continue;
        };
        let st = Stats::new(&q, &b);
        if st.inv.is_none() {
            ctx.count("equivalent fit at an irregular point");
            continue;
        }
        let case = Case { world: a.case.world, letters: a.case.letters, conf: Conf { c: v.c, fp: v.build.fp, ..a.case.conf }, d: v.d.clone() };
        let at = At { case: &case, p: q, b, fit: &*fit, m: &*m, st, eig, eps: 1e-15 / eig };
        let pt2 = pt.as_ref().map(|x| v.map.coef(x));
        let got = facts(&at, want, pt2.as_deref(), v.loose).map_err(lab)?;
        let exp = v.map.apply(&base, p.n);
        for e in &exp {
            let Some(g) = got.iter().find(|g| g.name == e.name) else {
                // (whether a fact is defined is decided by the definitions, not by the library)
                ctx.count("fact not compared");
                continue;
            };
            let cut;
            let g = if let Some(n) = v.prefix {
                cut = first_rows(g, v.d.y.len(), n);
                &cut
            } else {
                g
            };
            if g.v.len() != e.v.len() {
                return Err(lab(format!("{}: {} values, expected {}", e.name, g.v.len(), e.v.len())));
            }
            for i in 0..e.v.len() {
                let t = e.tol[i] + g.tol[i] * v.loose.max(1.);
                // (an error larger than the value leaves nothing to compare)
                if t.is_infinite() || t.is_nan() || t > 1e3 * (1. + e.v[i].abs()) || g.v[i] == e.v[i] {
                    continue;
                }
                let dv = (g.v[i] - e.v[i]).abs();
                if !(dv <= t) {
                    return Err(lab(format!("{}[{i}] is {:e}, the original fit implies {:e} (deviation {dv:.2e}, tolerance {t:.1e}); all: {:?} and {:?}", e.name, g.v[i], e.v[i], g.v, e.v)));
                }
                ctx.dev(e.name, dv / t);
            }
        }
        ctx.count("equivalent fits compared");
    }
    Ok(())
}

/// The part of a report about the first m of n rows.
fn first_rows(f: &Fact, n: usize, m: usize) -> Fact {
    let mut g = f.clone();
    let cut = |v: &Vec<f64>| -> Vec<f64> {
        match f.ax {
            Ax::R | Ax::Rg => v[..m].to_vec(),
            Ax::RPg | Ax::RBg | Ax::RC => v[..v.len() / n * m].to_vec(),
            Ax::RR => (0..m).flat_map(|i| v[i * n..i * n + m].to_vec()).collect(),
            _ => v.clone(),
        }
    };
    g.v = cut(&f.v);
    g.tol = cut(&f.tol);
    g
}
