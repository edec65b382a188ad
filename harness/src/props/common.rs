//! Shared driver of the checks that compare statistics with their definitions.
use crate::refm::*;
use crate::space::*;
use crate::stats::*;
use sut::*;

pub struct At<'a> {
    pub case: &'a Case<'a>,
    pub p: Prob,
    pub b: Vec<f64>,
    pub fit: &'a dyn FitApi,
    pub m: &'a dyn ModelApi,
    pub st: Stats,
    /// smallest scaled eigenvalue of the information
    pub eig: f64,
    /// relative accuracy the conditioning of this state allows
    pub eps: f64,
}
impl At<'_> {
    pub fn q(&self, q: &Q) -> Result<Vec<f64>, String> {
        want(self.fit, q)
    }
    pub fn s(&self, q: &Q) -> Result<f64, String> {
        let v = self.q(q)?;
        if v.len() == 1 { Ok(v[0]) } else { Err(format!("{q:?} gives {} values", v.len())) }
    }
}
/// Build, fit, and if the fit is at a regular point evaluate `f` there.
pub fn at_fit(case: &Case, ctx: &mut Ctx, f: impl FnOnce(&At, &mut Ctx) -> Result<(), String>) -> Result<(), String> {
    let c = case.conf.c;
    let m = match ctx.build(&mk_build(&case.d, &c, case.conf.fp)) {
        Ok(m) => m,
        Err(e) => return Err(format!("build failed: {e:?}")),
    };
    ctx.transitions += 1;
    let fit = match m.fit(&how(&c)) {
        Ok(f) => f,
        Err(Ferr::Panic(e)) => return Err(format!("fit panicked: {e}")),
        Err(_) => {
            ctx.count("no fit");
            return Ok(());
        }
    };
    let p = Prob::new(&case.d, c);
    let b = fit.result();
    if b.len() != p.k {
        return Err(format!("{} coefficients for {} parameters", b.len(), p.k));
    }
    let eig = match regular(&p, &b) {
        Some(e) => e,
        None => {
            ctx.count("fit at an irregular point (values not decided)");
            return Ok(());
        }
    };
    let st = Stats::new(&p, &b);
    if st.inv.is_none() {
        ctx.count("fit at an irregular point (values not decided)");
        return Ok(());
    }
    ctx.traces += 1;
    let at = At { case, p, b, fit: &*fit, m: &*m, st, eig, eps: 1e-15 / eig };
    f(&at, ctx)
}
/// Smallest scaled information eigenvalue at b, if b is far enough from everything delicate.
pub fn regular(p: &Prob, b: &[f64]) -> Option<f64> {
    if p.k == 0 || b.iter().any(|x| !x.is_finite()) {
        return None;
    }
    let w = p.lin(b);
    let (lo, hi) = match lk(p.c.fl) {
        Lk::Logit => (-12., 9.),
        Lk::Log => (-12., 12.),
        Lk::Cll => (-12., 2.2),
        Lk::Cauchit => (-30., 30.),
        Lk::NegRec | Lk::NegRecSq => (-1e6, -1e-4),
        Lk::Sqrt | Lk::Rec => (1e-4, 1e6),
        Lk::Id => (-1e6, 1e6),
    };
    if w.iter().any(|&x| !(x > lo && x < hi)) {
        return None;
    }
    let e = p.min_eig(b);
    let x = min_eig_scaled(&p.info(b));
    if e > 1e-5 && x > 1e-8 { Some(e.min(x)) } else { None }
}

/// The worlds most checks run on. `t`: extra depth.
pub fn plans(th: bool, regs: &[(f64, f64)], fls: &[Fl]) -> Vec<Plan> {
    let t = th as usize;
    let f = Prod { reg: regs.to_vec(), fls: fls.to_vec(), ..full() };
    let med = Prod { wp: vec![Wp::N, Wp::W, Wp::F, Wp::Wf0], of: vec![Of::N, Of::V], ..f.clone() };
    let small = Prod { wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], ..f.clone() };
    let tiny = if th { small.clone() } else { Prod { wp: vec![Wp::Wf], of: vec![Of::V], ..f.clone() } };
    vec![
        Plan { world: w_p0(2, 3 + t), confs: f.confs() },
        Plan { world: w_p1(3, 3 + 2 * t), confs: f.confs() },
        Plan { world: w_p1(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_p1y(3, 3 + 2 * t), confs: small.confs() },
        Plan { world: w_wide(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_far(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_p2(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_p2s(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_const(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_dup(4, 4 + t), confs: Prod { reg: regs.iter().cloned().filter(|r| r.1 > 0.).collect(), ..tiny.clone() }.confs() },
        Plan { world: w_tall(24, 1 + t), confs: med.confs() },
        Plan { world: w_tall5(40, 1), confs: tiny.confs() },
        Plan { world: w_tall1(90, 1), confs: tiny.confs() },
        Plan { world: w_tall9(70, t), confs: tiny.confs() },
        Plan { world: w_tall1(300, t), confs: Prod { icpt: vec![true], std: vec![true], ..tiny.clone() }.confs() },
        // as many parameters as observations, or more
        Plan { world: w_p0(1, 1), confs: f.confs() },
        Plan { world: w_p1(1, 2), confs: small.confs() },
        Plan { world: w_p2(1, 3), confs: small.confs() },
        Plan { world: w_p3(2, 3), confs: Prod { reg: regs.iter().cloned().filter(|r| r.1 > 0.).collect(), ..tiny.clone() }.confs() },
    ]
}
/// Worlds for checks that fit several equivalent problems per state.
pub fn metaplans(th: bool, regs: &[(f64, f64)]) -> Vec<Plan> {
    let t = th as usize;
    let f = Prod { reg: regs.to_vec(), ..full() };
    let med = Prod { wp: if th { vec![Wp::N, Wp::W, Wp::Wf] } else { vec![Wp::N, Wp::Wf] }, of: vec![Of::N, Of::V], ..f.clone() };
    let tiny = Prod { wp: vec![Wp::Wf], of: vec![Of::V], std: if th { BOTH.to_vec() } else { vec![true] }, ..f.clone() };
    vec![
        Plan { world: w_p0(2, 2 + t), confs: f.confs() },
        Plan { world: w_p1(3, 3 + t), confs: if th { f.confs() } else { med.confs() } },
        Plan { world: w_p1y(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_wide(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_far(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_p2(4, 4), confs: if th { med.confs() } else { tiny.confs() } },
        Plan { world: w_p2s(4, 4), confs: tiny.confs() },
        Plan { world: w_const(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_tall(24, 1), confs: med.confs() },
        Plan { world: w_tall5(40, 1), confs: tiny.confs() },
        Plan { world: w_tall9(70, 0), confs: tiny.confs() },
        Plan { world: w_tall1(300, 0), confs: Prod { icpt: vec![true], std: vec![true], ..tiny.clone() }.confs() },
        // as many parameters as observations, or more
        Plan { world: w_p0(1, 1), confs: f.confs() },
        Plan { world: w_p1(1, 2), confs: med.confs() },
        Plan { world: w_p2(2, 3), confs: tiny.confs() },
    ]
}
