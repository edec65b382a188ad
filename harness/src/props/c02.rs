//! C02: lasso and elastic-net fits satisfy the optimality conditions of the L1 problem.
use crate::refm::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let f32_ = case.conf.fp == Fp::F32;
    let p = Prob::new(&case.d, c);
    let m = match ctx.build(&mk_build(&case.d, &c, case.conf.fp)) {
        Ok(m) => m,
        Err(e) => return Err(format!("build failed: {e:?}")),
    };
    ctx.transitions += 1;
    // where the default budget is too small for the ADMM, a larger one has to do
    let scaled = c.std || case.d.x.iter().flatten().all(|x| x.abs() <= 10.);
    let decided = || !f32_ && scaled && canonical(c.fl) && p.solve().is_some_and(|o| p.well_posed(&o));
    let more = How { max_iter: Some(20_000), ..how(&c) };
    let mut settled = true;
    let (b, like) = match m.fit(&how(&c)) {
        Ok(f) => (f.result(), f.model_like()),
        Err(Ferr::Panic(e)) => return Err(format!("fit panicked: {e}")),
        Err(Ferr::MaxIter { .. }) if decided() => match m.fit(&more) {
            Ok(f) => {
                ctx.count("needs more than the default number of iterations");
                ctx.dev("iterations", f.history().len() as f64 / 20_000.);
                (f.result(), f.model_like())
            }
            // wandering around the optimum within the accuracy below
            Err(Ferr::MaxIter { history, .. }) => {
                settled = false;
                history.last().cloned().ok_or("no history of a long fit")?
            }
            Err(e) => return Err(format!("a well-conditioned fit fails with a large budget: {e:?}")),
        },
        Err(e) => {
            if decided() && !matches!(e, Ferr::MaxIter { .. }) {
                return Err(format!("a well-conditioned fit fails: {e:?}"));
            }
            ctx.count(match e {
                Ferr::MaxIter { .. } => "no fit: iteration budget used up",
                _ => "no fit: other error",
            });
            return Ok(());
        }
    };
    if b.len() != p.k {
        return Err(format!("{} coefficients for {} parameters", b.len(), p.k));
    }
    let w = p.lin(&b);
    let (lo, hi) = match lk(c.fl) {
        Lk::Logit => (-12., 9.),
        Lk::Log => (-12., 12.),
        Lk::Cll => (-12., 2.2),
        Lk::NegRec | Lk::NegRecSq => (-1e6, -1e-4),
        _ => (-1e6, 1e6),
    };
    if w.iter().zip(&p.wt).any(|(&x, &t)| t > 0. && !(x > lo && x < hi)) {
        ctx.count("fit far out (not decided)");
        return Ok(());
    }
    ctx.traces += 1;
    let scale: f64 = 1. + p.wsum(|i| (1. + p.y[i].abs() + ll(c.fl, p.y[i], w[i]).abs())) + p.penalty(&b);
    ctx.within("model likelihood", like, p.obj(&b), if f32_ { 1e-4 } else { 1e-10 } * scale * p.bmag(&b))?;
    let zero = if f32_ { 1e-2 } else { 1e-5 };
    let kkt = p.kkt(&b, zero);
    let (mut nz, mut act) = (0, 0);
    for (j, &(z, v, h)) in kkt.iter().enumerate() {
        if p.sig[j] > 0. {
            if z.abs() <= zero { nz += 1 } else { act += 1 }
        }
        let t = if f32_ { 5e-2 } else { 5e-4 } * (h * (1. + z.abs()) + c.l1 + 1e-2 * scale.sqrt());
        ctx.dev("optimality conditions", v / t);
        if !(v <= t) {
            let msg = format!(
                "parameter {j} (penalized scale: {z:e}) violates the optimality conditions by {v:.3e} (tolerance {t:.1e}): coefficients {b:?}, (coefficient, violation, information) {kkt:?}; reference optimum {:?}",
                p.solve().map(|r| r.b)
            );
            if !settled {
                return ctx.finding(&format!("never converges: {}", case.key()), format!("no convergence within {:?} iterations: {msg}", more.max_iter));
            }
            return Err(msg);
        }
    }
    if !settled {
        ctx.count("at the optimum without noticing");
    }
    ctx.count(match (nz, act) {
        (0, _) => "optimal, all active",
        (_, 0) => "optimal, none active",
        _ => "optimal, some active",
    });
    Ok(())
}
pub fn groups(th: bool) -> Vec<Group> {
    let t = th as usize;
    let regs = [(1e-9, 0.), (0.25, 0.), (0.8, 0.3), (60., 0.)];
    let more = [(0.02, 0.), (0.25, 0.), (1.5, 0.), (6., 2.), (0.3, 10.)];
    let f = Prod { reg: if th { regs.iter().chain(&more).cloned().collect() } else { regs.to_vec() }, wp: vec![Wp::N, Wp::W, Wp::F], of: vec![Of::N, Of::V], ..full() };
    let small = Prod { wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], ..f.clone() };
    let tiny = Prod { wp: vec![Wp::Wf], of: vec![Of::V], ..f.clone() };
    let f32s = Prod { fps: vec![Fp::F32], reg: vec![(0.25, 0.), (0.8, 0.3)], ..tiny.clone() };
    let plans = vec![
        Plan { world: w_p1(3, 3 + 2 * t), confs: f.confs() },
        Plan { world: w_p1(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_p1y(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_p0(2, 2 + t), confs: tiny.confs() },
        Plan { world: w_wide(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_far(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_p2(4, 4 + t), confs: small.confs() },
        Plan { world: w_p2s(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_const(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_dup(3, 3 + t), confs: tiny.confs() },
        Plan { world: w_tall(24, 1 + t), confs: f.confs() },
        Plan { world: w_tall5(40, 1 + t), confs: small.confs() },
        Plan { world: w_tall1(90, 1 + t), confs: tiny.confs() },
        Plan { world: w_tall9(70, t), confs: tiny.confs() },
        Plan { world: w_p2(4, 4), confs: f32s.confs() },
        Plan { world: w_tall(24, 1 + t), confs: f32s.confs() },
    ];
    // a state of the thorough worlds that is a known finding
    let stuck = Prod { fls: vec![Fl::Bin12], icpt: vec![true], std: vec![true], reg: vec![(60., 0.)], wp: vec![Wp::Wf], of: vec![Of::V], ..full() };
    vec![Group { name: "l1", plans, check }, Group { name: "l1 stuck", plans: if th { vec![] } else { vec![Plan { world: w_p2s(5, 5), confs: stuck.confs() }] }, check }]
}
