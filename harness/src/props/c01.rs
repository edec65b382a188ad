//! C01: unregularized and ridge fits are the penalized maximum-likelihood estimate.
use crate::refm::*;
use crate::space::*;
use sut::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let f32_ = case.conf.fp == Fp::F32;
    let prob = Prob::new(&case.d, c);
    let reference = prob.solve();
    let wp = reference.as_ref().is_some_and(|o| prob.well_posed(o) && (!f32_ || (o.min_eig > 1e-2 && o.wmax < 8.)));
    let m = match ctx.build(&mk_build(&case.d, &c, case.conf.fp)) {
        Ok(m) => m,
        Err(e) => return Err(format!("build failed: {e:?}")),
    };
    ctx.transitions += 1;
    let fit = match m.fit(&how(&c)) {
        Ok(f) => f,
        Err(e) => {
            if matches!(e, Ferr::Panic(_)) {
                return Err(format!("fit panicked: {e:?}"));
            }
            // Fisher scoring converges only linearly for other links, and may use up its budget
            if wp && canonical(c.fl) && !f32_ {
                return Err(format!("a well-conditioned fit with a unique optimum at {:?} fails: {e:?}", reference.map(|r| r.b)));
            }
            ctx.count(if wp { "fit error, well-posed" } else { "fit error, ill-posed" });
            return Ok(());
        }
    };
    let b = fit.result();
    let like = fit.model_like();
    if b.len() != prob.k {
        return Err(format!("{} coefficients for {} parameters", b.len(), prob.k));
    }
    if !wp {
        ctx.count("ok, ill-posed (optimality not decided)");
        return Ok(());
    }
    ctx.traces += 1;
    let reference = reference.unwrap();
    let obj = prob.obj(&b);
    let scale: f64 = 1. + prob.wt.iter().zip(&prob.y).map(|(w, y)| w * (y.abs() + 1.)).sum::<f64>();
    ctx.near("likelihood is the objective", like, obj, scale, if f32_ { 1e-4 } else { 1e-10 })?;
    let Some((dec, me)) = prob.decrement(&b) else {
        return Err(format!("information not positive definite at the result {b:?} (reference {:?})", reference.b));
    };
    let _ = me;
    let t = if f32_ { 1e-5 } else { 1e-11 } * scale;
    ctx.dev("newton decrement", dec / t);
    if !(dec <= t) {
        return Err(format!(
            "not a stationary point of the penalized likelihood: Newton decrement {dec:.3e} > {t:.1e} at {b:?}; reference optimum {:?}",
            reference.b
        ));
    }
    if concave(c.fl) {
        let gap = reference.obj - obj;
        ctx.dev("objective gap", gap / t);
        if !(gap <= t) {
            return Err(format!("objective {obj} below the reference optimum {} at {:?}", reference.obj, reference.b));
        }
    }
    ctx.count(if f32_ { "ok, optimal f32" } else { "ok, optimal" });
    Ok(())
}

pub fn groups(th: bool) -> Vec<Group> {
    let t = th as usize;
    let regs = if th { vec![(0., 0.), (0., 0.3), (0., 20.)] } else { vec![(0., 0.), (0., 0.3)] };
    let f = Prod { reg: regs.clone(), ..full() };
    let med = Prod { wp: vec![Wp::N, Wp::W, Wp::Wf, Wp::F0], of: vec![Of::N, Of::V], ..f.clone() };
    let small = Prod { wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], ..f.clone() };
    let tiny = if th { small.clone() } else { Prod { wp: vec![Wp::Wf], of: vec![Of::V], ..f.clone() } };
    let f32s = Prod { fps: vec![Fp::F32], ..tiny.clone() };
    let plans = vec![
        Plan { world: w_p0(2, 3 + 2 * t), confs: f.confs() },
        Plan { world: w_p1(3, 4 + t), confs: if th { f.confs() } else { med.confs() } },
        Plan { world: w_p1y(3, 3 + 2 * t), confs: med.confs() },
        Plan { world: w_wide(3, 3 + 2 * t), confs: small.confs() },
        Plan { world: w_far(3, 3 + 2 * t), confs: small.confs() },
        Plan { world: w_tiny(3, 3 + 2 * t), confs: tiny.confs() },
        Plan { world: w_p2(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_p2s(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_const(3, 3 + 2 * t), confs: tiny.confs() },
        Plan { world: w_dup(4, 4 + t), confs: tiny.confs() },
        Plan { world: w_tall(40, 1 + 2 * t), confs: med.confs() },
        Plan { world: w_tall5(60, 1 + t), confs: small.confs() },
        Plan { world: w_tall1(130, 1 + t), confs: small.confs() },
        Plan { world: w_tall9(80, 1 + t), confs: tiny.confs() },
        Plan { world: w_tall1(400, t), confs: small.confs() },
        Plan { world: w_p1(3, 3 + 2 * t), confs: f32s.confs() },
        Plan { world: w_tall(30, 1 + t), confs: f32s.confs() },
    ];
    vec![Group { name: "fit", plans, check }]
}
