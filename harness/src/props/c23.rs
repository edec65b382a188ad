//! C23: no panic and no silent nonsense, however ill-posed the data.
use super::c14::queries;
use crate::refm::*;
use crate::space::*;
use sut::*;

fn finite(f: &dyn FitApi) -> Result<(), String> {
    let (b, l) = (f.result(), f.model_like());
    if b.iter().any(|x| !x.is_finite()) {
        return Err(format!("an Ok fit has coefficients {b:?}"));
    }
    if !l.is_finite() {
        return Err(format!("an Ok fit has likelihood {l} (coefficients {b:?})"));
    }
    Ok(())
}
/// Fit, and if there is a fit call every method.
fn poke(m: &dyn ModelApi, h: &How, d: &Data, c: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
    ctx.transitions += 1;
    if std::env::var("GLMMC_TRACE").is_ok() {
        crate::say!("{h:?}");
    }
    match m.fit(h) {
        Ok(f) => {
            ctx.traces += 1;
            finite(&*f).map_err(|e| format!("{e}, fit with {h:?}"))?;
            let b = f.result();
            for mut q in queries(d, c, &b, true) {
                if let Q::Predict(x, _, o) = &mut q {
                    // (its second entry wants the first row)
                    if o.is_none() && d.off.is_some() {
                        x.truncate(1);
                    }
                }
                ctx.transitions += 1;
                if std::env::var("GLMMC_TRACE").is_ok() {
                    crate::say!("{h:?} {b:?} {q:?}");
                }
                if let Out::Panic(e) = f.get(&q) {
                    return Err(format!("{q:?} panics: {e} (coefficients {b:?}, likelihood {}, fit with {h:?})", f.model_like()));
                }
            }
            ctx.count("Ok fits, all methods called");
        }
        Err(Ferr::Panic(e)) => return Err(format!("fit panics: {e} ({h:?})")),
        Err(Ferr::MaxIter { .. }) => ctx.count("error: iteration limit"),
        Err(Ferr::Linalg) => ctx.count("error: linear algebra"),
        Err(_) => ctx.count("error: other"),
    }
    Ok(())
}
fn model(case: &Case, ctx: &mut Ctx) -> Result<Option<Box<dyn ModelApi>>, String> {
    match ctx.build(&mk_build(&case.d, &case.conf.c, case.conf.fp)) {
        Ok(m) => Ok(Some(m)),
        Err(Ferr::Panic(e)) => Err(format!("build panics: {e}")),
        Err(_) => {
            ctx.count("build rejected");
            Ok(None)
        }
    }
}
pub fn plain(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    if let Some(m) = model(case, ctx)? {
        poke(&*m, &how(&c), &case.d, &c, ctx)?;
    }
    Ok(())
}
/// extreme fit options and starting points
pub fn options(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let Some(m) = model(case, ctx)? else { return Ok(()) };
    let h = || How { via: Via::With, ..how(&c) };
    let big = if case.conf.fp == Fp::F32 { 1e30 } else { 1e200 };
    let k = case.d.p + c.icpt as usize;
    for max_iter in [0, 1, 2, 1000] {
        for tol in [0., 1e-300, 1e-3, 1e300_f64.min(big)] {
            ctx.inner_states += 1;
            poke(&*m, &How { max_iter: Some(max_iter), tol: Some(tol), ..h() }, &case.d, &c, ctx)?;
        }
    }
    for l1 in [0., 1. / big, 1e6, big] {
        for l2 in [0., 1. / big, 1e6, big] {
            ctx.inner_states += 1;
            poke(&*m, &How { l1, l2, ..h() }, &case.d, &c, ctx)?;
        }
    }
    for g in [0., 1., -1., 40., -800., 1e9, -1e9, big, -big, f64::INFINITY, f64::NAN] {
        for alone in [true, false] {
            let b: Vec<f64> = (0..k).map(|j| if alone && j > 0 { 0. } else { g * [1., -0.75, 0.5][j % 3] }).collect();
            ctx.inner_states += 1;
            poke(&*m, &How { init: Some(b), ..h() }, &case.d, &c, ctx)?;
        }
    }
    Ok(())
}
pub fn groups(th: bool) -> Vec<Group> {
    let t = th as usize;
    let regs = vec![(0., 0.), (0., 0.5), (0.5, 0.), (0.2, 0.3)];
    let f = Prod { reg: regs.clone(), wp: vec![Wp::N, Wp::F0, Wp::W0, Wp::F1], of: vec![Of::N, Of::V], ..full() };
    let few = Prod { wp: vec![Wp::N, Wp::Wf0], of: vec![Of::N], ..f.clone() };
    let f32s = Prod { fps: vec![Fp::F32], ..few.clone() };
    let odd = Prod { wp: vec![Wp::Wz, Wp::Wx, Wp::Fz, Wp::Fx, Wp::F1, Wp::W0, Wp::N], of: vec![Of::N, Of::X, Of::Xx], reg: vec![(0., 0.), (0.2, 0.3)], std: if th { BOTH.to_vec() } else { vec![true] }, ..f.clone() };
    let one = Prod { wp: vec![Wp::N], of: vec![Of::N], reg: vec![(0., 0.), (0.2, 0.3)], ..f.clone() };
    let mini = Prod { std: vec![true], reg: vec![(0., 0.), (0., 0.5), (0.5, 0.)], ..one.clone() };
    let ends = Prod { reg: vec![(0., 0.), (0., 0.5), (0.5, 0.)], ..one.clone() };
    let few_ends = if th { ends.clone() } else { Prod { std: vec![true], ..ends.clone() } };
    let ends32 = Prod { fps: vec![Fp::F32], ..few_ends.clone() };
    vec![
        Group {
            name: "degenerate",
            plans: vec![
                Plan { world: w_p0(0, 3 + t), confs: f.confs() },
                Plan { world: w_p1(0, 2 + t), confs: f.confs() },
                Plan { world: w_p1(0, 3 + t), confs: if th { f.confs() } else { mini.confs() } },
                Plan { world: w_p2(0, 2 + t), confs: few.confs() },
                Plan { world: w_p3(0, 2), confs: few.confs() },
                Plan { world: w_const(0, 2 + t), confs: few.confs() },
                Plan { world: w_dup(0, 2 + t), confs: few.confs() },
                Plan { world: w_degen(0, 2 + t), confs: few.confs() },
                Plan { world: w_degen(0, 2 + t), confs: f32s.confs() },
                Plan { world: w_p1(0, 2 + t), confs: f32s.confs() },
            ],
            check: plain,
        },
        Group {
            name: "weights",
            plans: vec![Plan { world: w_p0(0, 2), confs: odd.confs() }, Plan { world: w_p1(0, 2 + t), confs: odd.confs() }, Plan { world: w_p1(2, 2), confs: Prod { fps: vec![Fp::F32], std: vec![true], ..odd.clone() }.confs() }],
            check: plain,
        },
        Group {
            name: "extreme values",
            plans: vec![
                Plan { world: w_xx(1, 2 + t), confs: ends.confs() },
                Plan { world: w_xx(1, 2), confs: ends32.confs() },
                Plan { world: w_yx(1, 3), confs: few_ends.confs() },
                Plan { world: w_yx(1, 3), confs: ends32.confs() },
                Plan { world: w_xxx(1, 2 + t), confs: ends.confs() },
                Plan { world: w_yxx(1, 3), confs: few_ends.confs() },
                Plan { world: w_wide(1, 3 + t), confs: ends.confs() },
                Plan { world: w_far(1, 3 + t), confs: ends32.confs() },
                Plan { world: w_tiny(1, 3 + t), confs: ends32.confs() },
            ],
            check: plain,
        },
        Group {
            name: "options",
            plans: if th {
                vec![Plan { world: w_p0(1, 3), confs: one.confs() }, Plan { world: w_p1(1, 3), confs: one.confs() }, Plan { world: w_dup(2, 2), confs: mini.confs() }]
            } else {
                vec![Plan { world: w_p0(1, 2), confs: mini.confs() }, Plan { world: w_p1(2, 2), confs: Prod { icpt: vec![true], reg: vec![(0., 0.)], ..mini.clone() }.confs() }]
            },
            check: options,
        },
    ]
}
