//! C16: budgets, histories and restarts of the iteration.
use super::c14::same_v;
use crate::refm::*;
use crate::space::*;
use sut::*;

type Step = (Vec<f64>, f64);
fn steps_same(a: &[Step], b: &[Step]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_v(&x.0, &y.0) && same_v(&[x.1, 1.], &[y.1, 1.]))
}
pub fn budgets(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let f32_ = case.conf.fp == Fp::F32;
    let m = ctx.build(&mk_build(&case.d, &c, case.conf.fp)).map_err(|e| format!("build failed: {e:?}"))?;
    let p = Prob::new(&case.d, c);
    let many = 200;
    ctx.transitions += 1;
    let full = m.fit(&How { max_iter: Some(many), ..how(&c) });
    let (hist, ok) = match &full {
        Ok(f) => (f.history(), true),
        Err(Ferr::MaxIter { n_iter, history }) => {
            if *n_iter != many {
                return Err(format!("a limit of {many} iterations is reported as {n_iter}"));
            }
            (history.clone(), false)
        }
        Err(Ferr::Panic(e)) => return Err(format!("fit panicked: {e}")),
        Err(_) => {
            ctx.count("no fit");
            return Ok(());
        }
    };
    ctx.traces += 1;
    let n = hist.len();
    if let Ok(f) = &full {
        if f.n_iter() != n {
            return Err(format!("{} iterations reported, {n} steps in the history", f.n_iter()));
        }
        if n > many {
            return Err(format!("{n} steps with a limit of {many}"));
        }
        let b = f.result();
        if b.len() != p.k || hist.iter().any(|s| s.0.len() != p.k) {
            return Err(format!("{} coefficients for {} parameters", b.len(), p.k));
        }
    }
    // what the history says
    let scale = |b: &[f64]| -> f64 {
        let w = p.lin(b);
        1. + p.wsum(|i| 1. + p.y[i].abs() + (p.y[i] * w[i]).abs() + ll(c.fl, p.y[i], w[i]).abs()) + p.penalty(b)
    };
    let u = if f32_ { 3e-5 } else { 1e-10 };
    let mut best = f64::NEG_INFINITY;
    for (i, (s, l)) in hist.iter().enumerate() {
        ctx.inner_states += 1;
        let b = s.clone();
        let (o, t) = (p.obj(&b), scale(&b) * p.bmag(&b) * u);
        if o.is_finite() && t < 1e-3 && !f32_ {
            ctx.within("likelihood of a recorded step", *l, o, t).map_err(|m| format!("step {i} at {b:?}: {m}"))?;
        }
        if i > 0 && c.l1 == 0. {
            let before = hist[i - 1].1;
            if *l < before - u * 1e-3 * (1. + before.abs()) {
                return Err(format!("the likelihood decreases from {before} to {l} at step {i} of {n}"));
            }
        }
        if *l > best {
            best = *l;
        }
    }
    if let (Ok(f), true) = (&full, n > 0) {
        let (b, l) = (f.result(), f.model_like());
        if !same_v(&[best, 1.], &[l, 1.]) {
            return Err(format!("the fit has likelihood {l}, the best of its {n} steps {best}"));
        }
        // the coefficients are those of a step with that likelihood
        if !hist.iter().any(|(s, sl)| {
            let e = s;
            let m = 1. + e.iter().fold(0f64, |m, x| m.max(x.abs())) + p.bmag(e);
            same_v(&[*sl, 1.], &[l, 1.]) && e.iter().zip(&b).all(|(x, y)| (x - y).abs() <= if f32_ { 1e-4 } else { 1e-9 } * m)
        }) {
            return Err(format!("the coefficients {b:?} are not among the steps with the best likelihood: {:?}", hist.iter().map(|s| s).collect::<Vec<_>>()));
        }
    }
    // every smaller budget
    let ms: Vec<usize> = if n <= 24 { (0..n + 2).collect() } else { [0, 1, 2, 3, n / 3, n / 2, n - 2, n - 1, n, n + 1].into_iter().filter(|&m| m <= many).collect() };
    for mi in ms {
        ctx.inner_states += 1;
        ctx.transitions += 1;
        let h = How { max_iter: Some(mi), via: if mi % 2 == 0 { Via::Chain } else { Via::With }, ..how(&c) };
        match m.fit(&h) {
            Ok(f) => {
                if !ok || mi < n {
                    return Err(format!("a fit that takes {n} iterations succeeds with a limit of {mi}, in {}", f.n_iter()));
                }
                let g = full.as_ref().ok().unwrap();
                if !steps_same(&f.history(), &hist) || f.n_iter() != n || !same_v(&f.result(), &g.result()) || !same_v(&[f.model_like(), 1.], &[g.model_like(), 1.]) {
                    return Err(format!("a limit of {mi} changes a fit of {n} iterations: {:?} {}, then {:?} {}", g.result(), g.model_like(), f.result(), f.model_like()));
                }
                ctx.count("budget suffices: the same fit");
            }
            Err(Ferr::MaxIter { n_iter, history }) => {
                if ok && mi >= n {
                    return Err(format!("a fit that takes {n} iterations runs out of a budget of {mi}"));
                }
                if n_iter != mi {
                    return Err(format!("a limit of {mi} iterations is reported as {n_iter}"));
                }
                if history.len() < mi || history.len() > mi + 1 || !steps_same(&history, &hist[..history.len().min(n)]) {
                    return Err(format!("with a limit of {mi} the error carries {} steps {history:?}, the whole history is {hist:?}", history.len()));
                }
                ctx.count("budget too small: error with the steps taken");
            }
            Err(e) => {
                // the search may go through steps it can't end on
                if ok && mi >= n {
                    return Err(format!("a fit that takes {n} iterations fails with a limit of {mi}: {e:?}"));
                }
                return Err(format!("with a limit of {mi} a fit that takes {n} iterations fails with {e:?} instead of the iteration limit"));
            }
        }
    }
    Ok(())
}
pub fn restarts(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let m = ctx.build(&mk_build(&case.d, &c, case.conf.fp)).map_err(|e| format!("build failed: {e:?}"))?;
    let p = Prob::new(&case.d, c);
    if !concave(c.fl) {
        return Ok(());
    }
    let Some(o) = p.solve() else {
        ctx.count("no reference optimum");
        return Ok(());
    };
    if !p.well_posed(&o) || super::common::regular(&p, &o.b).is_none() {
        ctx.count("ill-posed");
        return Ok(());
    }
    ctx.transitions += 1;
    let f = match m.fit(&how(&c)) {
        Ok(f) => f,
        Err(Ferr::Panic(e)) => return Err(format!("fit panicked: {e}")),
        Err(_) => {
            ctx.count("no fit");
            return Ok(());
        }
    };
    ctx.traces += 1;
    let ext = |s: &[f64]| if c.std { p.from_z(s) } else { s.to_vec() };
    let b = f.result();
    let zb = if c.std { p.to_z(&b) } else { b.clone() };
    let mut starts: Vec<(String, Vec<f64>, bool)> = vec![("the result".into(), b.clone(), true)];
    let h = f.history();
    for (i, s) in h.iter().enumerate() {
        if h.len() <= 12 || i % (h.len() / 8) == 0 {
            starts.push((format!("step {i}"), s.0.clone(), c.l1 == 0.));
        }
    }
    starts.push(("zero".into(), vec![0.; p.k], canonical(c.fl)));
    // a lattice around the result
    let rs: &[f64] = if bounded(c.fl) { &[0.02, 0.1] } else { &[0.3, 1.5] };
    for &r in rs {
        for code in 0..3usize.pow(p.k.min(3) as u32) {
            let mut cd = code;
            let z: Vec<f64> = (0..p.k)
                .map(|j| {
                    let d = if j < 3 { (cd % 3) as f64 - 1. } else { [0.5, -0.5][(j + code) % 2] };
                    cd /= 3;
                    zb[j] + r * d * if c.std { 1. } else { 1. / (1. + p.xr.iter().map(|x| x[j].abs()).fold(0., f64::max)) }
                })
                .collect();
            starts.push((format!("lattice point {code} at {r}"), ext(&z), canonical(c.fl)));
        }
    }
    let scale: f64 = 1. + p.wsum(|i| 1. + p.y[i].abs() + ll(c.fl, p.y[i], 0.).abs().min(10.)) + p.penalty(&o.b);
    let t = if c.l1 > 0. { 1e-6 } else { 1e-10 } * scale * p.bmag(&o.b);
    let wb = p.lin(&b);
    for (name, s, strict) in starts {
        // an initial guess that is off by e^5 in every prediction is no initial guess
        let far = p.lin(&s).iter().zip(&wb).enumerate().filter(|(i, _)| p.wt[*i] > 0.).fold(0f64, |m, (_, (x, y))| m.max((x - y).abs()));
        if !(far <= if bounded(c.fl) { 1e4 } else { 5. }) && name != "the result" {
            ctx.count("unreasonable start");
            continue;
        }
        ctx.inner_states += 1;
        ctx.transitions += 1;
        match m.fit(&How { init: Some(s.clone()), via: Via::With, ..how(&c) }) {
            Ok(g) => {
                let gb = g.result();
                let gap = o.obj - p.obj(&gb);
                ctx.dev("objective gap", gap.max(0.) / t);
                if !(gap <= t) {
                    return Err(format!("started from {name}, {s:?}, the fit returns {gb:?} with objective {}, the optimum {:?} has {}", p.obj(&gb), o.b, o.obj));
                }
                if name == "the result" && c.l1 == 0. && canonical(c.fl) && g.n_iter() > 10 {
                    return Err(format!("a restart from the result {b:?} takes {} iterations", g.n_iter()));
                }
                ctx.count("same optimum");
            }
            Err(Ferr::Panic(e)) => return Err(format!("started from {name}, {s:?}, the fit panics: {e}")),
            Err(e) => {
                if strict && c.l1 == 0. && canonical(c.fl) && !bounded(c.fl) {
                    return Err(format!("started from {name}, {s:?}, the fit fails: {e:?}"));
                }
                ctx.count("a start fails with an error");
            }
        }
    }
    Ok(())
}
pub fn groups(th: bool) -> Vec<Group> {
    let t = th as usize;
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.), (0.2, 0.3)];
    let f = Prod { reg: regs.to_vec(), wp: if th { vec![Wp::N, Wp::Wf0] } else { vec![Wp::Wf0] }, of: vec![Of::N, Of::V], ..full() };
    let q = Prod { reg: if th { regs.to_vec() } else { vec![(0., 0.), (0.2, 0.3)] }, of: if th { f.of.clone() } else { vec![Of::V] }, ..f.clone() };
    let tiny = Prod { wp: vec![Wp::Wf], of: vec![Of::V], ..f.clone() };
    let nol1 = Prod { reg: vec![(0., 0.), (0., 0.4)], ..tiny.clone() };
    let p2 = Prod { std: vec![true], ..nol1.clone() };
    let f32s = Prod { fps: vec![Fp::F32], ..tiny.clone() };
    let plans = |l1: bool| -> Vec<Plan> {
        let tiny = if l1 { &tiny } else { &nol1 };
        vec![
            Plan { world: w_p0(2, 3 + t), confs: f.confs() },
            Plan { world: w_p1(3, 3 + t), confs: tiny.confs() },
            Plan { world: w_p1y(3, 3 + t), confs: tiny.confs() },
            Plan { world: w_wide(3, 3 + t), confs: tiny.confs() },
            Plan { world: w_far(3, 3 + t), confs: nol1.confs() },
            Plan { world: w_p2(4, 4), confs: if th { tiny.confs() } else { p2.confs() } },
            Plan { world: w_p2s(4, 4), confs: if th { nol1.confs() } else { p2.confs() } },
            Plan { world: w_const(3, 3 + t), confs: nol1.confs() },
            Plan { world: w_tall(24, 1), confs: q.confs() },
            Plan { world: w_tall5(40, t), confs: tiny.confs() },
            Plan { world: w_tall1(90, t), confs: tiny.confs() },
        ]
    };
    let mut b = plans(true);
    b.push(Plan { world: w_p1(3, 3), confs: f32s.confs() });
    b.push(Plan { world: w_tall(24, 0), confs: f32s.confs() });
    vec![Group { name: "budgets", plans: b, check: budgets }, Group { name: "restarts", plans: plans(th), check: restarts }]
}
