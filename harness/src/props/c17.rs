//! C17: prediction.
use super::common::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

fn range(fl: Fl, v: f64) -> bool {
    match (fam(fl), lk(fl)) {
        (Fam::Lin, Lk::Id) => true,
        (Fam::Logistic, _) => (0. ..=1.).contains(&v),
        (Fam::Bin(n), _) => (0. ..=n as f64).contains(&v),
        (_, Lk::Log) => v >= 0.,
        _ => true,
    }
}
pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let f32_ = case.conf.fp == Fp::F32;
    let m = ctx.build(&mk_build(&case.d, &c, case.conf.fp)).map_err(|e| format!("build failed: {e:?}"))?;
    ctx.transitions += 1;
    let fit = match m.fit(&how(&c)) {
        Ok(f) => f,
        Err(Ferr::Panic(e)) => return Err(format!("fit panicked: {e}")),
        Err(_) => {
            ctx.count("no fit");
            return Ok(());
        }
    };
    let b = fit.result();
    let p = Prob::new(&case.d, c);
    if b.len() != p.k || b.iter().any(|x| !x.is_finite()) {
        return Err(format!("coefficients {b:?}"));
    }
    ctx.traces += 1;
    let nc = case.d.p;
    let lat = [-3.0, -0.75, 0., 0.5, 2.25];
    // every row of a lattice, in one call; then calls with 0, 1, 2 rows; training rows
    let mut rows: Vec<Vec<f64>> = vec![vec![]];
    for j in 0..nc {
        if j < 2 {
            rows = rows.into_iter().flat_map(|r| lat.iter().map(move |&v| { let mut r = r.clone(); r.push(v); r })).collect();
        } else {
            rows.iter_mut().enumerate().for_each(|(i, r)| r.push(lat[(i * 3 + j) % 5] * 0.5));
        }
    }
    let mut calls: Vec<(Vec<Vec<f64>>, Option<Vec<f64>>)> = vec![];
    for rs in [rows.clone(), vec![], rows[..1].to_vec(), rows.iter().rev().take(2).cloned().collect(), case.d.x.clone()] {
        let o: Vec<f64> = (0..rs.len()).map(|i| [0.4, -0.3, 0., 1.1][i % 4] * if bounded(c.fl) { 0.1 } else { 1. }).collect();
        calls.push((rs.clone(), None));
        calls.push((rs.clone(), Some(o)));
        let n = rs.len();
        calls.push((rs, Some(vec![0.; n])));
    }
    let off = case.d.off.clone();
    calls.push((case.d.x.clone(), off.clone()));
    let u = if f32_ { 2e-6 } else { 1e-14 };
    for (rs, off) in calls {
        ctx.inner_states += 1;
        ctx.transitions += 1;
        let got = want(&*fit, &Q::Predict(rs.clone(), nc, off.clone()))?;
        if got.len() != rs.len() {
            return Err(format!("{} predictions for {} rows", got.len(), rs.len()));
        }
        if case.letters.iter().map(|&l| l as usize).sum::<usize>() % 4 == 0 {
            for l in LAYOUTS {
                ctx.transitions += 1;
                let other = want(&*fit, &Q::PredictL(l, rs.clone(), nc, off.clone()))?;
                // (rows are summed in another order: the predictor may move by rounding)
                let same = other.len() == got.len()
                    && (0..got.len()).all(|i| {
                        let (x, y) = (other[i], got[i]);
                        let t = (0..nc).map(|j| (rs[i][j] * b[j + c.icpt as usize]).abs()).sum::<f64>() + b[0].abs() + off.as_ref().map_or(0., |o| o[i].abs());
                        let slope = if y.is_finite() { y.abs().max(1.) } else { 1. };
                        x == y || (x - y).abs() <= u * 100. * (1. + t) * slope || x.is_nan() && y.is_nan()
                    });
                if !same && !bounded(c.fl) {
                    return Err(format!("predictions for rows {rs:?} in layout {l:?} are {other:?}, otherwise {got:?}"));
                }
            }
        }
        for (i, r) in rs.iter().enumerate() {
            let mut w = off.as_ref().map_or(0., |o| o[i]);
            let mut mag = w.abs();
            let o = c.icpt as usize;
            if c.icpt {
                w += b[0];
                mag += b[0].abs();
            }
            for j in 0..nc {
                w += r[j] * b[j + o];
                mag += (r[j] * b[j + o]).abs();
            }
            let e = u * (mag + 1.) * 8.;
            // monotone inverse links: rounding of the predictor gives an interval
            let (x, y) = (mu(c.fl, w - e), mu(c.fl, w + e));
            let near_pole = bounded(c.fl) && w.abs() <= 4. * e;
            if near_pole || (bounded(c.fl) && !in_domain(c.fl, w)) {
                continue; // the documented domain of the link excludes it
            }
            let (lo, hi) = (x.min(y), x.max(y));
            if f32_ && (hi > 1e38 || hi < 1e-35 && lo >= 0.) {
                continue;
            }
            let (lo, hi) = (lo - u * 100. * lo.abs() - 1e-300, hi + u * 100. * hi.abs() + 1e-300);
            // (an infinite end has no neighbourhood)
            let ok = (got[i] >= lo || lo.is_nan() && got[i] == f64::INFINITY) && (got[i] <= hi || hi.is_nan() && got[i] == f64::INFINITY) || got[i] == mu(c.fl, w);
            if !ok {
                return Err(format!("prediction for x={r:?} offset {:?} with coefficients {b:?} is {:e}, the inverse link of {w} is {:e}", off.map(|o| o[i]), got[i], mu(c.fl, w)));
            }
            if !range(c.fl, got[i]) {
                return Err(format!("prediction {} for x={r:?} is outside the response's range", got[i]));
            }
        }
    }
    // training rows and offset: the fitted means
    let pred = want(&*fit, &Q::Predict(case.d.x.clone(), nc, off.clone()))?;
    let res = want(&*fit, &Q::ResResp)?;
    let bm = p.bmag(&b);
    let w = p.lin(&b);
    for i in 0..p.n {
        // (the fit works in standardized coordinates)
        let e = u * 100. * bm;
        if bounded(c.fl) && w[i].abs() < 1e3 * e {
            continue;
        }
        let t = 4. * (mu(c.fl, w[i] + e) - mu(c.fl, w[i] - e)).abs() + u * 10. * (p.y[i].abs() + pred[i].abs());
        ctx.within("prediction on the training rows is the fitted mean", p.y[i] - res[i], pred[i], t).map_err(|m| format!("row {i}: {m}"))?;
    }
    Ok(())
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    let mut v = plans(th, &regs, &BUILTIN);
    let f32s = Prod { fps: vec![Fp::F32], reg: regs.to_vec(), wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], ..full() };
    v.push(Plan { world: w_p1(3, 3 + th as usize), confs: f32s.confs() });
    v.push(Plan { world: w_tall(24, 1), confs: f32s.confs() });
    vec![Group { name: "predict", plans: v, check }]
}
