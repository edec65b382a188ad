//! C18: links and families over lattices of floating-point numbers.
use crate::refm::*;
use crate::space::*;
use sut::eval::*;
use sut::*;

fn unit(fp: Fp) -> (f64, f64, f64) {
    // (epsilon, smallest normal, largest)
    match fp {
        Fp::F64 => (f64::EPSILON, f64::MIN_POSITIVE, f64::MAX),
        Fp::F32 => (f32::EPSILON as f64, f32::MIN_POSITIVE as f64, f32::MAX as f64),
    }
}
/// The i-th float with `bits` leading mantissa bits, counting exponents from `lo` up.
fn lattice(i: u64, bits: u32, lo: i32) -> f64 {
    let e = lo as i64 + (i >> bits) as i64;
    let m = (i & ((1 << bits) - 1)) << (52 - bits);
    f64::from_bits((((e + 1023) as u64) << 52) | m)
}
/// canonical link of the family of fl
fn canon_of(fl: Fl) -> Option<Fl> {
    match fl {
        Fl::Cloglog => Some(Fl::Logit),
        Fl::ExpL => Some(Fl::ExpN),
        Fl::GamL => Some(Fl::GamN),
        Fl::IgL => Some(Fl::IgN),
        _ => None,
    }
}
fn eta_ref(fl: Fl, w: f64) -> f64 {
    match fl {
        Fl::Cloglog => {
            let t = w.exp();
            if t > 1. { t + (-(-t).exp()).ln_1p() } else { t.exp_m1().ln() }
        }
        Fl::ExpL | Fl::GamL => -(-w).exp(),
        Fl::IgL => -0.5 * (-2. * w).exp(),
        _ => w,
    }
}
/// derivative of the natural parameter by the linear predictor, 1/(g'(mu) V(mu)), without forming the mean
fn deta_ref(fl: Fl, w: f64) -> f64 {
    match fl {
        Fl::ExpL | Fl::GamL => (-w).exp(),
        Fl::IgL => (-2. * w).exp(),
        // e^w / (1 - e^(-e^w))
        Fl::Cloglog => w.exp() / -(-w.exp()).exp_m1(),
        _ => deta(fl, w),
    }
}
/// which part of the lattice this state stands for
fn part(case: &Case) -> (u64, u64) {
    let n = case.world.letters(case.conf.c.fl).len() as u64;
    (case.letters.first().copied().unwrap_or(0) as u64, n)
}
fn links(case: &Case, ctx: &mut Ctx, bits64: u32, bits32: u32) -> Result<(), String> {
    let (fl, fp) = (case.conf.c.fl, case.conf.fp);
    let (eps, tiny, huge) = unit(fp);
    // the link of the binomial family can't be named from outside: its inverse is that of predictions
    let named = ev(fl, fp, Ev::Func, &[1.])?.is_some();
    let b = Build { fl, fp, y: vec![1.], yt: Yt::Default, x: vec![vec![1.]], ncols: 1, layout: Layout::C, ops: vec![Op::NoConst, Op::NoStd, Op::Off(vec![if in_domain(fl, 1.) { 1. } else { -1. }])] };
    let md = ctx.build(&b).map_err(|e| format!("build failed: {e:?}"))?;
    let f = md
        .fit(&How { l2: if fp == Fp::F32 { 1e24 } else { 1e90 }, init: Some(vec![0.]), via: Via::With, ..Default::default() })
        .map_err(|e| format!("fit failed: {e:?}"))?;
    let (bits, lo, hi) = match fp {
        Fp::F64 => (bits64, -1022, 1023),
        Fp::F32 => (bits32, -126, 127),
    };
    let total = ((hi - lo + 1) as u64) << bits;
    let (k, parts) = part(case);
    let (a, b) = (total * k / parts, total * (k + 1) / parts);
    let e = |what: Ev, v: &[f64]| -> Result<Vec<f64>, String> { ev(fl, fp, what, v).map(|o| o.unwrap()).map_err(|m| format!("{what:?} panics: {m}")) };
    let (rlo, rhi) = match lk(fl) {
        Lk::Id => (f64::NEG_INFINITY, f64::INFINITY),
        Lk::Logit | Lk::Cll => (0., match fam(fl) { Fam::Bin(n) => n as f64, _ => 1. }),
        _ => (0., f64::INFINITY),
    };
    let inside = |v: f64| v.abs() > tiny / eps && v.abs() < huge * eps;
    for sign in [1., -1.] {
        if sign > 0. && !in_domain(fl, 1.) || sign < 0. && !in_domain(fl, -1.) {
            continue;
        }
        let mut last: Option<(f64, f64)> = None;
        let mut i = a;
        while i < b {
            let j = (i + 16384).min(b);
            let ws: Vec<f64> = (i..j).map(|q| sign * lattice(q, bits, lo)).collect();
            let pred = want(&*f, &Q::Predict(vec![vec![0.]; ws.len()], 1, Some(ws.clone())))?;
            let mus = if named { e(Ev::Inv, &ws)? } else { pred.clone() };
            let back = if named { e(Ev::Func, &mus)? } else { vec![] };
            let nat = if named { e(Ev::Nat, &ws)? } else { vec![] };
            let dnat = if named { e(Ev::DNat, &ws)? } else { vec![] };
            let cn = match canon_of(fl) {
                Some(c) => Some(ev(c, fp, Ev::Func, &mus)?.unwrap()),
                None => None,
            };
            ctx.inner_states += ws.len() as u64;
            ctx.transitions += 4 * ws.len() as u64;
            for (q, &w) in ws.iter().enumerate() {
                let m = mus[q];
                let r = mu(fl, w);
                if pred[q].to_bits() != m.to_bits() && !(pred[q].is_nan() && m.is_nan()) && pred[q] != m {
                    return Err(format!("the prediction for a linear predictor of {w:e} is {:e}, the inverse link {m:e}", pred[q]));
                }
                if fl == Fl::IgN && w.abs() > huge / 4. {
                    continue; // twice the parameter leaves the range
                }
                if m.is_nan() || m < rlo || m > rhi {
                    return Err(format!("the inverse link maps {w:e} to {m}"));
                }
                // overflow and underflow are where the true value leaves the range, too
                if r.abs() < huge / 4. {
                    let t = 16. * eps * r.abs() + tiny;
                    ctx.dev("inverse link", (m - r).abs() / t);
                    if !((m - r).abs() <= t) {
                        return Err(format!("the inverse link maps {w:e} to {m:e}, which should be {r:e}"));
                    }
                }
                if let Some((w0, m0)) = last {
                    // all built-in inverse links increase
                    let (lo_m, hi_m) = if sign > 0. { (m0, m) } else { (m, m0) };
                    if lo_m > hi_m + 4. * eps * hi_m.abs() {
                        return Err(format!("the inverse link is not monotone: {w0:e} and {w:e} give {m0:e} and {m:e}"));
                    }
                }
                last = Some((w, m));
                if !named {
                    continue;
                }
                // and back
                if m.abs() > tiny / eps && m.abs() < huge * eps && m < rhi && m > rlo {
                    let t = 8. * eps * (w.abs() + (r / dmu(fl, w)).abs()) + tiny;
                    if t < 0.05 * (1. + w.abs()) {
                        ctx.dev("link of the inverse link", (back[q] - w).abs() / t);
                        if !((back[q] - w).abs() <= t) {
                            return Err(format!("the link of the inverse link of {w:e} is {:e} (mean {m:e})", back[q]));
                        }
                        ctx.traces += 1;
                    }
                    if let Some(c) = &cn {
                        let n = eta_ref(fl, w);
                        let t = 8. * eps * (n.abs() + (r / var(fl, w)).abs() + 1.);
                        if t < 0.05 * (1. + n.abs()) && inside(n) {
                            ctx.dev("natural parameter and canonical link of the mean", (nat[q] - c[q]).abs() / t);
                            if !((nat[q] - c[q]).abs() <= t) {
                                return Err(format!("the natural parameter at {w:e} is {:e}, the canonical link of the mean {m:e} is {:e}", nat[q], c[q]));
                            }
                        }
                    }
                }
                if canonical(fl) {
                    if nat[q] != w || dnat[q] != 1. {
                        return Err(format!("a canonical link has natural parameter {:e} with derivative {} at {w:e}", nat[q], dnat[q]));
                    }
                } else {
                    let (n, d) = (eta_ref(fl, w), deta_ref(fl, w));
                    // e^w and e^-w, which all of them are made of
                    if inside(w.exp()) && inside(n) {
                        let t = 8. * eps * (n.abs() + if fl == Fl::Cloglog { 1. } else { 0. });
                        ctx.dev("natural parameter", (nat[q] - n).abs() / t);
                        if !((nat[q] - n).abs() <= t) {
                            return Err(format!("the natural parameter at {w:e} is {:e}, not {n:e}", nat[q]));
                        }
                    }
                    if inside(w.exp()) && inside(d) {
                        let t = 8. * eps * d.abs();
                        ctx.dev("derivative of the natural parameter", (dnat[q] - d).abs() / t);
                        if !((dnat[q] - d).abs() <= t) {
                            return Err(format!("the derivative of the natural parameter at {w:e} is {:e}, 1/(g'(mu) V(mu)) is {d:e}", dnat[q]));
                        }
                    }
                }
            }
            i = j;
        }
    }
    Ok(())
}
pub fn links_q(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    links(case, ctx, 5, 9)
}
pub fn links_t(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    links(case, ctx, 12, 19)
}
fn ys(fl: Fl, th: bool) -> Vec<f64> {
    let mut v: Vec<f64> = match fam(fl) {
        Fam::Lin => vec![0., 1., -1., 0.375, 1e4, -1e-6],
        Fam::Logistic => vec![0., 1., 0.5, 0.125, 0.9375, 1e-6],
        Fam::Pois => vec![0., 1., 2., 17., 4000., 65535.],
        Fam::Bin(n) => (0..=n).map(|k| k as f64).collect(),
        _ => vec![1., 0.375, 2.5, 1e-4, 3000., 1e-6],
    };
    if th {
        v.extend(match fam(fl) {
            Fam::Lin => vec![1e-3, -2.75, 65536., -1e9, 3.0, 0.7],
            Fam::Logistic => vec![1. - 1. / 65536., 0.25, 0.75, 1e-3, 0.998, 1e-10],
            Fam::Pois => vec![3., 5., 100., 255., 1e6, 4e9],
            Fam::Bin(_) => vec![],
            _ => vec![0.01, 0.7, 1.5, 10., 100., 1e6],
        });
    }
    v
}
/// One observation at a fixed linear predictor: with a ridge penalty that dwarfs the information
/// the coefficient stays at zero, so the offset is the predictor.
fn points(case: &Case, ctx: &mut Ctx, th: bool) -> Result<(), String> {
    let (fl, fp) = (case.conf.c.fl, case.conf.fp);
    let (eps, tiny, huge) = unit(fp);
    let big = if fp == Fp::F32 { 1e24 } else { 1e90 };
    let lim = (tiny / eps).max(1. / (huge * eps)).sqrt();
    let (bits, lo, hi) = if th { (5, -40, 20) } else { (2, -20, 13) };
    let total = ((hi - lo + 1) as u64) << bits;
    let (k, parts) = part(case);
    let mut ws: Vec<f64> = vec![];
    for i in total * k / parts..total * (k + 1) / parts {
        let w = lattice(i, bits, lo);
        ws.extend([w, -w]);
    }
    if k == 0 {
        ws.push(0.);
    }
    for &y in &ys(fl, th) {
        let y = if fp == Fp::F32 { y as f32 as f64 } else { y };
        let mut all = ws.clone();
        // the predictor of a mean equal to the response
        let own = link(fl, y);
        let own_at = all.len();
        if k == 0 && own.is_finite() {
            all.push(own);
        }
        for (i, &w) in all.iter().enumerate() {
            let w = if fp == Fp::F32 { w as f32 as f64 } else { w };
            let own = i == own_at;
            if !in_domain(fl, w) {
                continue;
            }
            let (m, n, d, v) = (mu(fl, w), eta_nat(fl, w), deta_ref(fl, w), var(fl, w));
            let a = y * n - ll(fl, y, w);
            let info = v * d * d;
            let parts_ok = [m, n, d, v, a, info, w.exp(), d * (y - m)].iter().all(|&x| x.is_finite() && x.abs() < 1. / lim);
            if !parts_ok || fl == Fl::Cloglog && w.exp() < tiny || info > big * eps * 1e-3 || (d * (y - m)).abs() > big * eps * w.abs().max(lim) {
                ctx.count("leaves the float range");
                continue;
            }
            ctx.inner_states += 1;
            let b = Build { fl, fp, y: vec![y], yt: Yt::Default, x: vec![vec![1.]], ncols: 1, layout: Layout::C, ops: vec![Op::Off(vec![w]), Op::NoConst, Op::NoStd] };
            let at = format!("y = {y:e} at predictor {w:e} (mean {m:e})");
            let md = ctx.build(&b).map_err(|e| format!("{at}: build failed: {e:?}"))?;
            ctx.transitions += 8;
            let f = match md.fit(&How { l2: big, init: Some(vec![0.]), via: Via::With, ..Default::default() }) {
                Ok(f) => f,
                Err(e) => return Err(format!("{at}: fit failed: {e:?}")),
            };
            let c = f.result()[0];
            if !(c.abs() <= eps * w.abs().max(lim)) {
                return Err(format!("{at}: a coefficient of {c:e} against a penalty of {big:e}"));
            }
            let get = |q: &Q| -> Result<f64, String> {
                let o = want(&*f, q).map_err(|e| format!("{at}: {e}"))?;
                if o.len() == 1 { Ok(o[0]) } else { Err(format!("{at}: {} values for one observation", o.len())) }
            };
            let u = 16. * eps;
            // the mean the library computes is off by a rounding of its argument and of itself
            let dm = u * (m.abs() + dmu(fl, w).abs() * w.abs()) + tiny;
            let mut ck = |what: &'static str, got: f64, want: f64, t: f64| -> Result<(), String> {
                ctx.dev(what, (got - want).abs() / t);
                if (got - want).abs() <= t { Ok(()) } else { Err(format!("{at}: {what} is {got:e}, expected {want:e} within {t:e}")) }
            };
            ck("mean", get(&Q::Predict(vec![vec![0.]], 1, Some(vec![w])))?, m, dm)?;
            ck("response residual", get(&Q::ResResp)?, y - m, dm + u * y.abs())?;
            let tl = u * ((y * n).abs() + a.abs() + ll(fl, y, w).abs() + sat(fl, y).abs() + w.abs() * (d * (y.abs() + m.abs())).abs() + 1. * softening(fl)) + tiny;
            ck("log-likelihood", f.model_like(), ll(fl, y, w), tl)?;
            // (a difference in the reference as well, so it is compared where it is resolved)
            let dev = 2. * (sat(fl, y) - ll(fl, y, w));
            let got = get(&Q::Dev)?;
            ck("deviance", got, dev.max(0.), 4. * tl)?;
            if got < 0. {
                return Err(format!("{at}: negative deviance {got:e}"));
            }
            if dev > 8. * tl && !(got > 0.) {
                return Err(format!("{at}: deviance {got:e} for a mean away from the response"));
            }
            if own {
                ck("deviance at the response", got, 0., 4. * tl)?;
            }
            let rd = get(&Q::ResDev)?;
            ck("squared deviance residual", rd * rd, got, u * got + tiny)?;
            if (y - m).abs() > 4. * dm + u * y.abs() && got > 0. && rd.signum() != (y - m).signum() {
                return Err(format!("{at}: deviance residual {rd:e} with the wrong sign"));
            }
            let sc = d * (y - m);
            let ts = u * (sc.abs() + d * (y.abs() + m.abs()) + w.abs() * (d * dmu(fl, w)).abs() + (w * sc).abs() * !canonical(fl) as u8 as f64) + tiny;
            ck("score", get(&Q::Score(vec![0.]))?, sc, ts)?;
            // variance from the rounded mean
            let dv = match fam(fl) {
                Fam::Lin => 0.,
                Fam::Logistic | Fam::Bin(_) => dm,
                Fam::Pois => dm,
                Fam::Exp | Fam::Gam => 2. * m * dm,
                Fam::Ig => 3. * m * m * dm,
            } + u * v;
            let ti = d * d * dv + u * info * (1. + if canonical(fl) { 0. } else { 2. * w.abs() });
            let h = get(&Q::Hat)? * big;
            if info > lim {
                ck("information", h, info, ti + tiny * big)?;
            } else if !(h >= 0. && h <= lim * 2. + ti) {
                return Err(format!("{at}: information {h:e}, expected {info:e}"));
            }
            if dv < 0.01 * v && v > lim {
                let t = (dm + u * y.abs()) / v.sqrt() + (y - m).abs() / v.sqrt() * (dv / v);
                ck("Pearson residual", get(&Q::ResPear)?, (y - m) / v.sqrt(), t + tiny)?;
                let wk = (y - m) / (v * d);
                ck("working residual", get(&Q::ResWork)?, wk, (dm + u * y.abs()) / (v * d) + wk.abs() * (dv / v + u * (1. + w.abs())) + tiny)?;
            }
            ctx.traces += 1;
        }
    }
    Ok(())
}
/// natural parameter
fn eta_nat(fl: Fl, w: f64) -> f64 {
    eta_ref(fl, w)
}
/// families whose log-partition does not vanish with its arguments
fn softening(fl: Fl) -> f64 {
    match fam(fl) {
        Fam::Bin(n) => n as f64,
        _ => 1.,
    }
}
pub fn points_q(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    points(case, ctx, false)
}
pub fn points_t(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    points(case, ctx, true)
}
pub fn groups(th: bool) -> Vec<Group> {
    let one = Prod { reg: vec![(0., 0.)], wp: vec![Wp::N], of: vec![Of::N], icpt: vec![true], std: vec![true], fls: BUILTIN.to_vec(), ..full() };
    let f32s = Prod { fps: vec![Fp::F32], ..one.clone() };
    let plans = || vec![Plan { world: w_p1y(1, 1), confs: one.confs() }, Plan { world: w_p1y(1, 1), confs: f32s.confs() }];
    vec![
        Group { name: "links", plans: plans(), check: if th { links_t } else { links_q } },
        Group { name: "points", plans: plans(), check: if th { points_t } else { points_q } },
    ]
}
