//! C14: answers do not depend on what was asked before.
use crate::refm::*;
use crate::space::*;
use sut::*;

/// Same value up to rounding; exactly the same kind of outcome otherwise.
pub fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Val(s, v), Out::Val(t, w)) => s == t && same_v(v, w),
        (Out::Panic(_), Out::Panic(_)) => true,
        _ => a == b,
    }
}
pub fn same_v(v: &[f64], w: &[f64]) -> bool {
    let m = v.iter().chain(w).filter(|x| x.is_finite()).fold(0f64, |m, x| m.max(x.abs()));
    v.len() == w.len() && v.iter().zip(w).all(|(x, y)| x == y || x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-10 * m)
}
/// The query interface, with two arguments for every method that takes one.
pub fn queries(d: &Data, c: &Cfg, b: &[f64], refits: bool) -> Vec<Q> {
    let k = b.len();
    let s = if bounded(c.fl) { 0.05 } else { 0.4 };
    let alt = |t: f64| -> Vec<f64> { (0..k).map(|j| b[j] + t * s * [1., -0.5, 0.25, 0.75][j % 4]).collect() };
    let mut v = vec![
        Q::Aic,
        Q::Bic,
        Q::Cooks,
        Q::Cov,
        Q::Dev,
        Q::Disp,
        Q::Fisher(b.to_vec()),
        Q::Fisher(alt(1.)),
        Q::Hat,
        Q::Infl,
        Q::Lev,
        Q::Lr,
        Q::LrAgainst(b.to_vec()),
        Q::LrAgainst(alt(-1.)),
        Q::Ndf,
        Q::NullLike,
        Q::Predict(d.x.clone(), d.p, d.off.clone()),
        Q::Predict(d.x[..1.min(d.x.len())].to_vec(), d.p, None),
        Q::ResDev,
        Q::ResDevStd,
        Q::ResPart,
        Q::ResPear,
        Q::ResPearStd,
        Q::ResResp,
        Q::ResStudent,
        Q::ResWork,
        Q::Score(b.to_vec()),
        Q::Score(alt(1.)),
        Q::ScoreTest,
        Q::ScoreTestAgainst(b.to_vec()),
        Q::ScoreTestAgainst(alt(-1.)),
        Q::TestNdf,
        Q::Wald,
        Q::WaldAgainst(b.to_vec()),
        Q::WaldAgainst(alt(1.)),
        Q::WaldZ,
        Q::PLr,
        Q::PWald,
    ];
    if fam(c.fl) == Fam::Lin {
        v.extend([Q::RSq, Q::Rss]);
    }
    if matches!(fam(c.fl), Fam::Lin | Fam::Exp | Fam::Gam) {
        v.push(Q::ResQuant);
    }
    if refits {
        v.extend([Q::Loo, Q::PExact]);
    }
    v
}
fn fit<'a>(m: &'a dyn ModelApi, h: &How, ctx: &mut Ctx) -> Result<Box<dyn FitApi + 'a>, String> {
    ctx.transitions += 1;
    m.fit(h).map_err(|e| format!("a repeated fit failed: {e:?}"))
}
fn meta(f: &dyn FitApi) -> Out {
    let mut v = f.result();
    v.push(f.model_like());
    v.push(f.n_iter() as f64);
    let h = f.history();
    v.push(h.len() as f64);
    for (b, l) in h {
        v.extend(b);
        v.push(l);
    }
    let o = f.options();
    v.extend([o.0 as f64, o.2, o.3]);
    Out::Val(vec![v.len()], v)
}
struct Hist<'a> {
    qs: &'a [Q],
    fresh: &'a [Out],
}
impl Hist<'_> {
    fn ask(&self, f: &dyn FitApi, path: &[usize], i: usize, ctx: &mut Ctx) -> Result<(), String> {
        ctx.transitions += 1;
        let o = f.get(&self.qs[i]);
        if same(&o, &self.fresh[i]) {
            return Ok(());
        }
        Err(format!("after {:?}\n{:?} gives {}, on a fresh fit {}", path.iter().map(|&p| &self.qs[p]).collect::<Vec<_>>(), self.qs[i], o.show(), self.fresh[i].show()))
    }
}
fn start<'a>(case: &Case, ctx: &mut Ctx, keep: &'a mut Option<Box<dyn ModelApi>>) -> Result<Option<(&'a dyn ModelApi, How, Vec<f64>)>, String> {
    let c = case.conf.c;
    *keep = Some(ctx.build(&mk_build(&case.d, &c, case.conf.fp)).map_err(|e| format!("build failed: {e:?}"))?);
    let m: &'a dyn ModelApi = keep.as_deref().unwrap();
    let mut h = how(&c);
    let b = match m.fit(&h) {
        Ok(f) => f.result(),
        Err(Ferr::Panic(e)) => return Err(format!("fit panicked: {e}")),
        Err(_) => {
            ctx.count("no fit");
            return Ok(None);
        }
    };
    if b.iter().any(|x| !x.is_finite()) {
        ctx.count("no finite fit");
        return Ok(None);
    }
    // start the many fits to come close to where they end
    h.init = Some(b.clone());
    match m.fit(&h) {
        Ok(f) => Ok(Some((m, h, f.result()))),
        Err(Ferr::Panic(e)) => Err(format!("fit panicked: {e}")),
        Err(_) => {
            ctx.count("no fit from the result");
            Ok(None)
        }
    }
}

/// every ordered pair of queries on a fresh fit; then everything else, twice
pub fn pairs(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let mut keep = None;
    let Some((m, h, b)) = start(case, ctx, &mut keep)? else { return Ok(()) };
    let qs = queries(&case.d, &case.conf.c, &b, case.d.y.len() < 10 && (case.d.y.len() != 2 || case.d.p == 0));
    let fresh: Vec<Out> = qs.iter().map(|q| fit(m, &h, ctx).map(|f| f.get(q))).collect::<Result<_, _>>()?;
    let mf = meta(&*fit(m, &h, ctx)?);
    let hist = Hist { qs: &qs, fresh: &fresh };
    ctx.traces += 1;
    let n = qs.len();
    for i in 0..n {
        for j in 0..n {
            let f = fit(m, &h, ctx)?;
            hist.ask(&*f, &[], i, ctx)?;
            hist.ask(&*f, &[i], j, ctx)?;
            ctx.inner_states += 2;
            if (i * 7 + j) % n == 0 {
                // long histories: all queries forwards from here, then backwards
                let mut path = vec![i, j];
                for t in (0..n).chain((0..n).rev()) {
                    let k = (j + t) % n;
                    hist.ask(&*f, &path, k, ctx)?;
                    path.push(k);
                    ctx.inner_states += 1;
                }
                if !same(&meta(&*f), &mf) {
                    return Err(format!("the fit itself changed: {} before, {} after all queries", mf.show(), meta(&*f).show()));
                }
            }
        }
    }
    Ok(())
}
/// every history of three (or four) calls
fn deep(case: &Case, ctx: &mut Ctx, depth: usize) -> Result<(), String> {
    let mut keep = None;
    let Some((m, h, b)) = start(case, ctx, &mut keep)? else { return Ok(()) };
    let mut qs = queries(&case.d, &case.conf.c, &b, false);
    if depth > 3 {
        // the methods that use the caches in different ways
        qs.retain(|q| matches!(q, Q::Cov | Q::Dev | Q::Disp | Q::Hat | Q::Lev | Q::Lr | Q::ResPear | Q::ResDev | Q::ResStudent | Q::ScoreTest | Q::Wald | Q::WaldZ | Q::Fisher(_) | Q::Infl | Q::NullLike));
    }
    let fresh: Vec<Out> = qs.iter().map(|q| fit(m, &h, ctx).map(|f| f.get(q))).collect::<Result<_, _>>()?;
    let hist = Hist { qs: &qs, fresh: &fresh };
    ctx.traces += 1;
    let n = qs.len();
    let mut path = vec![0; depth - 1];
    loop {
        // a fresh fit, the path, then (the last call) every query on it: their own effects on each
        // other are part of the pair and triple histories, so one fit per path is enough
        let f = fit(m, &h, ctx)?;
        for t in 0..depth - 1 {
            hist.ask(&*f, &path[..t], path[t], ctx)?;
        }
        for j in 0..n {
            let k = (j + path[0]) % n;
            hist.ask(&*f, &path, k, ctx)?;
        }
        ctx.inner_states += (depth - 1 + n) as u64;
        let mut t = depth - 1;
        while t > 0 {
            t -= 1;
            path[t] += 1;
            if path[t] < n {
                break;
            }
            path[t] = 0;
            if t == 0 {
                return Ok(());
            }
        }
    }
}
pub fn triples(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    deep(case, ctx, 3)
}
pub fn quads(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    deep(case, ctx, 4)
}
/// queries interleaved on several fits of two models, with refits in between
pub fn interleave(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let mut keep = None;
    let Some((m, h, b)) = start(case, ctx, &mut keep)? else { return Ok(()) };
    // a second model: the same rows in another order with another response
    let mut d2 = case.d.clone();
    d2.y.rotate_left(1);
    d2.x.reverse();
    let m2 = ctx.build(&mk_build(&d2, &c, case.conf.fp)).map_err(|e| format!("build failed: {e:?}"))?;
    let hows = [how(&c), How { l2: c.l2 + 0.7, ..how(&c) }, How { init: Some(b.clone()), ..h.clone() }];
    let mut fits: Vec<(Box<dyn FitApi + '_>, Vec<Q>, Vec<Out>, Out)> = vec![];
    for (mm, dd) in [(m, &case.d), (&*m2, &d2)] {
        for hh in &hows {
            let Ok(f) = mm.fit(hh) else { continue };
            let b = f.result();
            if b.iter().any(|x| !x.is_finite()) {
                continue;
            }
            let qs = queries(dd, &c, &b, case.d.y.len() < 10);
            // each reference value from a model and a fit of its own
            let fresh = qs
                .iter()
                .map(|q| {
                    let m = dispatch_build(dd, &c, case.conf.fp)?;
                    let f = m.fit(hh).map_err(|e| format!("a repeated fit failed: {e:?}"))?;
                    Ok(f.get(q))
                })
                .collect::<Result<Vec<_>, String>>()?;
            let mf = meta(&*f);
            fits.push((f, qs, fresh, mf));
        }
    }
    ctx.traces += fits.len() as u64;
    let n = fits[0].1.len();
    for i in 0..n {
        for (t, f) in fits.iter().enumerate() {
            let k = (i * (t + 1) + t) % n;
            ctx.inner_states += 1;
            Hist { qs: &f.1, fresh: &f.2 }.ask(&*f.0, &[], k, ctx).map_err(|e| format!("fit {t}, interleaved, step {i}: {e}"))?;
        }
        let hh = &hows[i % 2];
        if let Ok(f) = m.fit(hh) {
            ctx.transitions += 1;
            let want = if i % 2 == 0 { Some(&fits[0].3) } else { fits.iter().find(|f| f.0.options().3 != c.l2).map(|f| &f.3) };
            if let Some(w) = want {
                if !same(&meta(&*f), w) {
                    return Err(format!("refit {i} of the same model with the same options: {} at first, {} now", w.show(), meta(&*f).show()));
                }
            }
        }
    }
    for (t, f) in fits.iter().enumerate() {
        if !same(&meta(&*f.0), &f.3) {
            return Err(format!("fit {t} changed while others were queried"));
        }
    }
    Ok(())
}
fn dispatch_build(d: &Data, c: &Cfg, fp: Fp) -> Result<Box<dyn ModelApi>, String> {
    crate::dispatch::build(&mk_build(d, c, fp)).map_err(|e| format!("build failed: {e:?}"))
}
pub fn groups(th: bool) -> Vec<Group> {
    let t = th as usize;
    let regs = vec![(0., 0.), (0., 0.4), (0.25, 0.)];
    let f = Prod { reg: regs.clone(), wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], ..full() };
    let one = Prod { reg: vec![(0., 0.4)], wp: vec![Wp::Wf], of: vec![Of::V], std: vec![true], ..f.clone() };
    let bare = Prod { reg: vec![(0., 0.)], wp: vec![Wp::N], of: vec![Of::N], std: vec![true], ..f.clone() };
    let ic = if th { one.clone() } else { Prod { icpt: vec![true], ..one.clone() } };
    let mut v = vec![];
    let wide = if th { f.clone() } else { Prod { wp: vec![Wp::Wf], of: vec![Of::V], ..f.clone() } };
    v.push(Group {
        name: "pairs",
        plans: vec![
            Plan { world: w_tall(12, t), confs: wide.confs() },
            Plan { world: w_p1(3 - !th as usize, 3 - !th as usize), confs: if th { wide.confs() } else { ic.confs() } },
            Plan { world: w_p0(3 - !th as usize, 3 - !th as usize), confs: ic.confs() },
        ],
        check: pairs,
    });
    let dc = if th { [one.confs(), bare.confs(), Prod { reg: vec![(0.25, 0.)], ..one.clone() }.confs()].concat() } else { [Prod { fls: vec![Fl::Logit, Fl::Cloglog, Fl::Pois, Fl::Bin3, Fl::ExpN, Fl::IgL], ..ic.clone() }.confs(), Prod { fls: vec![Fl::Lin, Fl::GamL, Fl::IgN], icpt: vec![false], ..bare }.confs()].concat() };
    v.push(Group { name: "triples", plans: vec![Plan { world: w_tall(12, 0), confs: dc.clone() }], check: triples });
    if th {
        v.push(Group { name: "quadruples", plans: vec![Plan { world: w_tall(12, 0), confs: dc }], check: quads });
    }
    v.push(Group {
        name: "interleaved",
        plans: vec![
            Plan { world: w_tall(12, t), confs: if th { f.confs() } else { Prod { of: vec![Of::V], ..f.clone() }.confs() } },
            Plan { world: w_p1(3 - !th as usize, 2 + t), confs: if th { wide.confs() } else { one.confs() } },
        ],
        check: interleave,
    });
    v
}
