//! C15: builder and fit option sequences.
use super::c14::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

/// What a model answers, for comparing models built along different paths.
fn answers(m: &dyn ModelApi, d: &Data, c: &Cfg, h: &How) -> Vec<(String, Out)> {
    let mut v = vec![("n_obs".to_string(), Out::Val(vec![], vec![m.n_obs(), m.n_eff()]))];
    match m.fit(h) {
        Err(e) => v.push(("fit".into(), Out::Err(e.kind().into()))),
        Ok(f) => {
            let b = f.result();
            let o = f.options();
            v.push(("result".into(), Out::Val(vec![], b.clone())));
            v.push(("likelihood, iterations".into(), Out::Val(vec![], vec![f.model_like(), f.n_iter() as f64])));
            v.push(("options".into(), Out::Val(vec![], vec![o.0 as f64, o.2, o.3])));
            v.push(("tolerance".into(), Out::Val(vec![], vec![o.1])));
            for (s, l) in f.history() {
                v.push(("history".into(), Out::Val(vec![], s)));
                v.push(("history".into(), Out::Val(vec![], vec![l])));
            }
            for q in [Q::Disp, Q::Cov, Q::Lr, Q::Aic, Q::Bic, Q::ResPear, Q::Predict(d.x.clone(), d.p, d.off.clone())] {
                v.push((format!("{q:?}"), f.get(&q)));
            }
            let _ = c;
        }
    }
    v
}
fn differ(a: &[(String, Out)], b: &[(String, Out)]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{:?} / {:?}", a.last().map(|x| (&x.0, x.1.show())), b.last().map(|x| (&x.0, x.1.show()))));
    }
    a.iter().zip(b).find(|(x, y)| !same(&x.1, &y.1)).map(|(x, y)| format!("{}: {} / {}", x.0, x.1.show(), y.1.show()))
}
fn ops_of(d: &Data) -> Vec<Op> {
    let n = d.y.len();
    vec![
        Op::Off(d.off.clone().unwrap_or(vec![0.1; n])),
        Op::Var(d.w.clone().unwrap_or(vec![1.5; n])),
        Op::Freq(d.f.clone().unwrap_or(vec![2; n])),
        Op::NoConst,
        Op::NoStd,
    ]
}
fn kind(o: &Op) -> usize {
    match o {
        Op::Off(_) => 0,
        Op::Var(_) => 1,
        Op::Freq(_) => 2,
        Op::NoConst => 3,
        Op::NoStd => 4,
    }
}
fn sequences(base: usize, len: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|s: &Vec<usize>| {
                (0..base).map(move |i| {
                    let mut s = s.clone();
                    s.push(i);
                    s
                })
            })
            .collect();
        all.extend(last.iter().cloned());
    }
    all
}
/// Every sequence of builder calls up to a length (and every order of all five).
fn builder(case: &Case, ctx: &mut Ctx, depth: usize) -> Result<(), String> {
    let c = case.conf.c;
    let ops = ops_of(&case.d);
    let h = How { max_iter: Some(60), ..how(&c) };
    let mut base = mk_build(&case.d, &c, case.conf.fp);
    // what each subset of options gives in one order
    let mut canon: Vec<Option<Vec<(String, Out)>>> = vec![None; 32];
    let mut go = |seq: &[usize], ctx: &mut Ctx| -> Result<(), String> {
        ctx.inner_states += 1;
        base.ops = seq.iter().map(|&i| ops[i].clone()).collect();
        let dup = (0..3).any(|k| base.ops.iter().filter(|o| kind(o) == k).count() > 1);
        let set = seq.iter().fold(0, |s, &i| s | 1 << i);
        let r = ctx.build(&base);
        match (dup, r) {
            (_, Err(Ferr::Panic(e))) => Err(format!("building with {seq:?} panicked: {e}")),
            (true, Ok(_)) => Err(format!("calls {:?} were accepted", base.ops)),
            (true, Err(_)) => {
                ctx.count("duplicate rejected");
                Ok(())
            }
            (false, Err(e)) => Err(format!("calls {:?} failed: {e:?}", base.ops)),
            (false, Ok(m)) => {
                ctx.transitions += 1;
                let a = answers(&*m, &case.d, &c, &h);
                if canon[set].is_none() {
                    // the same set in ascending order
                    let mut b2 = base.clone();
                    b2.ops = (0..5).filter(|i| set >> i & 1 == 1).map(|i| ops[i].clone()).collect();
                    let m2 = ctx.build(&b2).map_err(|e| format!("calls {:?} failed: {e:?}", b2.ops))?;
                    canon[set] = Some(answers(&*m2, &case.d, &c, &h));
                }
                ctx.traces += 1;
                match differ(canon[set].as_ref().unwrap(), &a) {
                    None => Ok(()),
                    Some(e) => Err(format!("builder calls {:?} and the same calls in ascending order differ: {e}", base.ops)),
                }
            }
        }
    };
    for s in sequences(5, depth) {
        go(&s, ctx)?;
    }
    // all permutations of all five
    let mut p = vec![0, 1, 2, 3, 4];
    loop {
        go(&p, ctx)?;
        let Some(i) = (0..4).rev().find(|&i| p[i] < p[i + 1]) else { break };
        let j = (i + 1..5).rev().find(|&j| p[j] > p[i]).unwrap();
        p.swap(i, j);
        p[i + 1..].reverse();
    }
    Ok(())
}
pub fn builder3(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    builder(case, ctx, 3)
}
pub fn builder5(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    builder(case, ctx, 5)
}
/// Every combination of lengths, in two orders of calls.
pub fn lengths(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    let c = case.conf.c;
    let n = case.d.x.len();
    let full = mk_build(&case.d, &c, case.conf.fp);
    let mut lens: Vec<usize> = vec![0, 1, 2, n - 1, n, n + 1, 2 * n];
    lens.sort();
    lens.dedup();
    let ys = |l: usize| -> Vec<f64> { (0..l).map(|i| case.d.y[i % n]).collect() };
    let opt: Vec<Option<usize>> = std::iter::once(None).chain(lens.iter().map(|&l| Some(l))).collect();
    for &ly in &lens {
        for &lo in &opt {
            for &lw in &opt {
                for &lf in &opt {
                    let mut ops = vec![];
                    if let Some(l) = lo {
                        ops.push(Op::Off((0..l).map(|i| 0.05 * (i % 3) as f64).collect()));
                    }
                    if let Some(l) = lw {
                        ops.push(Op::Var((0..l).map(|i| 0.5 + (i % 3) as f64).collect()));
                    }
                    if let Some(l) = lf {
                        ops.push(Op::Freq((0..l).map(|i| 1 + i % 3).collect()));
                    }
                    for rev in [false, true] {
                        let mut o = ops.clone();
                        if rev {
                            o.reverse();
                        }
                        if !c.icpt {
                            o.insert(o.len() / 2, Op::NoConst);
                        }
                        if !c.std {
                            o.insert(0, Op::NoStd);
                        }
                        let ok = ly == n && [lo, lw, lf].iter().flatten().all(|&l| l == n);
                        ctx.inner_states += 1;
                        let b = Build { y: ys(ly), ops: o, ..full.clone() };
                        match (ok, ctx.build(&b)) {
                            (_, Err(Ferr::Panic(e))) => return Err(format!("{n} rows, {ly} responses, {lo:?} offsets, {lw:?} weights, {lf:?} frequencies: panic {e}")),
                            (true, Err(e)) => return Err(format!("{n} rows, {ly} responses, {lo:?} offsets, {lw:?} weights, {lf:?} frequencies: {e:?}")),
                            (false, Ok(_)) => return Err(format!("{n} rows, {ly} responses, {lo:?} offsets, {lw:?} weights, {lf:?} frequencies: accepted")),
                            (true, Ok(_)) => ctx.count("matching lengths accepted"),
                            (false, Err(_)) => ctx.count("mismatch rejected"),
                        }
                    }
                }
            }
        }
    }
    ctx.traces += 1;
    Ok(())
}
/// Every sequence of fit option calls; the last value given of each counts.
fn fit_options(case: &Case, ctx: &mut Ctx, depth: usize) -> Result<(), String> {
    let c = case.conf.c;
    let m = ctx.build(&mk_build(&case.d, &c, case.conf.fp)).map_err(|e| format!("build failed: {e:?}"))?;
    let vals: [[f64; 3]; 4] = [[0.4, 0.15, 0.], [0.2, 0.05, 0.], [70., 3., 90.], [1e-9, 1e-4, 1e-7]];
    let mut done: std::collections::BTreeMap<String, Vec<(String, Out)>> = Default::default();
    for seq in sequences(4, depth) {
        // the t-th call of a setter passes its t-th value
        let mut cnt = [0usize; 4];
        let mut set: [Option<f64>; 4] = [None; 4];
        let calls: Vec<(u8, f64)> = seq
            .iter()
            .map(|&s| {
                let v = vals[s][cnt[s] % 3];
                cnt[s] += 1;
                set[s] = Some(v);
                (s as u8, v)
            })
            .collect();
        ctx.inner_states += 1;
        ctx.transitions += 2;
        let a = answers(&*m, &case.d, &c, &How { via: Via::Seq, seq: calls.clone(), ..Default::default() });
        if a.iter().any(|x| x.1 == Out::Err("panic".into())) {
            return Err(format!("fit with {calls:?} panicked"));
        }
        let key = format!("{set:?}");
        let want = match done.get(&key) {
            Some(w) => w.clone(),
            None => {
                let w = answers(
                    &*m,
                    &case.d,
                    &c,
                    &How { via: if set == [None; 4] { Via::Fit } else { Via::With }, l2: set[0].unwrap_or(0.), l1: set[1].unwrap_or(0.), max_iter: set[2].map(|x| x as usize), tol: set[3], ..Default::default() },
                );
                done.insert(key, w.clone());
                w
            }
        };
        ctx.traces += 1;
        if let Some(e) = differ(&want, &a) {
            return Err(format!("fit options {calls:?} (0 l2, 1 l1, 2 max_iter, 3 tol) and the options struct with the same values differ: {e}"));
        }
        // what the fit says it was done with
        if let Some((_, Out::Val(_, o))) = a.iter().find(|x| x.0 == "options") {
            for (got, want) in [(o[2], set[0].unwrap_or(0.)), (o[1], set[1].unwrap_or(0.))] {
                if got != want && (got - want).abs() > 1e-7 {
                    return Err(format!("fit options {calls:?}: the fit reports penalties l1 {} and l2 {}", o[1], o[2]));
                }
            }
            if set[2].is_some_and(|m| m != o[0]) {
                return Err(format!("fit options {calls:?}: the fit reports an iteration limit of {}", o[0]));
            }
        }
    }
    Ok(())
}
pub fn fit3(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    fit_options(case, ctx, 3)
}
pub fn fit5(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    fit_options(case, ctx, 5)
}
pub fn groups(th: bool) -> Vec<Group> {
    let t = th as usize;
    let one = Prod { reg: vec![(0., 0.4)], wp: vec![Wp::Wf], of: vec![Of::V], icpt: vec![true], std: vec![true], ..full() };
    let lens = Prod { reg: vec![(0., 0.)], wp: vec![Wp::N], of: vec![Of::N], std: if th { BOTH.to_vec() } else { vec![true] }, ..full() };
    let f32s = Prod { fps: vec![Fp::F32], ..one.clone() };
    let fo = Prod { reg: vec![(0., 0.)], wp: vec![Wp::N, Wp::Wf0], of: vec![Of::V], ..full() };
    vec![
        Group {
            name: "builder sequences",
            plans: vec![
                Plan { world: w_tall(12, t), confs: one.confs() },
                Plan { world: w_p1(3, 3), confs: if th { one.confs() } else { Prod { fls: vec![Fl::Logit, Fl::Pois, Fl::GamL], ..one.clone() }.confs() } },
                Plan { world: w_p2s(5, 5), confs: Prod { fls: if th { BUILTIN.to_vec() } else { vec![Fl::Lin] }, ..one.clone() }.confs() },
                Plan { world: w_tall(12, 0), confs: f32s.confs() },
            ],
            check: if th { builder5 } else { builder3 },
        },
        Group {
            name: "lengths",
            plans: vec![
                Plan { world: w_p1(1, 1 + t), confs: lens.confs() },
                Plan { world: w_p1y(2, 2), confs: lens.confs() },
                Plan { world: w_tall(7, 0), confs: lens.confs() },
                Plan { world: w_p0(1, 3), confs: lens.confs() },
            ],
            check: lengths,
        },
        Group {
            name: "fit options",
            plans: vec![
                Plan { world: w_tall(12, t), confs: fo.confs() },
                Plan { world: w_p1(3, 3 + t), confs: one.confs() },
                Plan { world: w_tall(12, 0), confs: f32s.confs() },
            ],
            check: if th { fit5 } else { fit3 },
        },
    ]
}
