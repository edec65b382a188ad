//! C22: which responses are accepted, at every position, and what they become.
use crate::refm::*;
use crate::space::*;
use sut::*;

fn types(fl: Fl) -> Vec<Yt> {
    match fam(fl) {
        Fam::Logistic => vec![Yt::Bool, Yt::F32, Yt::F64],
        Fam::Pois => vec![Yt::U8, Yt::U16, Yt::U32, Yt::U64, Yt::Usize],
        Fam::Bin(_) => vec![Yt::U16],
        _ => vec![Yt::F32, Yt::F64],
    }
}
/// every value at which acceptance or conversion could change, as the element type holds it
fn alphabet(fl: Fl, yt: Yt) -> Vec<f64> {
    let ints = |top: f64| -> Vec<f64> {
        let mut v: Vec<f64> = vec![0., 1., 2., 3., 4., 7., 11., 12., 13., 127., 128., 254., 255., 256., 32767., 32768., 65534., 65535., 65536., 16777215., 16777216., 16777217., 2147483648., 4294967295., 4294967296., 9007199254740993., 1e19, 18446744073709551615.];
        v.retain(|&x| x <= top);
        v
    };
    let mut v = match yt {
        Yt::Bool => vec![0., 1.],
        Yt::U8 => ints(255.),
        Yt::U16 => match fam(fl) {
            Fam::Bin(n) => {
                let mut v: Vec<f64> = (0..=n + 2).map(|k| k as f64).collect();
                v.extend([255., 256., 257., 32768., 65534., 65535.]);
                v
            }
            _ => ints(65535.),
        },
        Yt::U32 => ints(4294967295.),
        Yt::U64 | Yt::Usize => ints(f64::MAX),
        _ => {
            let (e, tiny, den, max) = if yt == Yt::F32 {
                (f32::EPSILON as f64, f32::MIN_POSITIVE as f64, f32::from_bits(1) as f64, f32::MAX as f64)
            } else {
                (f64::EPSILON, f64::MIN_POSITIVE, f64::from_bits(1), f64::MAX)
            };
            let mut v = vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0., -0., 0.5, -0.5, 0.1, -1., 2., 7.25];
            v.extend([den, -den, tiny, -tiny, e, -e, 1. - e / 2., 1., 1. + e, max, -max]);
            if yt == Yt::F64 {
                // around what single precision can hold
                v.extend([1e-60, -1e-60, 1e-45, 3e-46, f32::MAX as f64, 3.4028235e38, 3.5e38, -3.5e38, 1. + 1e-10, 1. - 1e-10]);
            }
            v
        }
    };
    if yt == Yt::F32 {
        v.iter_mut().for_each(|x| *x = *x as f32 as f64);
    }
    v
}
fn within_support(fl: Fl, v: f64) -> bool {
    match fam(fl) {
        Fam::Lin => v.is_finite(),
        Fam::Logistic => (0. ..=1.).contains(&v),
        Fam::Bin(n) => v <= n as f64,
        Fam::Pois => true,
        _ => v > 0. && v.is_finite(),
    }
}
/// what the element becomes in the model, if it may
fn enters(fl: Fl, fp: Fp, v: f64) -> Option<f64> {
    let held = if fp == Fp::F32 { v as f32 as f64 } else { v };
    (within_support(fl, v) && within_support(fl, held)).then_some(held)
}
fn opts(k: usize, fl: Fl, n: usize) -> Vec<Op> {
    let all = vec![
        Op::Off(ovec(Of::V, fl, n).unwrap()),
        Op::Freq((0..n).map(|i| (i + k) % 2 * 2).collect()),
        Op::Var((0..n).map(|i| [0., 2.5, 1.][(i + k) % 3]).collect()),
    ];
    match k {
        0 => vec![],
        1 => vec![Op::NoConst],
        2 => vec![Op::NoStd],
        3 => all,
        4 => vec![Op::NoConst, Op::NoStd],
        _ => all.into_iter().rev().chain([Op::NoStd]).collect(),
    }
}
fn judge(b: &Build, ctx: &mut Ctx, refit: bool) -> Result<(), String> {
    let n = b.y.len();
    let at = || format!("{:?} with {:?}, responses {:?}, options {:?}, {:?}", b.fl, b.yt, if n > 20 { &b.y[..0] } else { &b.y[..] }, b.ops, b.layout);
    let expect: Option<Vec<f64>> = b.y.iter().map(|&v| enters(b.fl, b.fp, v)).collect();
    ctx.inner_states += 1;
    match (ctx.build(b), expect) {
        (Err(Ferr::InvalidY), None) => Ok(()),
        (Err(e), None) => Err(format!("{}: {} instead of the invalid-response error", at(), e.kind())),
        (Ok(_), None) => {
            let i = b.y.iter().position(|&v| enters(b.fl, b.fp, v).is_none()).unwrap();
            Err(format!("{}: response {} ({:e}) is outside the support but was accepted", at(), i, b.y[i]))
        }
        (Err(e), Some(_)) => Err(format!("{}: supported responses rejected with {}", at(), e.kind())),
        (Ok(m), Some(w)) => {
            let y = m.y();
            ctx.traces += 1;
            if let Some(i) = (0..n).find(|&i| y.get(i) != Some(&w[i])) {
                return Err(format!("{}: response {i} is {:e} but enters as {:?}", at(), w[i], y.get(i)));
            }
            if y.len() != n {
                return Err(format!("{}: {} values for {n} responses", at(), y.len()));
            }
            // (predictions cancel large coefficients when responses differ by orders of magnitude)
            if !refit || w.iter().any(|v| *v != 0. && !(0.01..300.).contains(&v.abs())) || b.fl == Fl::LLog && w.iter().any(|v| *v <= 0.) {
                return Ok(());
            }
            let off = b.ops.iter().find_map(|o| if let Op::Off(v) = o { Some(v.clone()) } else { None });
            ctx.transitions += 1;
            let Ok(f) = m.fit(&How::default()) else {
                ctx.count("no fit");
                return Ok(());
            };
            let mu = want(&*f, &Q::Predict(b.x.clone(), b.ncols, off))?;
            let r = want(&*f, &Q::ResResp)?;
            let eps = if b.fp == Fp::F32 { 1e-3 } else { 1e-9 };
            for i in 0..n {
                let t = eps * (1. + w[i].abs() + mu[i].abs());
                if mu[i].is_finite() && mu[i].abs() < 1e4 {
                    let d = (r[i] + mu[i] - w[i]).abs();
                    if !(d <= t) {
                        return Err(format!("{}: residual {:e} plus fitted mean {:e} is not the response {:e}", at(), r[i], mu[i], w[i]));
                    }
                    ctx.dev("residual plus mean", d / t);
                }
            }
            ctx.count("accepted responses compared with the residuals of a fit");
            Ok(())
        }
    }
}
fn words(case: &Case, ctx: &mut Ctx, depth: usize) -> Result<(), String> {
    let (fl, fp) = (case.conf.c.fl, case.conf.fp);
    for yt in types(fl) {
        let a = alphabet(fl, yt);
        for n in 1..=depth {
            let mut idx = vec![0usize; n];
            'w: loop {
                let y: Vec<f64> = idx.iter().map(|&i| a[i]).collect();
                let ks = if n < 3 { 0..6 } else { 0..1 };
                for k in ks {
                    let layout = if k == 5 { Layout::Reversed } else if k == 4 { Layout::Strided } else { Layout::C };
                    let x = (0..n).map(|i| vec![[0.6, 1.3, 0.9, 2.][i % 4]]).collect();
                    let b = Build { fl, fp, y: y.clone(), yt, x, ncols: 1, layout, ops: opts(k, fl, n) };
                    judge(&b, ctx, n <= 2 && k == 0 || n == 3 && idx[0] <= 2)?;
                }
                let mut j = 0;
                loop {
                    if j == n {
                        break 'w;
                    }
                    idx[j] += 1;
                    if idx[j] < a.len() {
                        break;
                    }
                    idx[j] = 0;
                    j += 1;
                }
            }
        }
    }
    Ok(())
}
pub fn words_q(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    words(case, ctx, 3)
}
pub fn words_t(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    words(case, ctx, 4)
}
/// One unsupported (or unusual) value at every position of long data.
fn long(case: &Case, ctx: &mut Ctx, ns: &[usize]) -> Result<(), String> {
    let (fl, fp) = (case.conf.c.fl, case.conf.fp);
    for yt in types(fl) {
        let a = alphabet(fl, yt);
        for &n in ns {
            let base: Vec<f64> = (0..n).map(|i| if i % 3 == 0 { 1. } else if matches!(fam(fl), Fam::Logistic | Fam::Bin(_) | Fam::Pois) { 0. } else { 0.5 }).collect();
            for at in 0..n {
                for &v in &a {
                    let mut y = base.clone();
                    y[at] = v;
                    for (k, layout) in [(0, Layout::C), (3, Layout::Strided), (1, Layout::Reversed)] {
                        let x = (0..n).map(|i| vec![(i % 7) as f64 * 0.2]).collect();
                        judge(&Build { fl, fp, y: y.clone(), yt, x, ncols: 1, layout, ops: opts(k, fl, n) }, ctx, false)?;
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn long_q(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    long(case, ctx, &[9, 70])
}
pub fn long_t(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    long(case, ctx, &[9, 70, 300])
}
pub fn groups(th: bool) -> Vec<Group> {
    let mut fls = BUILTIN.to_vec();
    fls.extend(CUSTOM_NEW);
    fls.extend([Fl::CLin, Fl::CLogit, Fl::CPois, Fl::CExpL, Fl::CIgL]);
    let one = Prod { reg: vec![(0., 0.)], wp: vec![Wp::N], of: vec![Of::N], icpt: vec![true], std: vec![true], fls, ..full() };
    let both = |f: fn(usize, usize) -> World| vec![Plan { world: f(0, 0), confs: Prod { fps: vec![Fp::F64, Fp::F32], ..one.clone() }.confs() }];
    vec![
        Group { name: "words", plans: both(w_p0), check: if th { words_t } else { words_q } },
        Group { name: "positions", plans: both(w_p0), check: if th { long_t } else { long_q } },
    ]
}
