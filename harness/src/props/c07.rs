//! C07: row order, column order, memory layout, number types.
use super::c04::take;
use super::common::*;
use crate::facts::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn some_perms(n: usize, all: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut v = if n <= all { perms(n) } else { vec![(0..n).rev().collect(), (0..n).map(|i| (i + 1) % n).collect(), (0..n).map(|i| i ^ 1).filter(|&i| i < n).collect::<Vec<_>>()] };
    v.retain(|p| p.len() == n && *p != id);
    v
}
fn cols(d: &Data, q: &[usize]) -> Data {
    Data { x: d.x.iter().map(|r| q.iter().map(|&j| r[j]).collect()).collect(), ..d.clone() }
}
pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, d, c) = (&a.p, &case.d, case.conf.c);
        let fp = case.conf.fp;
        let mut v = vec![];
        for q in some_perms(p.n, 3) {
            let f = d.f.as_ref().map(|f| q.iter().map(|&i| f[i]).collect());
            let m = Map { rows: q.clone(), ..Map::id(p, d.p) };
            v.push(variant(format!("rows in order {q:?}"), take(d, &q, f), c, fp, m));
        }
        let o = c.icpt as usize;
        for q in some_perms(d.p, 3) {
            let mut m = Map::id(p, d.p);
            m.cols = q.clone();
            m.a = vec![vec![0.; p.k]; p.k];
            if o == 1 {
                m.a[0][0] = 1.;
            }
            for (i, &j) in q.iter().enumerate() {
                m.a[i + o][j + o] = 1.;
            }
            v.push(variant(format!("covariates in order {q:?}"), cols(d, &q), c, fp, m));
        }
        for l in LAYOUTS {
            if d.p < 2 && l == Layout::RevCols {
                continue;
            }
            let mut x = variant(format!("layout {l:?}"), d.clone(), c, fp, Map::id(p, d.p));
            x.build.layout = l;
            v.push(x);
        }
        let types: &[Yt] = match c.fl {
            Fl::Pois => &[Yt::U8, Yt::U16, Yt::U64, Yt::Usize],
            Fl::Logit | Fl::Cloglog if d.y.iter().all(|y| *y == 0. || *y == 1.) => &[Yt::F32, Yt::F64, Yt::Bool],
            Fl::Pois | Fl::Bin1 | Fl::Bin3 | Fl::Bin12 => &[],
            _ => &[Yt::F64],
        };
        for &t in types {
            let mut x = variant(format!("responses as {t:?}"), d.clone(), c, fp, Map::id(p, d.p));
            x.build.yt = t;
            v.push(x);
        }
        // single-precision responses where they are exact
        if !types.contains(&Yt::F32) && !matches!(fam(c.fl), Fam::Pois | Fam::Bin(_)) {
            let dd = Data { y: d.y.iter().map(|y| *y as f32 as f64).collect(), ..d.clone() };
            let bc = Case { world: case.world, letters: case.letters, conf: case.conf, d: dd.clone() };
            at_fit(&bc, ctx, |a, ctx| {
                let mut x = variant("responses as f32", dd.clone(), c, fp, Map::id(&a.p, dd.p));
                x.build.yt = Yt::F32;
                compare(a, ctx, Want { refits: false, hat: false }, &[x])
            })?;
        }
        if has_f32(c.fl) && a.eig > 2e-2 && c.l1 == 0. && p.lin(&a.b).iter().all(|w| w.abs() < 6.) {
            let mut x = variant("single precision", d.clone(), c, Fp::F32, Map::id(p, d.p));
            x.loose = 1e6;
            v.push(x);
        }
        compare(a, ctx, Want { refits: p.n <= 4, hat: true }, &v)
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let mut plans = metaplans(th, if th { &[(0., 0.), (0., 0.4), (0.25, 0.)] } else { &[(0., 0.), (0.25, 0.3)] });
    if !th {
        plans.iter_mut().filter(|p| p.world.name == "p1").for_each(|p| p.confs.retain(|c| c.c.std));
    }
    vec![Group { name: "order", plans, check }]
}
