//! C03: internal standardization and covariate units.
use super::common::*;
use crate::facts::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

/// The problem with covariate j replaced by s*x + c.
pub fn affine<'a>(d: &Data, c: &Cfg, fp: Fp, p: &Prob, j: usize, s: f64, sh: f64) -> Variant<'a> {
    let mut dd = d.clone();
    dd.x.iter_mut().for_each(|r| r[j] = r[j] * s + sh);
    let o = c.icpt as usize;
    let mut m = Map::id(p, d.p);
    m.a[j + o][j + o] = 1. / s;
    if c.icpt && sh != 0. {
        m.a[0][j + o] = -sh / s;
    }
    variant(format!("covariate {j} times {s} plus {sh}"), dd, *c, fp, m)
}
pub fn constant(d: &Data, p: &Prob, j: usize) -> bool {
    let u: Vec<f64> = (0..p.n).filter(|&i| p.wt[i] > 0.).map(|i| d.x[i][j]).collect();
    u.iter().all(|x| *x == u[0])
}
pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, d, c) = (&a.p, &case.d, case.conf.c);
        let reg = c.l1 > 0. || c.l2 > 0.;
        let fp = case.conf.fp;
        let mut v = vec![];
        if !reg {
            v.push(variant(if c.std { "without standardization" } else { "with standardization" }, d.clone(), Cfg { std: !c.std, ..c }, fp, Map::id(p, d.p)));
        }
        if !reg || c.std {
            for j in 0..d.p.min(2) {
                if reg && constant(d, p, j) {
                    continue;
                }
                let mut t = vec![(-2.5, 0.), (1e3, 0.)];
                if c.icpt {
                    t.push((-1e-2, -9.));
                }
                for (s, sh) in t {
                    // constant columns next to an intercept are not identified
                    v.push(affine(d, &c, fp, p, j, s, sh));
                }
            }
        }
        compare(a, ctx, Want { refits: case.d.y.len() <= 4, hat: true }, &v)
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    vec![Group { name: "units", plans: metaplans(th, &[(0., 0.), (0., 0.4), (0.25, 0.)]), check }]
}
