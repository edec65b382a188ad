//! C05: scaling laws of variance weights.
use super::c04::take;
use super::common::*;
use crate::facts::*;
use crate::refm::*;
use crate::space::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, d, c) = (&a.p, &case.d, case.conf.c);
        let fp = case.conf.fp;
        let mut v = vec![];
        if d.w.is_none() {
            let dd = Data { w: Some(vec![1.; p.n]), ..d.clone() };
            v.push(variant("all-ones weights", dd, c, fp, Map::id(p, d.p)));
        }
        let dev = a.st.dev;
        let like = p.obj(&a.b);
        for s in [0.25, 3.] {
            let dd = Data { w: Some(p.w.iter().map(|w| w * s).collect()), ..d.clone() };
            let cc = Cfg { l1: c.l1 * s, l2: c.l2 * s, ..c };
            let nobs = p.n_obs();
            let lin = fam(c.fl) == Fam::Lin;
            let adj = move |name: &'static str, v: f64| -> Option<(f64, f64)> {
                let r = s.sqrt();
                Some(match name {
                    "model likelihood" | "deviance" | "null likelihood" | "likelihood ratio" | "residual sum of squares" | "score test" | "wald test" | "score" | "fisher" | "squared deviance residuals"
                    | "squared standardized deviance residuals" | "squared studentized residuals" | "cook's distances" => (v * s, s),
                    "covariance" => (v / s, 1. / s),
                    "wald z" | "pearson residuals" | "standardized pearson residuals" => (v * r, r),
                    "quantile residuals" if lin => (v * r, r),
                    "quantile residuals" | "wald p-value" | "exact p-values" | "omnibus p-value" => return None,
                    "aic" => (v + (s - 1.) * dev - 2. * nobs * s.ln(), 1.),
                    "bic" => (v - 2. * (s - 1.) * like - 2. * nobs * s.ln(), 1.),
                    _ => (v, 1.),
                })
            };
            v.push(variant(format!("weights times {s}"), dd, cc, fp, Map { adj: Box::new(adj), ..Map::id(p, d.p) }));
        }
        if !free_disp(c.fl) && c.l1 == 0. && c.l2 == 0. {
            // integer weights against repeated rows
            let k: Vec<usize> = (0..p.n).map(|i| [2, 1, 3][i % 3]).collect();
            if d.w.is_none() && d.f.is_none() {
                let base = Data { w: Some(k.iter().map(|&x| x as f64).collect()), ..d.clone() };
                let rows: Vec<usize> = (0..p.n).flat_map(|i| vec![i; k[i]]).collect();
                let bc = Case { world: case.world, letters: case.letters, conf: Conf { wp: Wp::W, ..case.conf }, d: base };
                let rep = rows.iter().map(|&i| 1. / k[i] as f64).collect();
                let adj = |name: &'static str, v: f64| -> Option<(f64, f64)> {
                    matches!(
                        name,
                        "model likelihood" | "deviance" | "null likelihood" | "likelihood ratio" | "score test" | "wald test" | "score" | "fisher" | "covariance" | "wald z" | "wald p-value" | "omnibus p-value"
                            | "coefficients" | "response residuals" | "working residuals" | "predictions" | "partial residuals" | "leverage" | "dispersion" | "test_ndf"
                    )
                    .then_some((v, 1.))
                };
                let dd = take(d, &rows, None);
                let ncov = d.p;
                at_fit(&bc, ctx, |a, ctx| {
                    let m = Map { rows: rows.clone(), rep, adj: Box::new(adj), ..Map::id(&a.p, ncov) };
                    compare(a, ctx, Want { refits: false, hat: false }, &[variant("integer weights as repeated rows", dd, c, fp, m)])
                })?;
            }
        }
        compare(a, ctx, Want { refits: p.n <= 4, hat: true }, &v)
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    vec![Group { name: "weights", plans: metaplans(th, &[(0., 0.), (0., 0.4), (0.25, 0.)]), check }]
}
