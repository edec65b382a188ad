//! C06: linear offsets.
use super::common::*;
use crate::facts::*;
use crate::refm::*;
use crate::space::*;

pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, d, c) = (&a.p, &case.d, case.conf.c);
        let fp = case.conf.fp;
        let mut v = vec![];
        if d.off.is_none() {
            v.push(variant("zero offset", Data { off: Some(vec![0.; p.n]), ..d.clone() }, c, fp, Map::id(p, d.p)));
        }
        if c.icpt {
            for s in [0.35, -1.5] {
                let dd = Data { off: Some(p.off.iter().map(|o| o + s).collect()), ..d.clone() };
                let mut m = Map::id(p, d.p);
                m.t[0] = -s;
                v.push(variant(format!("offset plus {s}"), dd, c, fp, m));
            }
        }
        if c.l1 == 0. && c.l2 == 0. {
            for j in 0..d.p {
                let k = j + c.icpt as usize;
                let s = if j % 2 == 0 { 0.4 } else { -0.75 } * if case.world.name == "p2s" && j == 1 || case.world.name == "far" { 0.01 } else { 1. };
                let dd = Data { off: Some((0..p.n).map(|i| p.off[i] + s * d.x[i][j]).collect()), ..d.clone() };
                let mut m = Map::id(p, d.p);
                m.t[k] = -s;
                m.adj = Box::new(|name, v| {
                    if matches!(name, "null likelihood" | "likelihood ratio" | "omnibus p-value" | "score test" | "wald test" | "r squared" | "partial residuals") {
                        return None;
                    }
                    Some((v, 1.))
                });
                v.push(variant(format!("{s} times covariate {j} moved into the offset"), dd, c, fp, m));
            }
        }
        // prediction with the training offset
        let pr = a.q(&sut::Q::Predict(d.x.clone(), d.p, d.off.clone()))?;
        let rr = a.q(&sut::Q::ResResp)?;
        for i in 0..p.n {
            let e = 1e-12 * p.bmag(&a.b) * (a.st.dm[i].abs() + a.st.mu[i].abs() + p.y[i].abs());
            ctx.within("training prediction", pr[i], p.y[i] - rr[i], e).map_err(|m| format!("row {i}: {m}"))?;
        }
        compare(a, ctx, Want { refits: p.n <= 4, hat: true }, &v)
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    vec![Group { name: "offsets", plans: metaplans(th, &[(0., 0.), (0., 0.4), (0.25, 0.)]), check }]
}
