//! C04: frequency weights are repeated rows.
use super::common::*;
use crate::facts::*;
use crate::refm::*;
use crate::space::*;

/// The data with rows `rows` (repeats allowed) carrying frequencies `f`.
pub fn take(d: &Data, rows: &[usize], f: Option<Vec<usize>>) -> Data {
    Data {
        y: rows.iter().map(|&i| d.y[i]).collect(),
        x: rows.iter().map(|&i| d.x[i].clone()).collect(),
        p: d.p,
        off: d.off.as_ref().map(|o| rows.iter().map(|&i| o[i]).collect()),
        w: d.w.as_ref().map(|o| rows.iter().map(|&i| o[i]).collect()),
        f,
    }
}
pub fn check(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, d, c) = (&a.p, &case.d, case.conf.c);
        let fp = case.conf.fp;
        let mut v = vec![];
        match &d.f {
            None => {
                let all: Vec<usize> = (0..p.n).collect();
                v.push(variant("all-ones frequencies", take(d, &all, Some(vec![1; p.n])), c, fp, Map::id(p, d.p)));
                // every row split in two, and rows of frequency zero added
                let rows: Vec<usize> = (0..2 * p.n).map(|i| i % p.n).collect();
                let f = (0..2 * p.n).map(|i| (i < p.n) as usize).collect();
                let m = Map { rows: rows.clone(), rep: (0..2 * p.n).map(|i| (i < p.n) as i32 as f64).collect(), ..Map::id(p, d.p) };
                let mut dd = take(d, &rows, Some(f));
                // (a row that does not count may hold anything)
                for i in p.n..2 * p.n {
                    dd.x[i].iter_mut().for_each(|x| *x = *x * 0.5 + 0.3);
                }
                let mut var = variant("rows of frequency zero added", dd, c, fp, m);
                let n = p.n;
                var.map.rows.truncate(n);
                var.map.rep.truncate(n);
                var.prefix = Some(n);
                v.push(var);
            }
            Some(f) => {
                let rows: Vec<usize> = (0..p.n).flat_map(|i| vec![i; f[i]]).collect();
                if rows.len() <= 130 {
                    let rep = rows.iter().map(|&i| 1. / f[i] as f64).collect();
                    let m = Map { rows: rows.clone(), rep, ..Map::id(p, d.p) };
                    v.push(variant("repeated rows", take(d, &rows, None), c, fp, m));
                }
                // a group split into two
                let rows: Vec<usize> = (0..p.n).flat_map(|i| if f[i] > 1 { vec![i, i] } else if f[i] == 1 { vec![i] } else { vec![] }).collect();
                let mut seen = vec![false; p.n];
                let ff: Vec<usize> = rows
                    .iter()
                    .map(|&i| {
                        if f[i] <= 1 { return f[i] }
                        let first = !seen[i];
                        seen[i] = true;
                        if first { 1 } else { f[i] - 1 }
                    })
                    .collect();
                let rep = rows.iter().zip(&ff).map(|(&i, &g)| g as f64 / f[i] as f64).collect();
                let m = Map { rows: rows.clone(), rep, ..Map::id(p, d.p) };
                v.push(variant("split groups", take(d, &rows, Some(ff)), c, fp, m));
            }
        }
        compare(a, ctx, Want { refits: false, hat: p.n <= 12 }, &v)
    })
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    let mut plans = metaplans(th, &regs);
    for pl in plans.iter_mut() {
        pl.confs = pl
            .confs
            .iter()
            .flat_map(|c| match c.wp {
                Wp::N => vec![Conf { wp: Wp::F, ..*c }, *c],
                Wp::W => vec![*c, Conf { wp: Wp::Wf0, ..*c }],
                _ => vec![*c],
            })
            .collect();
    }
    vec![Group { name: "frequencies", plans, check }]
}
