//! C21: user-defined links.
use super::common::*;
use crate::facts::*;
use crate::refm::*;
use crate::space::*;
use sut::*;

fn twins(fl: Fl) -> &'static [Fl] {
    match fl {
        Fl::Lin => &[Fl::CLin, Fl::CLin2],
        Fl::Logit => &[Fl::CLogit],
        Fl::Cloglog => &[Fl::CCloglog],
        Fl::Pois => &[Fl::CPois],
        Fl::ExpL => &[Fl::CExpL],
        Fl::GamL => &[Fl::CGamL],
        Fl::IgL => &[Fl::CIgL],
        _ => &[],
    }
}
pub fn restated(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    at_fit(case, ctx, |a, ctx| {
        let (p, d, c) = (&a.p, &case.d, case.conf.c);
        let v: Vec<Variant> = twins(c.fl).iter().map(|&fl| variant(format!("user-defined link {fl:?}"), d.clone(), Cfg { fl, ..c }, case.conf.fp, Map::id(p, d.p))).collect();
        compare(a, ctx, Want { refits: p.n <= 4, hat: true }, &v)
    })
}
pub fn own(case: &Case, ctx: &mut Ctx) -> Result<(), String> {
    super::c01::check(case, ctx).map_err(|e| format!("optimality: {e}"))?;
    super::c08::check(case, ctx).map_err(|e| format!("residuals: {e}"))?;
    super::c10::check(case, ctx).map_err(|e| format!("derivatives: {e}"))?;
    super::c11::check(case, ctx).map_err(|e| format!("errors: {e}"))?;
    super::c12::check(case, ctx).map_err(|e| format!("tests: {e}"))
}
pub fn groups(th: bool) -> Vec<Group> {
    let regs = [(0., 0.), (0., 0.4), (0.25, 0.)];
    let mut r = metaplans(th, &regs);
    for p in r.iter_mut() {
        p.confs.retain(|c| !twins(c.c.fl).is_empty());
    }
    let mut o = plans(th, &[(0., 0.), (0., 0.4)], &CUSTOM_NEW);
    if !th {
        o.truncate(5);
        o.push(Plan { world: w_tall(24, 1), confs: Prod { wp: vec![Wp::N, Wp::Wf], of: vec![Of::N, Of::V], fls: CUSTOM_NEW.to_vec(), reg: vec![(0., 0.), (0., 0.4)], ..full() }.confs() });
    }
    vec![Group { name: "restated", plans: r, check: restated }, Group { name: "own", plans: o, check: own }]
}
