//! The explored transition system and its driver.
//!
//! A state is (multiset of observation letters, builder options, fit options, float width); the
//! actions are "append an observation letter", "set a builder option" and "set a fit option".
//! Data states are explored breadth first from a world's base dataset; appends commute up to row
//! order (row order is explored separately by C07), so a data state is visited once per multiset.
//! In every state the real library is built, fitted and queried, and a property check is
//! evaluated.
use crate::dispatch;
use crate::refm::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use sut::*;

#[derive(Clone)]
pub struct World {
    pub name: &'static str,
    pub p: usize,
    /// covariate letters; the response alphabet depends on the family
    pub xs: fn(Fl) -> Vec<Vec<f64>>,
    pub ys: fn(Fl) -> Vec<f64>,
    /// number of base rows every state starts from
    pub base: usize,
    pub nmin: usize,
    pub nmax: usize,
}
impl World {
    pub fn letters(&self, fl: Fl) -> Vec<(Vec<f64>, f64)> {
        let mut v = vec![];
        for x in (self.xs)(fl) {
            for y in (self.ys)(fl) {
                v.push((x.clone(), y));
            }
        }
        v
    }
    /// deterministic base rows: lattice points visited in a full-period order
    pub fn base_rows(&self, fl: Fl) -> Vec<(Vec<f64>, f64)> {
        let ys = (self.ys)(fl);
        let neg = bounded(fl);
        (0..self.base)
            .map(|i| {
                let x = (0..self.p)
                    .map(|j| {
                        let h = ((i * (7 + 4 * j) + 3 * j * j + i * i * (j + 1)) % 23) as f64;
                        let v = h / 8. - 1.25 + 0.05 * ((i * 5 + j) % 7) as f64;
                        if neg { 0.6 + (v + 1.25) * 0.4 } else { v }
                    })
                    .collect();
                (x, ys[(i * 5 + i / 3) % ys.len()])
            })
            .collect()
    }
    /// Breadth-first enumeration of the reachable data states (letter multisets).
    pub fn states(&self, fl: Fl) -> (Vec<Vec<u8>>, u64) {
        let nl = self.letters(fl).len() as u8;
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        let mut all = vec![vec![]];
        let mut frontier: Vec<Vec<u8>> = vec![vec![]];
        seen.insert(vec![]);
        let mut edges = 0;
        for _ in self.base..self.nmax {
            let mut next = vec![];
            for s in &frontier {
                for l in 0..nl {
                    edges += 1;
                    let mut t = s.clone();
                    let pos = t.iter().position(|&x| x > l).unwrap_or(t.len());
                    t.insert(pos, l);
                    if seen.insert(t.clone()) {
                        next.push(t);
                    }
                }
            }
            all.extend(next.iter().cloned());
            frontier = next;
        }
        all.retain(|s| s.len() + self.base >= self.nmin);
        (all, edges)
    }
}
/// link with a bounded linear-predictor domain
pub fn bounded(fl: Fl) -> bool {
    matches!(lk(fl), Lk::NegRec | Lk::NegRecSq | Lk::Sqrt | Lk::Rec)
}
pub fn ys2(fl: Fl) -> Vec<f64> {
    match fam(fl) {
        Fam::Lin => {
            if lk(fl) == Lk::Log {
                vec![0.8, 2.5]
            } else {
                vec![-0.7, 1.9]
            }
        }
        Fam::Logistic | Fam::Bin(1) => vec![0., 1.],
        Fam::Bin(n) => vec![0., (n as f64 * 0.6).round()],
        Fam::Pois => vec![0., 3.],
        _ => vec![0.6, 2.7],
    }
}
pub fn ys3(fl: Fl) -> Vec<f64> {
    match fam(fl) {
        Fam::Lin => {
            if lk(fl) == Lk::Log {
                vec![0.8, 1.2, 2.5]
            } else {
                vec![-0.7, 0.4, 1.9]
            }
        }
        Fam::Bin(1) => vec![0., 1.],
        Fam::Logistic => vec![0., 0.3, 1.],
        Fam::Bin(n) => vec![0., (n as f64 * 0.6).round(), n as f64],
        Fam::Pois => vec![0., 1., 4.],
        _ => vec![0.6, 1.1, 2.7],
    }
}
/// more extreme responses
pub fn ys_wide(fl: Fl) -> Vec<f64> {
    match fam(fl) {
        Fam::Lin => {
            if lk(fl) == Lk::Log {
                vec![0.02, 40.]
            } else {
                vec![-130., 42.5, 310.]
            }
        }
        Fam::Bin(1) => vec![0., 1.],
        Fam::Logistic => vec![1e-3, 0.5, 1.],
        Fam::Bin(n) => vec![0., 1., n as f64],
        Fam::Pois => vec![0., 2., 60.],
        Fam::Ig => vec![0.05, 1.0, 6.],
        _ => vec![0.01, 1.0, 45.],
    }
}
fn v1(a: &[f64]) -> Vec<Vec<f64>> {
    a.iter().map(|&x| vec![x]).collect()
}
fn vm(a: &[&[f64]]) -> Vec<Vec<f64>> {
    a.iter().map(|x| x.to_vec()).collect()
}
pub fn w_p0(nmin: usize, nmax: usize) -> World {
    World { name: "p0", p: 0, xs: |_| vec![vec![]], ys: ys3, base: 0, nmin, nmax }
}
pub fn w_p1(nmin: usize, nmax: usize) -> World {
    World {
        name: "p1",
        p: 1,
        xs: |fl| if bounded(fl) { v1(&[0.5, 1.25, 3.]) } else { v1(&[-1., 0.5, 2.]) },
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
/// three response values
pub fn w_p1y(nmin: usize, nmax: usize) -> World {
    World {
        name: "p1y",
        p: 1,
        xs: |fl| if bounded(fl) { v1(&[0.5, 1.25]) } else { v1(&[-0.6, 1.1]) },
        ys: ys3,
        base: 0,
        nmin,
        nmax,
    }
}
pub fn w_wide(nmin: usize, nmax: usize) -> World {
    World {
        name: "wide",
        p: 1,
        xs: |fl| if bounded(fl) { v1(&[0.5, 1.25]) } else { v1(&[-0.6, 1.1]) },
        ys: ys_wide,
        base: 0,
        nmin,
        nmax,
    }
}
/// covariates far from zero
pub fn w_far(nmin: usize, nmax: usize) -> World {
    World { name: "far", p: 1, xs: |_| v1(&[100., 101.5, 104.]), ys: ys2, base: 0, nmin, nmax }
}
/// tiny covariates
pub fn w_tiny(nmin: usize, nmax: usize) -> World {
    World { name: "tiny", p: 1, xs: |_| v1(&[1e-5, 2.5e-5, 7e-5]), ys: ys2, base: 0, nmin, nmax }
}
pub fn w_p2(nmin: usize, nmax: usize) -> World {
    World {
        name: "p2",
        p: 2,
        xs: |fl| {
            if bounded(fl) {
                vm(&[&[0.4, 1.], &[1.3, 0.5], &[2.2, 1.6]])
            } else {
                vm(&[&[-1., 0.5], &[0.5, -0.75], &[1.5, 2.]])
            }
        },
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
/// two covariates on very different scales
pub fn w_p2s(nmin: usize, nmax: usize) -> World {
    World {
        name: "p2s",
        p: 2,
        xs: |_| vm(&[&[0.4, 110.], &[1.3, 50.], &[2.2, 160.]]),
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
/// second covariate constant
pub fn w_const(nmin: usize, nmax: usize) -> World {
    World {
        name: "const",
        p: 2,
        xs: |fl| if bounded(fl) { vm(&[&[0.4, 0.7], &[1.3, 0.7]]) } else { vm(&[&[-0.5, 0.7], &[1.3, 0.7]]) },
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
/// third covariate the sum of the other two (rank deficient)
pub fn w_dup(nmin: usize, nmax: usize) -> World {
    World {
        name: "dup",
        p: 3,
        xs: |fl| {
            if bounded(fl) {
                vm(&[&[0.4, 1., 1.4], &[1.3, 0.5, 1.8], &[2.2, 1.5, 3.7]])
            } else {
                vm(&[&[-1., 0.5, -0.5], &[0.5, -0.75, -0.25], &[1.5, 2., 3.5]])
            }
        },
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
pub fn w_p3(nmin: usize, nmax: usize) -> World {
    World {
        name: "p3",
        p: 3,
        xs: |fl| {
            if bounded(fl) {
                vm(&[&[0.4, 1., 0.2], &[1.3, 0.5, 1.9], &[2.2, 1.6, 0.7], &[0.9, 2.3, 1.1], &[1.6, 0.3, 0.5]])
            } else {
                vm(&[&[-1., 0.5, 0.25], &[0.5, -0.75, 1.], &[1.5, 2., -0.5], &[0., -1., -1.5], &[-2., 1., 0.75]])
            }
        },
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
/// tall data with several covariates: `base` fixed rows, then letters
pub fn w_tall(base: usize, extra: usize) -> World {
    World {
        name: "tall",
        p: 3,
        xs: |fl| if bounded(fl) { vm(&[&[0.7, 1., 1.2], &[1.3, 0.8, 0.9]]) } else { vm(&[&[-1., 0.5, 0.25], &[1.5, 2., -0.5]]) },
        ys: ys3,
        base,
        nmin: base,
        nmax: base + extra,
    }
}
/// degenerate covariates: zero, one, and a copy
pub fn w_degen(nmin: usize, nmax: usize) -> World {
    World {
        name: "degen",
        p: 2,
        xs: |_| vm(&[&[0., 0.], &[1., 1.], &[0., 1.], &[-2., 1.]]),
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
/// covariates near the ends of the float range
pub fn w_xx(nmin: usize, nmax: usize) -> World {
    World {
        name: "xx",
        p: 1,
        xs: |_| v1(&[0., 1., -1e-30, 1e-9, 1e9, 1e18, -1e30]),
        ys: ys2,
        base: 0,
        nmin,
        nmax,
    }
}
pub fn w_xxx(nmin: usize, nmax: usize) -> World {
    World { name: "xxx", p: 1, xs: |_| v1(&[0., 1., 1e-300, 1e160, -1e300]), ys: ys2, base: 0, nmin, nmax }
}
/// responses many orders of magnitude below their mean
pub fn w_low(nmin: usize, nmax: usize) -> World {
    World {
        name: "low",
        p: 1,
        xs: |fl| if bounded(fl) { v1(&[0.5, 1.25]) } else { v1(&[-0.6, 1.1]) },
        ys: |fl| match fam(fl) {
            Fam::Exp | Fam::Gam => vec![1., 2.7, 1e-13, 1e-18],
            _ => ys3(fl),
        },
        base: 0,
        nmin,
        nmax,
    }
}
/// responses near the ends of the float range (of single precision)
pub fn w_yx(nmin: usize, nmax: usize) -> World {
    World {
        name: "yx",
        p: 1,
        xs: |_| v1(&[0.5, 1.5]),
        ys: |fl| match fam(fl) {
            Fam::Lin => vec![0., 1., -1e-30, 1e30, -3e38],
            Fam::Logistic => vec![0., 1., 1e-30, 0.5, 1. - 6e-8],
            Fam::Bin(n) => vec![0., n as f64, (n / 2) as f64],
            Fam::Pois => vec![0., 1., 65535., 4294967295.],
            _ => vec![1., 1e-38, 1e-30, 1e9, 3e38],
        },
        base: 0,
        nmin,
        nmax,
    }
}
/// responses near the ends of the range of double precision
pub fn w_yxx(nmin: usize, nmax: usize) -> World {
    World {
        name: "yxx",
        p: 1,
        xs: |_| v1(&[0.5, 1.5]),
        ys: |fl| match fam(fl) {
            Fam::Lin => vec![0., 1., 1e-300, 1e155, -1e308],
            Fam::Logistic => vec![0., 1., 1e-300, 1. - 1e-16],
            Fam::Bin(n) => vec![0., n as f64],
            Fam::Pois => vec![0., 1., 4294967295.],
            _ => vec![1., 1e-307, 1e-155, 1e155, 1e308],
        },
        base: 0,
        nmin,
        nmax,
    }
}
pub fn w_tall5(base: usize, extra: usize) -> World {
    World {
        name: "tall5",
        p: 5,
        xs: |fl| {
            if bounded(fl) {
                vm(&[&[0.7, 1., 1.2, 0.9, 0.8], &[1.3, 0.8, 0.9, 1.1, 1.]])
            } else {
                vm(&[&[-1., 0.5, 0.25, 0.75, -0.3], &[1.5, 2., -0.5, -1., 0.6]])
            }
        },
        ys: ys3,
        base,
        nmin: base,
        nmax: base + extra,
    }
}
/// many covariates
pub fn w_tall9(base: usize, extra: usize) -> World {
    World {
        name: "tall9",
        p: 9,
        xs: |fl| {
            if bounded(fl) {
                vm(&[&[0.7, 1., 1.2, 0.9, 0.8, 0.75, 1.1, 0.65, 1.3], &[1.3, 0.8, 0.9, 1.1, 1., 1.2, 0.7, 0.95, 0.85]])
            } else {
                vm(&[&[-1., 0.5, 0.25, 0.75, -0.3, 0.1, -0.6, 0.4, 0.9], &[1.5, 2., -0.5, -1., 0.6, -0.2, 0.8, -0.7, 0.3]])
            }
        },
        ys: ys3,
        base,
        nmin: base,
        nmax: base + extra,
    }
}
pub fn w_tall1(base: usize, extra: usize) -> World {
    World {
        name: "tall1",
        p: 1,
        xs: |fl| if bounded(fl) { v1(&[0.7, 1.4]) } else { v1(&[-1., 1.5]) },
        ys: ys3,
        base,
        nmin: base,
        nmax: base + extra,
    }
}

/// weight patterns, by row position
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wp {
    N,
    /// variance weights
    W,
    /// all-ones variance weights
    W1,
    /// frequency weights
    F,
    /// both
    Wf,
    /// frequencies including zeros
    F0,
    /// variance weights and frequencies including zeros
    Wf0,
    /// large frequencies
    Fbig,
    /// weights of very different size
    Wwide,
    /// zero variance weights, on some rows and on all
    W0,
    Wz,
    /// variance weights near the ends of the float range
    Wx,
    /// only the first row has a frequency, and none has
    F1,
    Fz,
    /// enormous frequencies
    Fx,
}
/// offset patterns, by row position
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Of {
    N,
    /// varied
    V,
    /// constant
    C,
    /// zeros
    Z,
    /// means near the ends of the float range, and beyond
    X,
    Xx,
}
pub fn wvec(k: Wp, n: usize) -> Option<Vec<f64>> {
    match k {
        Wp::W | Wp::Wf | Wp::Wf0 => Some((0..n).map(|i| [1.5, 0.5, 2.25, 0.8][i % 4]).collect()),
        Wp::W1 => Some(vec![1.; n]),
        Wp::W0 => Some((0..n).map(|i| [0., 1.5, 0.5][i % 3]).collect()),
        Wp::Wz => Some(vec![0.; n]),
        Wp::Wx => Some((0..n).map(|i| [1e-30, 1., 1e30][i % 3]).collect()),
        Wp::Wwide => Some((0..n).map(|i| [0.02, 7.5, 1., 0.3, 40.][i % 5]).collect()),
        _ => None,
    }
}
pub fn fvec(k: Wp, n: usize) -> Option<Vec<usize>> {
    match k {
        Wp::F | Wp::Wf => Some((0..n).map(|i| [2, 1, 3][i % 3]).collect()),
        Wp::F0 | Wp::Wf0 => Some((0..n).map(|i| [2, 0, 1, 3, 1][i % 5]).collect()),
        Wp::F1 => Some((0..n).map(|i| (i == 0) as usize * 3).collect()),
        Wp::Fz => Some(vec![0; n]),
        Wp::Fx => Some((0..n).map(|i| [1 << 40, 1, usize::MAX][i % 3]).collect()),
        Wp::Fbig => Some((0..n).map(|i| [40, 1, 7, 300][i % 4]).collect()),
        _ => None,
    }
}
pub fn ovec(k: Of, fl: Fl, n: usize) -> Option<Vec<f64>> {
    let s = if bounded(fl) { 0.12 } else { 1. };
    match k {
        Of::N => None,
        Of::V => Some((0..n).map(|i| s * [0.4, -0.3, 0.7, 0.1, -0.55][i % 5]).collect()),
        Of::C => Some(vec![0.35 * s; n]),
        Of::Z => Some(vec![0.; n]),
        Of::X => Some((0..n).map(|i| s * [-30., 35., 80., -85.][i % 4]).collect()),
        Of::Xx => Some((0..n).map(|i| [0., 1e4, -1e4, 1e30][i % 4]).collect()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Conf {
    pub c: Cfg,
    pub wp: Wp,
    pub of: Of,
    pub fp: Fp,
}

pub struct Case<'a> {
    pub world: &'a World,
    pub letters: &'a [u8],
    pub conf: Conf,
    pub d: Data,
}
impl Case<'_> {
    pub fn key(&self) -> String {
        let c = &self.conf;
        format!(
            "{}:{:?}:{:?}:{}{}:l1={}:l2={}:{:?}:{:?}:{}",
            self.world.name,
            c.c.fl,
            c.fp,
            if c.c.icpt { "icpt" } else { "noicpt" },
            if c.c.std { "+std" } else { "+nostd" },
            c.c.l1,
            c.c.l2,
            c.wp,
            c.of,
            self.letters.iter().map(|l| (b'a' + l) as char).collect::<String>()
        )
    }
    pub fn describe(&self) -> String {
        let d = &self.d;
        format!("{} y={:?} x={:?} var_weights={:?} freq_weights={:?} offset={:?}", self.key(), d.y, d.x, d.w, d.f, d.off)
    }
}
pub fn mk_data(w: &World, letters: &[u8], c: &Conf) -> Data {
    let alpha = w.letters(c.c.fl);
    let mut rows = w.base_rows(c.c.fl);
    rows.extend(letters.iter().map(|&l| alpha[l as usize].clone()));
    let n = rows.len();
    let mut d = Data {
        y: rows.iter().map(|r| r.1).collect(),
        x: rows.iter().map(|r| r.0.clone()).collect(),
        p: w.p,
        off: ovec(c.of, c.c.fl, n),
        w: wvec(c.wp, n),
        f: fvec(c.wp, n),
    };
    if c.fp == Fp::F32 {
        // both sides see the values single precision can hold
        let r = |v: &mut Vec<f64>| v.iter_mut().for_each(|x| *x = *x as f32 as f64);
        r(&mut d.y);
        d.x.iter_mut().for_each(r);
        d.off.iter_mut().for_each(r);
        d.w.iter_mut().for_each(r);
    }
    d
}
pub fn mk_build(d: &Data, c: &Cfg, fp: Fp) -> Build {
    let mut ops = vec![];
    if let Some(o) = &d.off {
        ops.push(Op::Off(o.clone()));
    }
    if let Some(w) = &d.w {
        ops.push(Op::Var(w.clone()));
    }
    if let Some(f) = &d.f {
        ops.push(Op::Freq(f.clone()));
    }
    if !c.icpt {
        ops.push(Op::NoConst);
    }
    if !c.std {
        ops.push(Op::NoStd);
    }
    Build { fl: c.fl, fp, y: d.y.clone(), yt: Yt::Default, x: d.x.clone(), ncols: d.p, layout: Layout::C, ops }
}
pub fn how(c: &Cfg) -> How {
    How { l1: c.l1, l2: c.l2, ..Default::default() }
}

#[derive(Default, Clone)]
pub struct Ctx {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, (f64, String)>,
    pub samples: Vec<String>,
    pub transitions: u64,
    pub traces: u64,
    /// states explored inside a data state (query histories, budgets, builder sequences, ...)
    pub inner_states: u64,
    pub findings: BTreeMap<String, (u64, String)>,
    /// development aid: time spent per group and world
    pub times: BTreeMap<(&'static str, &'static str), (Duration, u64)>,
    pub cur: String,
    pub check: &'static str,
    pub prop: &'static str,
}
impl Ctx {
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    /// largest observed deviation for a comparison (kept for tolerance calibration)
    pub fn dev(&mut self, k: &'static str, v: f64) {
        let e = self.maxima.entry(k).or_insert((-1., String::new()));
        if v > e.0 || (v.is_nan() && !e.0.is_nan()) {
            *e = (v, self.cur.clone());
        }
    }
    /// |a-b| relative to scale+|a|+|b|; records the deviation
    pub fn near(&mut self, k: &'static str, got: f64, want: f64, scale: f64, tol: f64) -> Result<(), String> {
        if got == want {
            return Ok(());
        }
        let d = (got - want).abs() / (scale + got.abs().max(want.abs()));
        if !want.is_finite() && !got.is_finite() && (want.is_nan() == got.is_nan()) && want.is_nan() {
            return Ok(());
        }
        if !(d <= tol) {
            return Err(format!("{k}: library gives {got:e}, definition gives {want:e} (relative deviation {d:.2e}, tolerance {tol:.1e})"));
        }
        self.dev(k, d / tol);
        Ok(())
    }
    pub fn near_vec(&mut self, k: &'static str, got: &[f64], want: &[f64], scale: f64, tol: f64) -> Result<(), String> {
        if got.len() != want.len() {
            return Err(format!("{k}: library gives {} values, expected {}", got.len(), want.len()));
        }
        // scale common to the vector
        let s = want.iter().filter(|x| x.is_finite()).fold(0f64, |a, x| a.max(x.abs()));
        for i in 0..got.len() {
            self.near(k, got[i], want[i], scale + s, tol).map_err(|e| format!("[{i}] {e}; library {got:?}, definition {want:?}"))?;
        }
        Ok(())
    }
    /// element-wise relative comparison
    pub fn near_each(&mut self, k: &'static str, got: &[f64], want: &[f64], scale: f64, tol: f64) -> Result<(), String> {
        if got.len() != want.len() {
            return Err(format!("{k}: library gives {} values, expected {}", got.len(), want.len()));
        }
        for i in 0..got.len() {
            self.near(k, got[i], want[i], scale, tol).map_err(|e| format!("[{i}] {e}; library {got:?}, definition {want:?}"))?;
        }
        Ok(())
    }
    /// A violation: reported as such unless known_findings.txt lists it under this property.
    pub fn finding(&mut self, id: &str, msg: String) -> Result<(), String> {
        if known(self.prop).iter().any(|k| k == id) {
            let cur = self.cur.clone();
            let e = self.findings.entry(id.to_string()).or_insert((0, cur));
            e.0 += 1;
            return Ok(());
        }
        Err(msg)
    }
    pub fn build(&mut self, b: &Build) -> Result<Box<dyn ModelApi>, Ferr> {
        self.transitions += 1;
        dispatch::build(b)
    }
}

pub struct Plan {
    pub world: World,
    pub confs: Vec<Conf>,
}
pub type CheckFn = fn(&Case, &mut Ctx) -> Result<(), String>;
pub struct Group {
    pub name: &'static str,
    pub plans: Vec<Plan>,
    pub check: CheckFn,
}

pub struct Outcome {
    pub ctx: Ctx,
    pub states: u64,
    pub data_edges: u64,
    pub worlds: Vec<String>,
    pub violation: Option<(String, String)>,
}

/// Explore every state of every group. Deterministic: of all violations the first in enumeration
/// order is reported.
pub fn explore(groups: &[Group], only: Option<&str>, prop: &str) -> Outcome {
    struct Item<'a> {
        g: &'a Group,
        w: &'a World,
        c: Conf,
        st: Arc<Vec<Vec<u8>>>,
    }
    let mut items: Vec<Item> = vec![];
    let mut edges = 0;
    let mut worlds = vec![];
    for g in groups {
        for p in &g.plans {
            if std::env::var("GLMMC_WORLD").is_ok_and(|w| w != p.world.name) {
                continue; // development aid
            }
            worlds.push(format!("{}: world {} ({} covariates, {} fixed rows, {} to {} rows), {} configurations", g.name, p.world.name, p.world.p, p.world.base, p.world.nmin, p.world.nmax, p.confs.len()));
            let mut cache: BTreeMap<Fl, Arc<Vec<Vec<u8>>>> = BTreeMap::new();
            for c in &p.confs {
                let st = cache
                    .entry(c.c.fl)
                    .or_insert_with(|| {
                        let (s, e) = p.world.states(c.c.fl);
                        edges += e;
                        Arc::new(s)
                    })
                    .clone();
                // split large state sets so that the workers stay balanced
                let chunk = 400;
                let mut i = 0;
                while i < st.len() {
                    let j = (i + chunk).min(st.len());
                    let part = if i == 0 && j == st.len() { st.clone() } else { Arc::new(st[i..j].to_vec()) };
                    items.push(Item { g, w: &p.world, c: *c, st: part });
                    i = j;
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let keep = std::env::var("GLMMC_SURVEY").is_ok();
    let best = AtomicUsize::new(usize::MAX);
    let bestmsg: Mutex<Option<(usize, String, String)>> = Mutex::new(None);
    let nw = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let merged: Mutex<Ctx> = Mutex::new(Ctx::default());
    let states = std::sync::atomic::AtomicU64::new(0);
    let cur: Vec<Mutex<Option<(Instant, String)>>> = (0..nw).map(|_| Mutex::new(None)).collect();
    let alive = AtomicUsize::new(nw);
    std::thread::scope(|sc| {
        for wk in 0..nw {
            let (items, next, best, bestmsg, merged, states, cur, alive) = (&items, &next, &best, &bestmsg, &merged, &states, &cur, &alive);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut ctx = Ctx { prop: intern(prop), ..Default::default() };
                    let mut ns = 0u64;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= items.len() || i > best.load(Ordering::SeqCst) {
                            break;
                        }
                        let it = &items[i];
                        let began = Instant::now();
                        for l in it.st.iter() {
                            let d = mk_data(it.w, l, &it.c);
                            let case = Case { world: it.w, letters: l, conf: it.c, d };
                            let key = format!("{}|{}", it.g.name, case.key());
                            if let Some(o) = only {
                                if o != key {
                                    continue;
                                }
                            }
                            *cur[wk].lock().unwrap() = Some((Instant::now(), key.clone()));
                            ctx.cur = key.clone();
                            ctx.check = it.g.name;
                            ns += 1;
                            if ns % 4001 == 1 && ctx.samples.len() < 4 {
                                ctx.samples.push(case.describe());
                            }
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (it.g.check)(&case, &mut ctx)));
                            let r = match r {
                                Ok(r) => r,
                                Err(p) => Err(format!("panic: {}", panic_msg(p))),
                            };
                            if let (Err(m), true) = (&r, keep) {
                                // development aid: survey all violations
                                let k = if std::env::var("GLMMC_SURVEY").is_ok_and(|v| v == "2") {
                                    let short: String = m.split(['(', '[']).next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
                                    format!("{} {short}", it.g.name)
                                } else {
                                    key.split(':').take(2).collect::<Vec<_>>().join(":")
                                };
                                let e = ctx.findings.entry(format!("survey {k}")).or_insert((0, format!("{key}\n      {}", m.lines().next().unwrap_or(""))));
                                e.0 += 1;
                                continue;
                            }
                            if let Err(m) = r {
                                let mut b = bestmsg.lock().unwrap();
                                if b.as_ref().is_none_or(|x| i < x.0) {
                                    *b = Some((i, key.clone(), format!("{m}\ncase: {}", case.describe())));
                                    best.fetch_min(i, Ordering::SeqCst);
                                }
                                break;
                            }
                        }
                        let e = ctx.times.entry((it.g.name, it.w.name)).or_default();
                        e.0 += began.elapsed();
                        e.1 += it.st.len() as u64;
                    }
                    *cur[wk].lock().unwrap() = None;
                    states.fetch_add(ns, Ordering::SeqCst);
                    let mut m = merged.lock().unwrap();
                    for (k, v) in &ctx.counts {
                        *m.counts.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in &ctx.maxima {
                        let e = m.maxima.entry(k).or_insert((-1., String::new()));
                        if v.0 > e.0 || v.0.is_nan() {
                            *e = v.clone();
                        }
                    }
                    for (k, v) in &ctx.findings {
                        let e = m.findings.entry(k.clone()).or_insert((0, v.1.clone()));
                        e.0 += v.0;
                        if v.1 < e.1 {
                            e.1 = v.1.clone();
                        }
                    }
                    for (k, v) in &ctx.times {
                        let e = m.times.entry(*k).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                    m.samples.extend(ctx.samples.iter().cloned());
                    m.transitions += ctx.transitions;
                    m.traces += ctx.traces;
                    m.inner_states += ctx.inner_states;
                    alive.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // watchdog: a single state takes milliseconds; minutes mean the library does not terminate
        let (cur, alive) = (&cur, &alive);
        sc.spawn(move || {
            while alive.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for c in cur.iter() {
                    let g = c.lock().unwrap();
                    if let Some((t, k)) = g.as_ref() {
                        if t.elapsed() > Duration::from_secs(120) {
                            let f = write_replay(prop, k, "the library did not return within 120 s (a state normally takes milliseconds)");
                            crate::say!("VIOLATION property={prop} replay={f}");
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
    });
    let v = bestmsg.into_inner().unwrap().map(|(_, k, m)| (k, m));
    Outcome { ctx: merged.into_inner().unwrap(), states: states.into_inner(), data_edges: edges, worlds, violation: v }
}

pub fn root() -> std::path::PathBuf {
    std::env::var("GLMMC_ROOT").map(Into::into).unwrap_or_else(|_| std::env::current_dir().unwrap())
}
pub fn write_replay(prop: &str, key: &str, msg: &str) -> String {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{prop}.txt"));
    let mut s = String::new();
    let _ = writeln!(s, "property {prop}\nkey {key}\n{msg}\n\nreplay: ./run.sh {prop} thorough --only '{key}'");
    let _ = std::fs::write(&f, s);
    f.display().to_string()
}

// ---------------------------------------------------------------- configuration products
#[derive(Clone)]
pub struct Prod {
    pub fls: Vec<Fl>,
    pub fps: Vec<Fp>,
    pub icpt: Vec<bool>,
    pub std: Vec<bool>,
    pub reg: Vec<(f64, f64)>,
    pub wp: Vec<Wp>,
    pub of: Vec<Of>,
}
impl Prod {
    pub fn confs(&self) -> Vec<Conf> {
        let mut v = vec![];
        for &fl in &self.fls {
            for &fp in &self.fps {
                if fp == Fp::F32 && !has_f32(fl) {
                    continue;
                }
                for &icpt in &self.icpt {
                    for &std in &self.std {
                        for &(l1, l2) in &self.reg {
                            for &wp in &self.wp {
                                for &of in &self.of {
                                    v.push(Conf { c: Cfg { fl, icpt, std, l1, l2 }, wp, of, fp });
                                }
                            }
                        }
                    }
                }
            }
        }
        v
    }
}
pub const BOTH: [bool; 2] = [true, false];
/// every family, every option; no regularization
pub fn full() -> Prod {
    Prod {
        fls: BUILTIN.to_vec(),
        fps: vec![Fp::F64],
        icpt: BOTH.to_vec(),
        std: BOTH.to_vec(),
        reg: vec![(0., 0.)],
        wp: vec![Wp::N, Wp::W, Wp::F, Wp::Wf, Wp::F0],
        of: vec![Of::N, Of::V, Of::C],
    }
}

fn intern(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
/// Findings listed for a property: lines "known: property=<id> <finding id> | <description>".
pub fn known(prop: &str) -> &'static [String] {
    use std::sync::OnceLock;
    static K: OnceLock<Vec<String>> = OnceLock::new();
    K.get_or_init(|| {
        let f = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        let pre = format!("known: property={prop} ");
        f.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.split(" | ").next().unwrap().trim().to_string()).collect()
    })
}
impl Ctx {
    /// absolute comparison; positions where the definition is not finite are not compared
    pub fn within(&mut self, k: &'static str, got: f64, want: f64, tol: f64) -> Result<(), String> {
        if got == want || !want.is_finite() {
            return Ok(());
        }
        let d = (got - want).abs();
        if !(d <= tol) {
            return Err(format!("{k}: library gives {got:e}, definition gives {want:e} (deviation {d:.2e}, tolerance {tol:.1e})"));
        }
        self.dev(k, d / tol);
        Ok(())
    }
}
/// the values of a query that has to succeed
pub fn want(fit: &dyn FitApi, q: &Q) -> Result<Vec<f64>, String> {
    match fit.get(q) {
        Out::Val(_, v) => Ok(v),
        o => Err(format!("{q:?} gives {}", o.show())),
    }
}
