//! Adapter: drives the real crate through its public API for every family/link/float combination
//! behind one object-safe interface, and turns every outcome (value, error, panic) into data.
pub mod eval;
pub mod links;
pub use ndarray::{Array1, Array2, ArrayView1, ArrayView2, ShapeBuilder, s};
pub use ndarray_glm::error::RegressionError;
pub use ndarray_glm::{
    Binomial, Exponential, Fit, FitOptions, Gamma, InvGaussian, Linear, Logistic, ModelBuilder,
    Poisson, exp_link, gamma_link, inv_gauss_link, logistic_link, model::Model, num::Float,
};
pub use std::panic::{AssertUnwindSafe, catch_unwind};

/// Family/link combinations known to the harness.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Fl {
    Lin,
    Logit,
    Cloglog,
    Pois,
    Bin1,
    Bin3,
    Bin12,
    ExpN,
    ExpL,
    GamN,
    GamL,
    IgN,
    IgL,
    // custom links restating built-in ones
    CLin,
    CLin2,
    CLogit,
    CCloglog,
    CPois,
    CExpL,
    CGamL,
    CIgL,
    // custom links the crate does not ship
    PSqrt,
    LLog,
    GRec,
    Cauchit,
}
pub const BUILTIN: [Fl; 13] = [
    Fl::Lin,
    Fl::Logit,
    Fl::Cloglog,
    Fl::Pois,
    Fl::Bin1,
    Fl::Bin3,
    Fl::Bin12,
    Fl::ExpN,
    Fl::ExpL,
    Fl::GamN,
    Fl::GamL,
    Fl::IgN,
    Fl::IgL,
];
pub const CUSTOM_NEW: [Fl; 4] = [Fl::PSqrt, Fl::LLog, Fl::GRec, Fl::Cauchit];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fp {
    F64,
    F32,
}

/// The element type the response is handed over as.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Yt {
    Default,
    Bool,
    F32,
    F64,
    U8,
    U16,
    U32,
    U64,
    Usize,
}

/// Memory layout of the arrays handed over.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Layout {
    C,
    F,
    /// every other row/column of a larger array
    Strided,
    /// negative strides
    Reversed,
    /// only the rows have a negative stride
    RevRows,
    /// only the columns have a negative stride
    RevCols,
    /// column-major with reversed rows
    FRevRows,
    /// some columns of a wider array
    Wide,
}
pub const LAYOUTS: [Layout; 7] = [Layout::F, Layout::Strided, Layout::Reversed, Layout::RevRows, Layout::RevCols, Layout::FRevRows, Layout::Wide];

#[derive(Clone, PartialEq, Debug)]
pub enum Op {
    Off(Vec<f64>),
    Var(Vec<f64>),
    Freq(Vec<usize>),
    NoConst,
    NoStd,
}

#[derive(Clone, Debug)]
pub struct Build {
    pub fl: Fl,
    pub fp: Fp,
    pub y: Vec<f64>,
    pub yt: Yt,
    /// rows
    pub x: Vec<Vec<f64>>,
    pub ncols: usize,
    pub layout: Layout,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Via {
    Fit,
    /// fit_options() then setters in the order l2, l1, max_iter, tol
    Chain,
    /// the reverse order
    ChainRev,
    With,
    /// the setter calls listed in `seq`: 0 l2_reg, 1 l1_reg, 2 max_iter, 3 tol
    Seq,
}

#[derive(Clone, Debug)]
pub struct How {
    pub via: Via,
    pub max_iter: Option<usize>,
    pub tol: Option<f64>,
    pub l1: f64,
    pub l2: f64,
    pub init: Option<Vec<f64>>,
    pub seq: Vec<(u8, f64)>,
}
impl Default for How {
    fn default() -> Self {
        How { via: Via::Chain, max_iter: None, tol: None, l1: 0., l2: 0., init: None, seq: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ferr {
    BadInput,
    InvalidY,
    Build,
    Linalg,
    MaxIter { n_iter: usize, history: Vec<(Vec<f64>, f64)> },
    Panic(String),
}
impl Ferr {
    pub fn kind(&self) -> &'static str {
        match self {
            Ferr::BadInput => "BadInput",
            Ferr::InvalidY => "InvalidY",
            Ferr::Build => "BuildError",
            Ferr::Linalg => "LinalgError",
            Ferr::MaxIter { .. } => "MaxIter",
            Ferr::Panic(_) => "panic",
        }
    }
}

/// A query on a fit.
#[derive(Clone, Debug, PartialEq)]
pub enum Q {
    Aic,
    Bic,
    Cooks,
    Cov,
    Dev,
    Disp,
    Fisher(Vec<f64>),
    Hat,
    Infl,
    Lev,
    Loo,
    Lr,
    LrAgainst(Vec<f64>),
    Ndf,
    NullLike,
    PredictL(Layout, Vec<Vec<f64>>, usize, Option<Vec<f64>>),
    Predict(Vec<Vec<f64>>, usize, Option<Vec<f64>>),
    ResDev,
    ResDevStd,
    ResPart,
    ResPear,
    ResPearStd,
    ResResp,
    ResStudent,
    ResWork,
    Score(Vec<f64>),
    ScoreTest,
    ScoreTestAgainst(Vec<f64>),
    TestNdf,
    Wald,
    WaldAgainst(Vec<f64>),
    WaldZ,
    RSq,
    Rss,
    PLr,
    PWald,
    PExact,
    ResQuant,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Val(Vec<usize>, Vec<f64>),
    Err(String),
    Panic(String),
    /// the method does not exist for this family
    NA,
}
impl Out {
    pub fn v(&self) -> Option<&[f64]> {
        match self {
            Out::Val(_, v) => Some(v),
            _ => None,
        }
    }
    pub fn s(&self) -> Option<f64> {
        match self {
            Out::Val(_, v) if v.len() == 1 => Some(v[0]),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Val(s, v) => format!("{s:?}{v:?}"),
            Out::Err(e) => format!("Err({e})"),
            Out::Panic(p) => format!("PANIC({p})"),
            Out::NA => "n/a".into(),
        }
    }
}

pub trait FitApi {
    fn result(&self) -> Vec<f64>;
    fn model_like(&self) -> f64;
    fn n_iter(&self) -> usize;
    fn history(&self) -> Vec<(Vec<f64>, f64)>;
    fn raw(&self, q: &Q) -> Out;
    /// (max_iter, tol, l1, l2)
    fn options(&self) -> (usize, f64, f64, f64);
    fn get(&self, q: &Q) -> Out {
        match catch_unwind(AssertUnwindSafe(|| self.raw(q))) {
            Ok(o) => o,
            Err(p) => Out::Panic(panic_msg(p)),
        }
    }
}
pub trait ModelApi {
    fn fit<'a>(&'a self, how: &How) -> Result<Box<dyn FitApi + 'a>, Ferr>;
    fn n_obs(&self) -> f64;
    fn n_eff(&self) -> f64;
    /// the response values the model holds
    fn y(&self) -> Vec<f64>;
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub fn to64<F: Float>(x: F) -> f64 {
    num_traits::ToPrimitive::to_f64(&x).unwrap()
}
pub fn fr<F: Float>(x: f64) -> F {
    F::from(x).unwrap()
}
pub fn arr<F: Float>(v: &[f64]) -> Array1<F> {
    v.iter().map(|&x| fr::<F>(x)).collect()
}
pub fn mat<F: Float>(rows: &[Vec<f64>], nc: usize) -> Array2<F> {
    Array2::from_shape_fn((rows.len(), nc), |(i, j)| fr::<F>(rows[i][j]))
}
pub fn ferr<F: Float>(e: RegressionError<F>) -> Ferr {
    match e {
        RegressionError::BadInput(_) => Ferr::BadInput,
        RegressionError::InvalidY(_) => Ferr::InvalidY,
        RegressionError::BuildError(_) => Ferr::Build,
        RegressionError::LinalgError { .. } => Ferr::Linalg,
        RegressionError::MaxIter { n_iter, history } => Ferr::MaxIter {
            n_iter,
            history: history
                .iter()
                .map(|s| (s.guess.iter().map(|&g| to64(g)).collect(), to64(s.like)))
                .collect(),
        },
    }
}
pub fn o_s<F: Float>(x: F) -> Out {
    Out::Val(vec![], vec![to64(x)])
}
pub fn o_v<F: Float>(x: &Array1<F>) -> Out {
    Out::Val(vec![x.len()], x.iter().map(|&v| to64(v)).collect())
}
pub fn o_m<F: Float>(x: &Array2<F>) -> Out {
    Out::Val(vec![x.nrows(), x.ncols()], x.iter().map(|&v| to64(v)).collect())
}
pub fn o_r<T, F: Float>(r: Result<T, RegressionError<F>>, f: impl FnOnce(&T) -> Out) -> Out {
    match r {
        Ok(t) => f(&t),
        Err(e) => Out::Err(ferr(e).kind().to_string()),
    }
}

/// Build the x array in the wanted memory layout and pass a view on.
pub fn with_x<F: Float, R>(b: &Build, f: impl FnOnce(ArrayView2<F>) -> R) -> R {
    with_rows(&b.x, b.ncols, b.layout, f)
}
pub fn with_rows<F: Float, R>(x: &[Vec<f64>], p: usize, layout: Layout, f: impl FnOnce(ArrayView2<F>) -> R) -> R {
    let n = x.len();
    let get = |i: usize, j: usize| fr::<F>(x[i][j]);
    match layout {
        Layout::C => f(Array2::from_shape_fn((n, p), |(i, j)| get(i, j)).view()),
        Layout::F => f(Array2::from_shape_fn((n, p).f(), |(i, j)| get(i, j)).view()),
        Layout::Strided => {
            let big = Array2::from_shape_fn((2 * n, 3 * p), |(i, j)| {
                if i % 2 == 0 && j % 3 == 0 { get(i / 2, j / 3) } else { fr::<F>(-77.25) }
            });
            f(big.slice(s![..;2, ..;3]))
        }
        Layout::Reversed => {
            let big = Array2::from_shape_fn((n, p), |(i, j)| get(n - 1 - i, p - 1 - j));
            f(big.slice(s![..;-1, ..;-1]))
        }
        Layout::RevRows => {
            let big = Array2::from_shape_fn((n, p), |(i, j)| get(n - 1 - i, j));
            f(big.slice(s![..;-1, ..]))
        }
        Layout::RevCols => {
            let big = Array2::from_shape_fn((n, p), |(i, j)| get(i, p - 1 - j));
            f(big.slice(s![.., ..;-1]))
        }
        Layout::FRevRows => {
            let big = Array2::from_shape_fn((n, p).f(), |(i, j)| get(n - 1 - i, j));
            f(big.slice(s![..;-1, ..]))
        }
        Layout::Wide => {
            let big = Array2::from_shape_fn((n, p + 2), |(i, j)| if j > 0 && j <= p { get(i, j - 1) } else { fr::<F>(-77.25) });
            f(big.slice(s![.., 1..p + 1]))
        }
    }
}
/// an owned vector in the layout that goes with it
pub fn arrl<T: Copy>(v: &[T], layout: Layout) -> Array1<T> {
    match layout {
        Layout::Strided => (0..2 * v.len()).map(|i| v[i / 2]).collect::<Array1<T>>().slice_move(s![..;2]),
        Layout::Reversed | Layout::RevRows | Layout::FRevRows => v.iter().rev().copied().collect::<Array1<T>>().slice_move(s![..;-1]),
        _ => v.iter().copied().collect(),
    }
}
pub fn with_y<Y: Copy, R>(b: &Build, conv: impl Fn(f64) -> Y, f: impl FnOnce(ArrayView1<Y>) -> R) -> R {
    let y: Vec<Y> = b.y.iter().map(|&v| conv(v)).collect();
    f(arrl(&y, b.layout).view())
}

#[macro_export]
macro_rules! rsq {
    (lin, $s:expr, $q:expr) => {
        match $q {
            Q::RSq => o_s($s.0.r_sq()),
            Q::Rss => o_s($s.0.rss()),
            Q::ResQuant => o_v(&$s.0.resid_quantile()),
            _ => Out::NA,
        }
    };
    (quant, $s:expr, $q:expr) => {
        match $q {
            Q::ResQuant => o_v(&$s.0.resid_quantile()),
            _ => Out::NA,
        }
    };
    (none, $s:expr, $q:expr) => {
        Out::NA
    };
}

#[macro_export]
macro_rules! builder {
    ($b:expr, $M:ty, $F:ty, $conv:expr, $x:expr) => {{
        with_y($b, $conv, |yv| {
            let mut m = ModelBuilder::<$M>::data(&yv, &$x);
            for op in &$b.ops {
                m = match op {
                    Op::Off(v) => m.linear_offset($crate::arrl(&arr::<$F>(v).to_vec(), $b.layout)),
                    Op::Var(v) => m.var_weights($crate::arrl(&arr::<$F>(v).to_vec(), $b.layout)),
                    Op::Freq(v) => m.freq_weights($crate::arrl(v, $b.layout)),
                    Op::NoConst => m.no_constant(),
                    Op::NoStd => m.no_standardize(),
                };
            }
            m.build()
        })
    }};
}
#[macro_export]
macro_rules! build_y {
    (float, $b:expr, $M:ty, $F:ty, $x:expr) => {
        match $b.yt {
            Yt::F32 => $crate::builder!($b, $M, $F, |v| v as f32, $x),
            Yt::F64 => $crate::builder!($b, $M, $F, |v| v as f64, $x),
            _ => $crate::builder!($b, $M, $F, |v| v as $F, $x),
        }
    };
    (logi, $b:expr, $M:ty, $F:ty, $x:expr) => {
        match $b.yt {
            Yt::F32 => $crate::builder!($b, $M, $F, |v| v as f32, $x),
            Yt::F64 => $crate::builder!($b, $M, $F, |v| v as f64, $x),
            Yt::Bool => $crate::builder!($b, $M, $F, |v| v != 0., $x),
            _ => {
                if $b.y.iter().all(|&v| v == 0. || v == 1.) {
                    $crate::builder!($b, $M, $F, |v| v != 0., $x)
                } else {
                    $crate::builder!($b, $M, $F, |v| v as $F, $x)
                }
            }
        }
    };
    (pois, $b:expr, $M:ty, $F:ty, $x:expr) => {
        match $b.yt {
            Yt::U8 => $crate::builder!($b, $M, $F, |v| v as u8, $x),
            Yt::U16 => $crate::builder!($b, $M, $F, |v| v as u16, $x),
            Yt::U64 => $crate::builder!($b, $M, $F, |v| v as u64, $x),
            Yt::Usize => $crate::builder!($b, $M, $F, |v| v as usize, $x),
            _ => $crate::builder!($b, $M, $F, |v| v as u32, $x),
        }
    };
    (bin, $b:expr, $M:ty, $F:ty, $x:expr) => {
        $crate::builder!($b, $M, $F, |v| v as u16, $x)
    };
}

#[macro_export]
macro_rules! sut {
    ($mk:ident, $M:ty, $F:ty, $yk:ident, $extra:ident) => {
        impl<'a> FitApi for W<Fit<'a, $M, $F>> {
            fn result(&self) -> Vec<f64> {
                self.0.result.iter().map(|&v| to64(v)).collect()
            }
            fn model_like(&self) -> f64 {
                to64(self.0.model_like)
            }
            fn n_iter(&self) -> usize {
                self.0.n_iter
            }
            fn options(&self) -> (usize, f64, f64, f64) {
                let o = &self.0.options;
                (o.max_iter, to64(o.tol), to64(o.l1), to64(o.l2))
            }
            fn history(&self) -> Vec<(Vec<f64>, f64)> {
                self.0
                    .history
                    .iter()
                    .map(|s| (s.guess.iter().map(|&g| to64(g)).collect(), to64(s.like)))
                    .collect()
            }
            fn raw(&self, q: &Q) -> Out {
                let f = &self.0;
                match q {
                    Q::Aic => o_s(f.aic()),
                    Q::Bic => o_s(f.bic()),
                    Q::Cooks => o_r(f.cooks(), |v| o_v(v)),
                    Q::Cov => o_r(f.covariance(), |v| o_m(v)),
                    Q::Dev => o_s(f.deviance()),
                    Q::Disp => o_s(f.dispersion()),
                    Q::Fisher(b) => o_m(&f.fisher(&arr::<$F>(b))),
                    Q::Hat => o_r(f.hat(), |v| o_m(v)),
                    Q::Infl => o_r(f.infl_coef(), |v| o_m(v)),
                    Q::Lev => o_r(f.leverage(), |v| o_v(v)),
                    Q::Loo => o_r(f.loo_exact(), |v| o_m(v)),
                    Q::Lr => o_s(f.lr_test()),
                    Q::LrAgainst(b) => o_s(f.lr_test_against(&arr::<$F>(b))),
                    Q::Ndf => o_s(f.ndf()),
                    Q::NullLike => o_s(f.null_like()),
                    Q::Predict(x, nc, off) => {
                        let off = off.as_ref().map(|o| arr::<$F>(o));
                        o_v(&f.predict(&mat::<$F>(x, *nc), off.as_ref()))
                    }
                    Q::PredictL(l, x, nc, off) => {
                        let off = off.as_ref().map(|o| $crate::arrl(&arr::<$F>(o).to_vec(), *l));
                        $crate::with_rows::<$F, _>(x, *nc, *l, |v| o_v(&f.predict(&v, off.as_ref())))
                    }
                    Q::ResDev => o_v(&f.resid_dev()),
                    Q::ResDevStd => o_r(f.resid_dev_std(), |v| o_v(v)),
                    Q::ResPart => o_m(&f.resid_part()),
                    Q::ResPear => o_v(f.resid_pear()),
                    Q::ResPearStd => o_r(f.resid_pear_std(), |v| o_v(v)),
                    Q::ResResp => o_v(&f.resid_resp()),
                    Q::ResStudent => o_r(f.resid_student(), |v| o_v(v)),
                    Q::ResWork => o_v(&f.resid_work()),
                    Q::Score(b) => o_v(&f.score(arr::<$F>(b))),
                    Q::ScoreTest => o_r(f.score_test(), |v| o_s(*v)),
                    Q::ScoreTestAgainst(b) => o_r(f.score_test_against(arr::<$F>(b)), |v| o_s(*v)),
                    Q::TestNdf => Out::Val(vec![], vec![f.test_ndf() as f64]),
                    Q::Wald => o_s(f.wald_test()),
                    Q::WaldAgainst(b) => o_s(f.wald_test_against(&arr::<$F>(b))),
                    Q::WaldZ => o_r(f.wald_z(), |v| o_v(v)),
                    Q::PLr => o_s(f.pvalue_lr_test()),
                    Q::PWald => o_r(f.pvalue_wald(), |v| o_v(v)),
                    Q::PExact => o_r(f.pvalue_exact(), |v| o_v(v)),
                    Q::RSq | Q::Rss | Q::ResQuant => $crate::rsq!($extra, self, q),
                }
            }
        }
        impl ModelApi for W<Model<$M, $F>> {
            fn n_obs(&self) -> f64 {
                to64(self.0.data.n_obs())
            }
            fn n_eff(&self) -> f64 {
                to64(self.0.data.n_eff())
            }
            fn y(&self) -> Vec<f64> {
                self.0.data.y.iter().map(|&v| to64(v)).collect()
            }
            fn fit<'a>(&'a self, h: &How) -> Result<Box<dyn FitApi + 'a>, Ferr> {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let m = &self.0;
                    match h.via {
                        Via::Fit => m.fit(),
                        Via::With => {
                            let d = FitOptions::<$F>::default();
                            m.with_options(FitOptions {
                                max_iter: h.max_iter.unwrap_or(d.max_iter),
                                tol: h.tol.map(|t| t as $F).unwrap_or(d.tol),
                                l2: h.l2 as $F,
                                l1: h.l1 as $F,
                                init_guess: h.init.as_ref().map(|b| arr::<$F>(b)),
                            })
                            .fit()
                        }
                        Via::Seq => {
                            let mut c = m.fit_options();
                            for &(o, v) in &h.seq {
                                c = match o {
                                    0 => c.l2_reg(v as $F),
                                    1 => c.l1_reg(v as $F),
                                    2 => c.max_iter(v as usize),
                                    _ => c.tol(v as $F),
                                };
                            }
                            c.fit()
                        }
                        _ => {
                            let mut c = m.fit_options();
                            let order: [u8; 4] =
                                if h.via == Via::Chain { [0, 1, 2, 3] } else { [3, 2, 1, 0] };
                            for o in order {
                                c = match o {
                                    0 if h.l2 != 0. => c.l2_reg(h.l2 as $F),
                                    1 if h.l1 != 0. => c.l1_reg(h.l1 as $F),
                                    2 if h.max_iter.is_some() => c.max_iter(h.max_iter.unwrap()),
                                    3 if h.tol.is_some() => c.tol(h.tol.unwrap() as $F),
                                    _ => c,
                                };
                            }
                            if let Some(b) = &h.init {
                                c.options.init_guess = Some(arr::<$F>(b));
                            }
                            c.fit()
                        }
                    }
                }));
                match r {
                    Ok(Ok(f)) => Ok(Box::new(W(f))),
                    Ok(Err(e)) => Err(ferr(e)),
                    Err(p) => Err(Ferr::Panic(panic_msg(p))),
                }
            }
        }
        pub fn $mk(b: &Build) -> Result<Box<dyn ModelApi>, Ferr> {
            let r = catch_unwind(AssertUnwindSafe(|| {
                with_x::<$F, _>(b, |xv| $crate::build_y!($yk, b, $M, $F, xv))
            }));
            match r {
                Ok(Ok(m)) => Ok(Box::new(W(m))),
                Ok(Err(e)) => Err(ferr(e)),
                Err(p) => Err(Ferr::Panic(panic_msg(p))),
            }
        }
    };
}

pub fn has_f32(fl: Fl) -> bool {
    use Fl::*;
    matches!(fl, Lin | Logit | Cloglog | Pois | Bin3 | ExpN | ExpL | GamN | GamL | IgN | IgL)
}


/// Names every family crate starts with.
#[macro_export]
macro_rules! prelude {
    () => {
        use $crate::links::*;
        use $crate::*;
        struct W<T>(T);
    };
}
