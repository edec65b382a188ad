//! Boring reference model of a penalized GLM, in external coordinates, f64, naive loops.
use sut::Fl;

pub type Mat = Vec<Vec<f64>>;

// ---------------------------------------------------------------- linear algebra
pub fn matvec(a: &Mat, v: &[f64]) -> Vec<f64> {
    a.iter().map(|r| dot(r, v)).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn matmul(a: &Mat, b: &Mat) -> Mat {
    let m = if b.is_empty() { 0 } else { b[0].len() };
    a.iter()
        .map(|r| (0..m).map(|j| r.iter().enumerate().map(|(k, x)| x * b[k][j]).sum()).collect())
        .collect()
}
/// Gauss-Jordan with full row pivoting; None when numerically singular.
pub fn inv(a: &Mat) -> Option<Mat> {
    let n = a.len();
    // symmetric diagonal equilibration first: the matrices here are information matrices
    let d: Vec<f64> = (0..n)
        .map(|i| {
            let x = a[i][i].abs();
            if x > 0. && x.is_finite() { 1. / x.sqrt() } else { 1. }
        })
        .collect();
    let mut m: Mat = (0..n)
        .map(|i| {
            let mut r: Vec<f64> = (0..n).map(|j| a[i][j] * d[i] * d[j]).collect();
            r.extend((0..n).map(|j| if i == j { 1. } else { 0. }));
            r
        })
        .collect();
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| m[i][c].abs().total_cmp(&m[j][c].abs()))?;
        if !(m[p][c].abs() > 1e-14) {
            return None;
        }
        m.swap(c, p);
        let piv = m[c][c];
        for x in m[c].iter_mut() {
            *x /= piv;
        }
        for i in 0..n {
            if i != c {
                let f = m[i][c];
                if f != 0. {
                    for j in 0..2 * n {
                        m[i][j] -= f * m[c][j];
                    }
                }
            }
        }
    }
    Some((0..n).map(|i| (0..n).map(|j| m[i][n + j] * d[i] * d[j]).collect()).collect())
}
/// Cholesky solve; None when not positive definite.
pub fn chol_solve(a: &Mat, b: &[f64]) -> Option<Vec<f64>> {
    let n = a.len();
    let d: Vec<f64> = (0..n)
        .map(|i| if a[i][i] > 0. { 1. / a[i][i].sqrt() } else { f64::NAN })
        .collect();
    let mut l = vec![vec![0.; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[i][j] * d[i] * d[j];
            for k in 0..j {
                s -= l[i][k] * l[j][k];
            }
            if i == j {
                if !(s > 1e-13) {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    let mut z: Vec<f64> = (0..n).map(|i| b[i] * d[i]).collect();
    for i in 0..n {
        for k in 0..i {
            z[i] -= l[i][k] * z[k];
        }
        z[i] /= l[i][i];
    }
    for i in (0..n).rev() {
        for k in i + 1..n {
            z[i] -= l[k][i] * z[k];
        }
        z[i] /= l[i][i];
    }
    Some((0..n).map(|i| z[i] * d[i]).collect())
}
/// Smallest eigenvalue of the unit-diagonal scaling of a symmetric matrix (Jacobi).
pub fn min_eig_scaled(a: &Mat) -> f64 {
    let n = a.len();
    if n == 0 {
        return 1.;
    }
    let mut m = a.clone();
    for i in 0..n {
        for j in 0..n {
            m[i][j] = a[i][j] / (a[i][i] * a[j][j]).sqrt();
            if !m[i][j].is_finite() {
                return 0.;
            }
        }
    }
    for _ in 0..60 {
        let mut off = 0.;
        for p in 0..n {
            for q in p + 1..n {
                off += m[p][q] * m[p][q];
                if m[p][q].abs() < 1e-300 {
                    continue;
                }
                let th = (m[q][q] - m[p][p]) / (2. * m[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.).sqrt());
                let t = if th == 0. { 1. } else { t };
                let c = 1. / (t * t + 1.).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (m[k][p], m[k][q]);
                    m[k][p] = c * x - s * y;
                    m[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (m[p][k], m[q][k]);
                    m[p][k] = c * x - s * y;
                    m[q][k] = s * x + c * y;
                }
            }
        }
        if off < 1e-24 {
            break;
        }
    }
    (0..n).map(|i| m[i][i]).fold(f64::INFINITY, f64::min)
}

// ---------------------------------------------------------------- families
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fam {
    Lin,
    Logistic,
    Pois,
    Bin(u32),
    Exp,
    Gam,
    Ig,
}
pub fn fam(fl: Fl) -> Fam {
    use Fl::*;
    match fl {
        Lin | CLin | CLin2 | LLog => Fam::Lin,
        Logit | Cloglog | CLogit | CCloglog | Cauchit => Fam::Logistic,
        Pois | CPois | PSqrt => Fam::Pois,
        Bin1 => Fam::Bin(1),
        Bin3 => Fam::Bin(3),
        Bin12 => Fam::Bin(12),
        ExpN | ExpL | CExpL => Fam::Exp,
        GamN | GamL | CGamL | GRec => Fam::Gam,
        IgN | IgL | CIgL => Fam::Ig,
    }
}
pub fn free_disp(fl: Fl) -> bool {
    matches!(fam(fl), Fam::Lin | Fam::Gam | Fam::Ig)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lk {
    Id,
    Logit,
    Cll,
    Log,
    NegRec,
    NegRecSq,
    Sqrt,
    Rec,
    Cauchit,
}
pub fn lk(fl: Fl) -> Lk {
    use Fl::*;
    match fl {
        Lin | CLin | CLin2 => Lk::Id,
        Logit | CLogit | Bin1 | Bin3 | Bin12 => Lk::Logit,
        Cloglog | CCloglog => Lk::Cll,
        Pois | CPois | ExpL | CExpL | GamL | CGamL | IgL | CIgL | LLog => Lk::Log,
        ExpN | GamN => Lk::NegRec,
        IgN => Lk::NegRecSq,
        PSqrt => Lk::Sqrt,
        GRec => Lk::Rec,
        Fl::Cauchit => Lk::Cauchit,
    }
}
pub fn canonical(fl: Fl) -> bool {
    use Fl::*;
    !matches!(
        fl,
        Cloglog | CCloglog | ExpL | CExpL | GamL | CGamL | IgL | CIgL | PSqrt | LLog | GRec | Fl::Cauchit
    )
}
/// log-likelihood concave in the linear predictor
pub fn concave(fl: Fl) -> bool {
    !matches!(fl, Fl::IgL | Fl::CIgL | Fl::LLog | Fl::Cauchit)
}
fn size(fl: Fl) -> f64 {
    match fam(fl) {
        Fam::Bin(n) => n as f64,
        _ => 1.,
    }
}
pub fn softplus(w: f64) -> f64 {
    if w > 0. { w + (-w).exp().ln_1p() } else { w.exp().ln_1p() }
}
fn xlogx(x: f64) -> f64 {
    if x == 0. { 0. } else { x * x.ln() }
}
/// mean as a function of the linear predictor
pub fn mu(fl: Fl, w: f64) -> f64 {
    match lk(fl) {
        Lk::Id => w,
        Lk::Logit => {
            let n = size(fl);
            if w >= 0. { n / (1. + (-w).exp()) } else { n * w.exp() / (1. + w.exp()) }
        }
        Lk::Cll => -(-w.exp()).exp_m1(),
        Lk::Log => w.exp(),
        Lk::NegRec => -1. / w,
        Lk::NegRecSq => 1. / (-2. * w).sqrt(),
        Lk::Sqrt => w * w,
        Lk::Rec => 1. / w,
        Lk::Cauchit => 0.5 + w.atan() / std::f64::consts::PI,
    }
}
/// link function
pub fn link(fl: Fl, m: f64) -> f64 {
    match lk(fl) {
        Lk::Id => m,
        Lk::Logit => (m / (size(fl) - m)).ln(),
        Lk::Cll => (-(-m).ln_1p()).ln(),
        Lk::Log => m.ln(),
        Lk::NegRec => -1. / m,
        Lk::NegRecSq => -1. / (2. * m * m),
        Lk::Sqrt => m.sqrt(),
        Lk::Rec => 1. / m,
        Lk::Cauchit => (std::f64::consts::PI * (m - 0.5)).tan(),
    }
}
/// d mu / d omega
pub fn dmu(fl: Fl, w: f64) -> f64 {
    match lk(fl) {
        Lk::Id => 1.,
        Lk::Logit => {
            let e = (-w.abs()).exp();
            size(fl) * e / ((1. + e) * (1. + e))
        }
        Lk::Cll => w.exp() * (-w.exp()).exp(),
        Lk::Log => w.exp(),
        Lk::NegRec => 1. / (w * w),
        Lk::NegRecSq => mu(fl, w).powi(3),
        Lk::Sqrt => 2. * w,
        Lk::Rec => -1. / (w * w),
        Lk::Cauchit => 1. / (std::f64::consts::PI * (1. + w * w)),
    }
}
/// variance function, at the mean belonging to omega
pub fn var(fl: Fl, w: f64) -> f64 {
    let m = mu(fl, w);
    match fam(fl) {
        Fam::Lin => 1.,
        Fam::Logistic | Fam::Bin(_) => match lk(fl) {
            Lk::Logit => dmu(fl, w),
            Lk::Cll => m * (-w.exp()).exp(),
            _ => m * (1. - m),
        },
        Fam::Pois => m,
        Fam::Exp | Fam::Gam => m * m,
        Fam::Ig => m * m * m,
    }
}
/// derivative of the natural parameter: mu'(omega) / V(mu)
pub fn deta(fl: Fl, w: f64) -> f64 {
    if canonical(fl) {
        1.
    } else {
        match lk(fl) {
            Lk::Cll => {
                let t = w.exp();
                t / (-(-t).exp_m1())
            }
            _ => dmu(fl, w) / var(fl, w),
        }
    }
}
pub fn in_domain(fl: Fl, w: f64) -> bool {
    match lk(fl) {
        Lk::NegRec | Lk::NegRecSq => w < 0.,
        Lk::Sqrt | Lk::Rec => w > 0.,
        _ => w.is_finite(),
    }
}
/// y*eta - A(eta)
pub fn ll(fl: Fl, y: f64, w: f64) -> f64 {
    if !in_domain(fl, w) {
        return f64::NEG_INFINITY;
    }
    match (fam(fl), lk(fl)) {
        (Fam::Lin, Lk::Id) => y * w - 0.5 * w * w,
        (Fam::Lin, _) => y * w.exp() - 0.5 * (2. * w).exp(),
        (Fam::Logistic, Lk::Logit) => y * w - softplus(w),
        (Fam::Bin(n), _) => y * w - n as f64 * softplus(w),
        (Fam::Logistic, Lk::Cll) => {
            let t = w.exp();
            let l = if y == 0. {
                0.
            } else if t > 1. {
                t + (-(-t).exp()).ln_1p()
            } else {
                t.exp_m1().ln()
            };
            y * l - t
        }
        (Fam::Logistic, _) => {
            let m = mu(fl, w);
            y * m.ln() + (1. - y) * (1. - m).ln()
        }
        (Fam::Pois, Lk::Log) => y * w - w.exp(),
        (Fam::Pois, _) => (if y == 0. { 0. } else { 2. * y * w.ln() }) - w * w,
        (Fam::Exp | Fam::Gam, Lk::NegRec) => y * w + (-w).ln(),
        (Fam::Exp | Fam::Gam, Lk::Rec) => -y * w + w.ln(),
        (Fam::Exp | Fam::Gam, _) => -y * (-w).exp() - w,
        (Fam::Ig, Lk::NegRecSq) => y * w + (-2. * w).sqrt(),
        (Fam::Ig, _) => -0.5 * y * (-2. * w).exp() + (-w).exp(),
    }
}
/// d ll / d omega
pub fn dll(fl: Fl, y: f64, w: f64) -> f64 {
    deta(fl, w) * (y - mu(fl, w))
}
/// - d^2 ll / d omega^2 (observed)
pub fn curv(fl: Fl, y: f64, w: f64) -> f64 {
    if canonical(fl) {
        return var(fl, w);
    }
    match (fam(fl), lk(fl)) {
        (_, Lk::Cll) => {
            let t = w.exp();
            let q = -(-t).exp_m1();
            t - y * t * (q - t * (-t).exp()) / (q * q)
        }
        (Fam::Exp | Fam::Gam, Lk::Log) => y * (-w).exp(),
        (Fam::Ig, _) => 2. * y * (-2. * w).exp() - (-w).exp(),
        (_, Lk::Sqrt) => 2. * y / (w * w) + 2.,
        (Fam::Lin, _) => -y * w.exp() + 2. * (2. * w).exp(),
        (_, Lk::Rec) => 1. / (w * w),
        _ => deta(fl, w) * dmu(fl, w),
    }
}
/// saturated y*eta - A(eta)
pub fn sat(fl: Fl, y: f64) -> f64 {
    match fam(fl) {
        Fam::Lin => 0.5 * y * y,
        Fam::Logistic => xlogx(y) + xlogx(1. - y),
        Fam::Pois => xlogx(y) - y,
        Fam::Bin(n) => xlogx(y) + xlogx(n as f64 - y) - xlogx(n as f64),
        Fam::Exp | Fam::Gam => -1. - y.ln(),
        Fam::Ig => 0.5 / y,
    }
}

// ---------------------------------------------------------------- problems
#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub y: Vec<f64>,
    pub x: Vec<Vec<f64>>,
    pub p: usize,
    pub off: Option<Vec<f64>>,
    pub w: Option<Vec<f64>>,
    pub f: Option<Vec<usize>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub fl: Fl,
    pub icpt: bool,
    pub std: bool,
    pub l1: f64,
    pub l2: f64,
}
#[derive(Clone, Debug)]
pub struct Prob {
    pub c: Cfg,
    pub n: usize,
    pub k: usize,
    pub y: Vec<f64>,
    /// external design with the constant column in front if there is an intercept
    pub xr: Mat,
    pub off: Vec<f64>,
    pub w: Vec<f64>,
    pub f: Vec<f64>,
    /// w*f
    pub wt: Vec<f64>,
    /// penalty scale per parameter (0 for the intercept)
    pub sig: Vec<f64>,
    /// centering used by the reference solver only (0 for the intercept)
    pub shift: Vec<f64>,
    pub has_off: bool,
    pub has_w: bool,
}
impl Prob {
    pub fn new(d: &Data, c: Cfg) -> Prob {
        let n = d.y.len();
        let w = d.w.clone().unwrap_or(vec![1.; n]);
        let f: Vec<f64> = d.f.as_ref().map(|f| f.iter().map(|&v| v as f64).collect()).unwrap_or(vec![1.; n]);
        let wt: Vec<f64> = (0..n).map(|i| w[i] * f[i]).collect();
        let sw: f64 = wt.iter().sum();
        let sw2: f64 = (0..n).map(|i| f[i] * w[i] * w[i]).sum();
        let neff = if d.w.is_some() { sw * sw / sw2 } else { f.iter().sum() };
        let mut sig = vec![];
        let mut shift = vec![];
        if c.icpt {
            sig.push(0.);
            shift.push(0.);
        }
        for j in 0..d.p {
            let m: f64 = (0..n).map(|i| wt[i] * d.x[i][j]).sum::<f64>() / sw;
            let v: f64 = (0..n).map(|i| wt[i] * (d.x[i][j] - m).powi(2)).sum::<f64>() / sw * neff / (neff - 1.);
            let used: Vec<f64> = (0..n).filter(|&i| wt[i] > 0.).map(|i| d.x[i][j]).collect();
            let constant = used.iter().all(|&x| x == used[0]);
            sig.push(if !c.std || n <= 1 || constant || !(v > 0.) { 1. } else { v.sqrt() });
            shift.push(if c.icpt { m } else { 0. });
        }
        let xr: Mat = d
            .x
            .iter()
            .map(|r| {
                let mut v = vec![];
                if c.icpt {
                    v.push(1.);
                }
                v.extend(r.iter().take(d.p));
                v
            })
            .collect();
        Prob {
            c,
            n,
            k: sig.len(),
            y: d.y.clone(),
            xr,
            off: d.off.clone().unwrap_or(vec![0.; n]),
            w,
            f,
            wt,
            sig,
            shift,
            has_off: d.off.is_some(),
            has_w: d.w.is_some(),
        }
    }
    pub fn lin(&self, b: &[f64]) -> Vec<f64> {
        (0..self.n).map(|i| dot(&self.xr[i], b) + self.off[i]).collect()
    }
    /// largest sum of magnitudes that goes into a linear predictor
    pub fn bmag(&self, b: &[f64]) -> f64 {
        1. + (0..self.n).map(|i| (0..self.k).map(|j| (self.xr[i][j] * b[j]).abs()).sum::<f64>()).fold(0., f64::max)
    }
    /// weighted sum over the observations that have any weight
    pub fn wsum(&self, g: impl Fn(usize) -> f64) -> f64 {
        (0..self.n).filter(|&i| self.wt[i] > 0.).map(|i| self.wt[i] * g(i)).sum()
    }
    pub fn loglik(&self, b: &[f64]) -> f64 {
        let w = self.lin(b);
        let mut s = 0.;
        for i in 0..self.n {
            if self.wt[i] > 0. {
                s += self.wt[i] * ll(self.c.fl, self.y[i], w[i]);
            }
        }
        s
    }
    pub fn penalty(&self, b: &[f64]) -> f64 {
        (0..self.k)
            .map(|j| 0.5 * self.c.l2 * (self.sig[j] * b[j]).powi(2) + self.c.l1 * (self.sig[j] * b[j]).abs())
            .sum()
    }
    pub fn obj(&self, b: &[f64]) -> f64 {
        self.loglik(b) - self.penalty(b)
    }
    /// gradient of the unpenalized log-likelihood
    pub fn grad_data(&self, b: &[f64]) -> Vec<f64> {
        let w = self.lin(b);
        let mut g = vec![0.; self.k];
        for i in 0..self.n {
            if self.wt[i] > 0. {
                let s = self.wt[i] * dll(self.c.fl, self.y[i], w[i]);
                for j in 0..self.k {
                    g[j] += s * self.xr[i][j];
                }
            }
        }
        g
    }
    /// gradient of the penalized objective; the L1 part uses sign(0)=0
    pub fn grad(&self, b: &[f64]) -> Vec<f64> {
        let mut g = self.grad_data(b);
        for j in 0..self.k {
            let s = if b[j] == 0. { 0. } else { b[j].signum() };
            g[j] -= self.c.l2 * self.sig[j].powi(2) * b[j] + self.c.l1 * self.sig[j] * s;
        }
        g
    }
    fn info_with(&self, xs: &Mat, h: &[f64]) -> Mat {
        let mut m = vec![vec![0.; self.k]; self.k];
        for i in 0..self.n {
            if self.wt[i] > 0. {
                let s = self.wt[i] * h[i];
                for a in 0..self.k {
                    for b in 0..self.k {
                        m[a][b] += s * xs[i][a] * xs[i][b];
                    }
                }
            }
        }
        m
    }
    /// expected information of the data part
    pub fn info_data(&self, b: &[f64]) -> Mat {
        let w = self.lin(b);
        let h: Vec<f64> = w.iter().map(|&w| deta(self.c.fl, w) * dmu(self.c.fl, w)).collect();
        self.info_with(&self.xr, &h)
    }
    /// expected information including the ridge term
    pub fn info(&self, b: &[f64]) -> Mat {
        let mut m = self.info_data(b);
        for j in 0..self.k {
            m[j][j] += self.c.l2 * self.sig[j].powi(2);
        }
        m
    }
    /// to solver coordinates (centered, scaled columns)
    fn zrows(&self) -> Mat {
        self.xr
            .iter()
            .map(|r| (0..self.k).map(|j| if self.c.icpt && j == 0 { 1. } else { (r[j] - self.shift[j]) / self.zs(j) }).collect())
            .collect()
    }
    fn zs(&self, j: usize) -> f64 {
        if self.sig[j] > 0. { self.sig[j] } else { 1. }
    }
    pub fn to_z(&self, b: &[f64]) -> Vec<f64> {
        let mut z: Vec<f64> = (0..self.k).map(|j| b[j] * self.zs(j)).collect();
        if self.c.icpt {
            z[0] = b[0] + (1..self.k).map(|j| b[j] * self.shift[j]).sum::<f64>();
        }
        z
    }
    pub fn from_z(&self, z: &[f64]) -> Vec<f64> {
        let mut b: Vec<f64> = (0..self.k).map(|j| z[j] / self.zs(j)).collect();
        if self.c.icpt {
            b[0] = z[0] - (1..self.k).map(|j| b[j] * self.shift[j]).sum::<f64>();
        }
        b
    }
    /// smallest eigenvalue of the unit-diagonal information in the coordinates the fit is posed in
    pub fn min_eig(&self, b: &[f64]) -> f64 {
        if self.c.std {
            let w = self.lin(b);
            let h: Vec<f64> = w.iter().map(|&w| deta(self.c.fl, w) * dmu(self.c.fl, w)).collect();
            let mut m = self.info_with(&self.zrows(), &h);
            for j in 0..self.k {
                if self.sig[j] > 0. {
                    m[j][j] += self.c.l2;
                }
            }
            min_eig_scaled(&m)
        } else {
            min_eig_scaled(&self.info(b))
        }
    }
    /// Maximize the smooth objective  loglik - l2 part - sum_j lin_j |.|, with coordinates whose
    /// `fixed` entry is true held at zero and a linear term `t` (gradient -t). Newton in centered
    /// and scaled coordinates with backtracking. Returns (beta, newton decrement^2).
    fn newton(&self, b0: &[f64], zero: &[bool], t: &[f64]) -> Option<(Vec<f64>, f64)> {
        let zr = self.zrows();
        let mut z = self.to_z(b0);
        for j in 0..self.k {
            if zero[j] {
                z[j] = 0.;
            }
        }
        let act: Vec<usize> = (0..self.k).filter(|&j| !zero[j]).collect();
        let pen2: Vec<f64> = (0..self.k).map(|j| if self.sig[j] > 0. { self.c.l2 } else { 0. }).collect();
        let lin = |z: &[f64]| -> Vec<f64> { (0..self.n).map(|i| dot(&zr[i], z) + self.off[i]).collect() };
        let f = |z: &[f64]| -> f64 {
            let w = lin(z);
            let mut s = 0.;
            for i in 0..self.n {
                if self.wt[i] > 0. {
                    s += self.wt[i] * ll(self.c.fl, self.y[i], w[i]);
                }
            }
            for j in 0..self.k {
                s -= 0.5 * pen2[j] * z[j] * z[j] + t[j] * z[j];
            }
            s
        };
        let mut fx = f(&z);
        if !fx.is_finite() {
            return None;
        }
        let mut dec = f64::INFINITY;
        let mut stalls = 0;
        for _ in 0..400 {
            let w = lin(&z);
            let mut g = vec![0.; act.len()];
            for i in 0..self.n {
                if self.wt[i] > 0. {
                    let s = self.wt[i] * dll(self.c.fl, self.y[i], w[i]);
                    for (a, &j) in act.iter().enumerate() {
                        g[a] += s * zr[i][j];
                    }
                }
            }
            for (a, &j) in act.iter().enumerate() {
                g[a] -= pen2[j] * z[j] + t[j];
            }
            let mk = |obs: bool| -> Mat {
                let mut m = vec![vec![0.; act.len()]; act.len()];
                for i in 0..self.n {
                    if self.wt[i] > 0. {
                        let h = if obs { curv(self.c.fl, self.y[i], w[i]) } else { deta(self.c.fl, w[i]) * dmu(self.c.fl, w[i]) };
                        let s = self.wt[i] * h;
                        for (a, &ja) in act.iter().enumerate() {
                            for (b, &jb) in act.iter().enumerate() {
                                m[a][b] += s * zr[i][ja] * zr[i][jb];
                            }
                        }
                    }
                }
                for (a, &j) in act.iter().enumerate() {
                    m[a][a] += pen2[j];
                }
                m
            };
            let (dz, _) = match chol_solve(&mk(true), &g) {
                Some(d) => (d, true),
                None => (chol_solve(&mk(false), &g)?, false),
            };
            dec = dot(&dz, &g);
            if !(dec.is_finite()) {
                return None;
            }
            let mut step = 1.;
            let mut moved = false;
            while step > 1e-12 {
                let mut zn = z.clone();
                for (a, &j) in act.iter().enumerate() {
                    zn[j] += step * dz[a];
                }
                let fnew = f(&zn);
                if fnew.is_finite() && fnew >= fx + 1e-4 * step * dec * if dec < 1e-9 { 0. } else { 1. } {
                    let same = zn == z;
                    z = zn;
                    fx = fnew;
                    moved = !same;
                    break;
                }
                step *= 0.5;
            }
            if !moved {
                break;
            }
            if dec < 1e-26 * (1. + fx.abs()) {
                stalls += 1;
                if stalls > 1 {
                    break;
                }
            }
        }
        Some((self.from_z(&z), dec.abs()))
    }
    /// Starting points of the reference's own.
    pub fn starts(&self) -> Vec<Vec<f64>> {
        let sw: f64 = self.wt.iter().sum();
        let ybar = dot(&self.wt, &self.y) / sw;
        let mut v = vec![];
        if self.c.icpt {
            let mut b = vec![0.; self.k];
            b[0] = link(self.c.fl, ybar);
            match lk(self.c.fl) {
                Lk::NegRec | Lk::NegRecSq => b[0] -= self.off.iter().cloned().fold(0., f64::max),
                Lk::Rec | Lk::Sqrt => b[0] -= self.off.iter().cloned().fold(0., f64::min),
                _ => {}
            }
            if b[0].is_finite() {
                v.push(b);
            }
        }
        v.push(vec![0.; self.k]);
        v
    }
    /// Reference optimum started from `from`.
    pub fn solve_from(&self, from: &[f64]) -> Option<Opt> {
        if self.c.l1 == 0. {
            let (b, dec) = self.newton(from, &vec![false; self.k], &vec![0.; self.k])?;
            return self.mk_opt(b, dec);
        }
        // exhaustive over sign patterns of the penalized coefficients
        let pen: Vec<usize> = (0..self.k).filter(|&j| self.sig[j] > 0.).collect();
        let np = 3usize.pow(pen.len() as u32);
        let mut best: Option<Opt> = None;
        for code in 0..np {
            let mut zero = vec![false; self.k];
            let mut t = vec![0.; self.k];
            let mut sg = vec![0i32; self.k];
            let mut cde = code;
            for &j in &pen {
                match cde % 3 {
                    0 => zero[j] = true,
                    1 => {
                        t[j] = self.c.l1;
                        sg[j] = 1
                    }
                    _ => {
                        t[j] = -self.c.l1;
                        sg[j] = -1
                    }
                }
                cde /= 3;
            }
            let Some((b, dec)) = self.newton(from, &zero, &t) else { continue };
            if pen.iter().any(|&j| sg[j] != 0 && b[j] * sg[j] as f64 <= 0.) {
                continue;
            }
            if let Some(o) = self.mk_opt(b, dec) {
                if best.as_ref().is_none_or(|x| o.obj > x.obj) {
                    best = Some(o);
                }
            }
        }
        best
    }
    fn mk_opt(&self, b: Vec<f64>, dec: f64) -> Option<Opt> {
        let obj = self.obj(&b);
        if !obj.is_finite() || b.iter().any(|x| !x.is_finite()) {
            return None;
        }
        let wmax = self.lin(&b).iter().zip(&self.wt).filter(|(_, w)| **w > 0.).map(|(w, _)| w.abs()).fold(0., f64::max);
        // distance of natural-domain links from their boundary
        let me = self.min_eig(&b);
        Some(Opt { b, obj, dec, wmax, min_eig: me })
    }
    /// Reference optimum from the reference's own starting points.
    pub fn solve(&self) -> Option<Opt> {
        let mut best: Option<Opt> = None;
        for s in self.starts() {
            if let Some(o) = self.solve_from(&s) {
                if best.as_ref().is_none_or(|x| o.obj > x.obj) {
                    best = Some(o);
                }
            }
            if best.is_some() && concave(self.c.fl) {
                break;
            }
        }
        best
    }
    /// No finite optimum / no unique optimum / numerically delicate: not decided by value checks.
    pub fn well_posed(&self, o: &Opt) -> bool {
        let wlim = match lk(self.c.fl) {
            Lk::Logit => 15.,
            Lk::Cll => 2.7,
            Lk::Log => 15.,
            Lk::Cauchit => 30.,
            _ => 1e6,
        };
        // an optimum at (near) infinity shows up as saturated predictors or a vanishing information
        let lo = match lk(self.c.fl) {
            Lk::Cll => self.lin(&o.b).iter().all(|&w| w > -12.),
            _ => true,
        };
        self.k > 0 && o.dec <= 1e-14 * (1. + o.obj.abs()) && o.min_eig > 1e-5 && o.wmax < wlim && lo
    }
    pub fn sum_w(&self) -> f64 {
        self.wt.iter().sum()
    }
    pub fn n_obs(&self) -> f64 {
        self.f.iter().sum()
    }
    pub fn n_eff(&self) -> f64 {
        if self.has_w {
            let s2: f64 = (0..self.n).map(|i| self.f[i] * self.w[i] * self.w[i]).sum();
            self.sum_w().powi(2) / s2
        } else {
            self.n_obs()
        }
    }
    /// per-observation deviance terms (variance weights in, frequency weights out)
    pub fn dev_terms(&self, b: &[f64]) -> Vec<f64> {
        let w = self.lin(b);
        (0..self.n).map(|i| 2. * self.w[i] * (sat(self.c.fl, self.y[i]) - ll(self.c.fl, self.y[i], w[i]))).collect()
    }
    pub fn deviance(&self, b: &[f64]) -> f64 {
        dot(&self.dev_terms(b), &self.f)
    }
    pub fn phi(&self, b: &[f64]) -> f64 {
        if free_disp(self.c.fl) {
            self.deviance(b) / ((1. - self.k as f64 / self.n_eff()) * self.sum_w())
        } else {
            1.
        }
    }
    /// g' I^-1 g at b in the solver's coordinates: twice the gap to the optimum to leading order.
    /// Returns (decrement, smallest scaled eigenvalue of the information).
    pub fn decrement(&self, b: &[f64]) -> Option<(f64, f64)> {
        let zr = self.zrows();
        let w = self.lin(b);
        let z = self.to_z(b);
        let mut g = vec![0.; self.k];
        for i in 0..self.n {
            if self.wt[i] > 0. {
                let s = self.wt[i] * dll(self.c.fl, self.y[i], w[i]);
                for j in 0..self.k {
                    g[j] += s * zr[i][j];
                }
            }
        }
        let h: Vec<f64> = w.iter().map(|&w| deta(self.c.fl, w) * dmu(self.c.fl, w)).collect();
        let mut m = self.info_with(&zr, &h);
        for j in 0..self.k {
            if self.sig[j] > 0. {
                g[j] -= self.c.l2 * z[j];
                m[j][j] += self.c.l2;
            }
        }
        let d = chol_solve(&m, &g)?;
        Some((dot(&d, &g), min_eig_scaled(&m)))
    }
    /// The model without parameter j (same penalty scales for the others).
    pub fn without(&self, j: usize) -> Prob {
        let mut p = self.clone();
        p.k -= 1;
        for r in p.xr.iter_mut() {
            r.remove(j);
        }
        p.sig.remove(j);
        p.shift.remove(j);
        if self.c.icpt && j == 0 {
            p.c.icpt = false;
            p.shift.iter_mut().for_each(|s| *s = 0.);
        }
        p
    }
    /// The model with only the intercept (nothing without one), unpenalized.
    pub fn null(&self) -> Prob {
        let mut p = self.clone();
        p.c.l1 = 0.;
        p.c.l2 = 0.;
        let keep = if self.c.icpt { 1 } else { 0 };
        p.k = keep;
        for r in p.xr.iter_mut() {
            r.truncate(keep);
        }
        p.sig.truncate(keep);
        p.shift.truncate(keep);
        p
    }
}
#[derive(Clone, Debug)]
pub struct Opt {
    pub b: Vec<f64>,
    pub obj: f64,
    /// squared Newton decrement at the end
    pub dec: f64,
    pub wmax: f64,
    pub min_eig: f64,
}
impl Prob {
    /// Optimality conditions with an L1 term, in the coordinates the penalty is on. Per parameter:
    /// (coefficient, distance of 0 from the subdifferential, information of the coefficient); a
    /// coefficient within `zero` of 0 may have any data gradient up to l1.
    pub fn kkt(&self, b: &[f64], zero: f64) -> Vec<(f64, f64, f64)> {
        let zr = self.zrows();
        let w = self.lin(b);
        let z = self.to_z(b);
        let mut g = vec![0.; self.k];
        let mut h = vec![0.; self.k];
        for i in 0..self.n {
            if self.wt[i] > 0. {
                let s = self.wt[i] * dll(self.c.fl, self.y[i], w[i]);
                let v = self.wt[i] * deta(self.c.fl, w[i]) * dmu(self.c.fl, w[i]);
                for j in 0..self.k {
                    g[j] += s * zr[i][j];
                    h[j] += v * zr[i][j] * zr[i][j];
                }
            }
        }
        (0..self.k)
            .map(|j| {
                if self.sig[j] == 0. {
                    return (z[j], g[j].abs(), h[j]);
                }
                let d = g[j] - self.c.l2 * z[j];
                let v = if z[j].abs() <= zero { (d.abs() - self.c.l1).max(0.) } else { (d - self.c.l1 * z[j].signum()).abs() };
                (z[j], v, h[j] + self.c.l2)
            })
            .collect()
    }
}
