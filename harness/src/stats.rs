//! Every documented statistic, from its definition, at given coefficients in external coordinates.
use crate::refm::*;
use crate::space::bounded;

pub struct Stats {
    pub om: Vec<f64>,
    pub mu: Vec<f64>,
    pub v: Vec<f64>,
    pub de: Vec<f64>,
    pub dm: Vec<f64>,
    pub resp: Vec<f64>,
    pub work: Vec<f64>,
    pub pear: Vec<f64>,
    /// deviance terms and the magnitude of what is subtracted to get them
    pub dt: Vec<f64>,
    pub dt_scale: Vec<f64>,
    pub dev: f64,
    pub dev_scale: f64,
    pub phi: f64,
    pub info: Mat,
    pub info_data: Mat,
    pub inv: Option<Mat>,
    /// how much rounding of the mean is amplified in the variance
    pub vamp: Vec<f64>,
    pub vmax: f64,
    pub hat: Mat,
    pub lev: Vec<f64>,
}
impl Stats {
    pub fn new(p: &Prob, b: &[f64]) -> Stats {
        let fl = p.c.fl;
        let om = p.lin(b);
        let mu_: Vec<f64> = om.iter().map(|&w| mu(fl, w)).collect();
        let v: Vec<f64> = om.iter().map(|&w| var(fl, w)).collect();
        let de: Vec<f64> = om.iter().map(|&w| deta(fl, w)).collect();
        let dm: Vec<f64> = om.iter().map(|&w| dmu(fl, w)).collect();
        let resp: Vec<f64> = (0..p.n).map(|i| p.y[i] - mu_[i]).collect();
        let work = (0..p.n).map(|i| resp[i] / dm[i]).collect();
        let pear = (0..p.n).map(|i| resp[i] * (p.w[i] / v[i]).sqrt()).collect();
        let dt = p.dev_terms(b).iter().map(|d| d.max(0.)).collect::<Vec<_>>();
        let dt_scale: Vec<f64> = (0..p.n)
            .map(|i| {
                let (y, w) = (p.y[i], om[i]);
                let eta_y = if y == 0. { 0. } else { (y * w).abs() };
                2. * p.w[i] * (sat(fl, y).abs() + ll(fl, y, w).abs() + eta_y + mu_[i].abs() + y.abs())
            })
            .collect();
        let dev = dot(&dt, &p.f);
        let dev_scale = dot(&dt_scale, &p.f);
        let phi = if free_disp(fl) {
            let k = p.k as f64;
            if k >= p.n_eff() { f64::INFINITY } else { dev / ((1. - k / p.n_eff()) * p.sum_w()) }
        } else {
            1.
        };
        let info = p.info(b);
        let info_data = p.info_data(b);
        let iv = inv(&info);
        let bmag = p.bmag(b);
        let vamp: Vec<f64> = mu_
            .iter()
            .zip(&om)
            .map(|(&m, &w)| match fam(fl) {
                Fam::Logistic => 1. + 1. / (1. - m),
                Fam::Bin(n) => 1. + n as f64 / (n as f64 - m),
                _ => if bounded(fl) { 1. + bmag / w.abs() } else { 1. },
            })
            .collect();
        let vmax = (0..p.n).filter(|&i| p.wt[i] > 0.).map(|i| vamp[i]).fold(1., f64::max);
        let mut hat = vec![];
        let mut lev = vec![];
        if let Some(iv) = &iv {
            for i in 0..p.n {
                let xi = matvec(iv, &p.xr[i]);
                let row: Vec<f64> =
                    (0..p.n).map(|j| v[i] * de[i] * dot(&xi, &p.xr[j]) * p.wt[j] * de[j]).collect();
                lev.push(row[i]);
                hat.push(row);
            }
        }
        Stats { om, mu: mu_, v, de, dm, resp, work, pear, dt, dt_scale, dev, dev_scale, phi, info, info_data, inv: iv, vamp, vmax, hat, lev }
    }
    pub fn cov(&self) -> Mat {
        let iv = self.inv.as_ref().unwrap();
        let mut m = matmul(&matmul(iv, &self.info_data), iv);
        m.iter_mut().for_each(|r| r.iter_mut().for_each(|x| *x *= self.phi));
        m
    }
    pub fn cooks(&self, p: &Prob) -> Vec<f64> {
        (0..p.n)
            .map(|i| {
                let h = self.lev[i];
                self.pear[i].powi(2) * h / (p.k as f64 * self.phi * (1. - h).powi(2))
            })
            .collect()
    }
    /// one-step coefficient changes
    pub fn infl(&self, p: &Prob) -> Mat {
        let iv = self.inv.as_ref().unwrap();
        (0..p.n)
            .map(|i| {
                let s = p.wt[i] * self.de[i] * self.resp[i] / (1. - self.lev[i]);
                matvec(iv, &p.xr[i]).iter().map(|x| x * s).collect()
            })
            .collect()
    }
    /// one-step leave-out deviance and leave-out dispersion, whose ratio is the squared studentized
    /// residual
    pub fn student(&self, p: &Prob) -> Vec<(f64, f64)> {
        let k = p.k as f64;
        (0..p.n)
            .map(|i| {
                let r = self.lev[i] / (1. - self.lev[i]);
                let p2 = self.pear[i].powi(2);
                let d = self.dt[i] + r * (r + 2.) * p2;
                if !free_disp(p.c.fl) {
                    return (d, 1.);
                }
                let left = self.dev - p.f[i] * (self.dt[i] + r * p2);
                let s1 = p.sum_w() - p.wt[i];
                // without variance weights this is the number of remaining rows minus K
                let s2: f64 = if p.has_w {
                    (0..p.n).map(|j| p.f[j] * p.w[j] * p.w[j]).sum::<f64>() - p.f[i] * p.w[i] * p.w[i]
                } else {
                    s1
                };
                (d, left / (s1 - k * s2 / s1))
            })
            .collect()
    }
    /// Quantile residuals with the magnitude of their rounding (infinite where not computable).
    /// None for families without.
    pub fn quantile(&self, p: &Prob) -> Option<Vec<(f64, f64)>> {
        use crate::cdf::*;
        if !matches!(fam(p.c.fl), Fam::Lin | Fam::Exp | Fam::Gam) {
            return None;
        }
        Some(
            (0..p.n)
                .map(|i| {
                    let phi = self.phi / p.w[i];
                    if !phi.is_finite() || !(phi > 1e-8) {
                        return (f64::NAN, f64::INFINITY);
                    }
                    let (lo, hi) = match fam(p.c.fl) {
                        Fam::Lin => {
                            let z = self.resp[i] / phi.sqrt();
                            (norm_cdf(z), norm_sf(z))
                        }
                        Fam::Exp => {
                            let r = p.y[i] / self.mu[i];
                            (-(-r).exp_m1(), (-r).exp())
                        }
                        _ => gamma_pq(1. / phi, p.y[i] / self.mu[i] / phi),
                    };
                    let z = if fam(p.c.fl) == Fam::Lin {
                        self.resp[i] / phi.sqrt()
                    } else if lo < hi {
                        norm_inv(lo)
                    } else {
                        -norm_inv(hi)
                    };
                    if !z.is_finite() {
                        return (z, f64::INFINITY);
                    }
                    // the library goes through the distribution function: its rounding, magnified
                    // by the density
                    let dens = (-0.5 * z * z).exp() * 0.4;
                    (z, if z.abs() > 5. { f64::INFINITY } else { 1. + 1e-5 / dens })
                })
                .collect(),
        )
    }
    pub fn resid_part(&self, p: &Prob, d: &Data, b: &[f64]) -> Vec<f64> {
        let o = p.c.icpt as usize;
        let mut out = vec![];
        for i in 0..p.n {
            for j in 0..d.p {
                let m = if p.c.icpt {
                    (0..p.n).map(|r| p.wt[r] * d.x[r][j]).sum::<f64>() / p.sum_w()
                } else {
                    0.
                };
                out.push(self.work[i] + (d.x[i][j] - m) * b[j + o]);
            }
        }
        out
    }
}
/// Coefficients and likelihood of the null model, or None if it has no finite optimum.
pub fn null_model(p: &Prob) -> Option<(Vec<f64>, f64)> {
    let q = p.null();
    let mut b = vec![0.; p.k];
    if p.c.icpt {
        let o = q.solve()?;
        if !q.well_posed(&o) {
            return None;
        }
        b[0] = o.b[0];
        Some((b, o.obj))
    } else {
        let l = q.loglik(&[]);
        if l.is_finite() { Some((b, l)) } else { None }
    }
}
