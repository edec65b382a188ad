//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_cgaml, Gamma<MyLog>, f64, float, quant);
sut::sut!(mk_cigl, InvGaussian<MyLogIg>, f64, float, none);
sut::sut!(mk_psqrt, Poisson<Sqrt>, f64, pois, none);
sut::sut!(mk_llog, Linear<LinLog>, f64, float, quant);
sut::sut!(mk_grec, Gamma<Recip>, f64, float, quant);
sut::sut!(mk_cauchit, Logistic<Cauchit>, f64, logi, none);
