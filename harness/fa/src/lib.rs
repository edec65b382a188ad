//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_lin, Linear, f64, float, lin);
sut::sut!(mk_logit, Logistic, f64, logi, none);
sut::sut!(mk_cll, Logistic<logistic_link::Cloglog>, f64, logi, none);
sut::sut!(mk_pois, Poisson, f64, pois, none);
