//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_lin32, Linear, f32, float, lin);
sut::sut!(mk_logit32, Logistic, f32, logi, none);
sut::sut!(mk_cll32, Logistic<logistic_link::Cloglog>, f32, logi, none);
sut::sut!(mk_pois32, Poisson, f32, pois, none);
sut::sut!(mk_bin3_32, Binomial<3>, f32, bin, none);
sut::sut!(mk_expl32, Exponential<exp_link::Log>, f32, float, quant);
