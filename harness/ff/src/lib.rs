//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_clin, Linear<MyId>, f64, float, quant);
sut::sut!(mk_clin2, Linear<MyId2>, f64, float, quant);
sut::sut!(mk_clogit, Logistic<MyLogit>, f64, logi, none);
sut::sut!(mk_ccll, Logistic<MyCloglog>, f64, logi, none);
sut::sut!(mk_cpois, Poisson<MyPLog>, f64, pois, none);
sut::sut!(mk_cexpl, Exponential<MyLog>, f64, float, quant);
