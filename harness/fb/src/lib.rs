//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_bin1, Binomial<1>, f64, bin, none);
sut::sut!(mk_bin3, Binomial<3>, f64, bin, none);
sut::sut!(mk_bin12, Binomial<12>, f64, bin, none);
sut::sut!(mk_expn, Exponential, f64, float, quant);
sut::sut!(mk_expl, Exponential<exp_link::Log>, f64, float, quant);
