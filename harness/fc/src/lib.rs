//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_gamn, Gamma, f64, float, quant);
sut::sut!(mk_gaml, Gamma<gamma_link::Log>, f64, float, quant);
sut::sut!(mk_ign, InvGaussian, f64, float, none);
sut::sut!(mk_igl, InvGaussian<inv_gauss_link::Log>, f64, float, none);
