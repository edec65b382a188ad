//! Instances of the adapter (split over crates so that they compile in parallel).
sut::prelude!();
sut::sut!(mk_expn32, Exponential, f32, float, quant);
sut::sut!(mk_gamn32, Gamma, f32, float, quant);
sut::sut!(mk_gaml32, Gamma<gamma_link::Log>, f32, float, quant);
sut::sut!(mk_ign32, InvGaussian, f32, float, none);
sut::sut!(mk_igl32, InvGaussian<inv_gauss_link::Log>, f32, float, none);
