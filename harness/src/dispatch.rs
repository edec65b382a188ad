use sut::*;
pub fn build(b: &Build) -> Result<Box<dyn ModelApi>, Ferr> {
    use Fl::*;
    match (b.fp, b.fl) {
        (Fp::F64, Lin) => fa::mk_lin(b),
        (Fp::F64, Logit) => fa::mk_logit(b),
        (Fp::F64, Cloglog) => fa::mk_cll(b),
        (Fp::F64, Pois) => fa::mk_pois(b),
        (Fp::F64, Bin1) => fb::mk_bin1(b),
        (Fp::F64, Bin3) => fb::mk_bin3(b),
        (Fp::F64, Bin12) => fb::mk_bin12(b),
        (Fp::F64, ExpN) => fb::mk_expn(b),
        (Fp::F64, ExpL) => fb::mk_expl(b),
        (Fp::F64, GamN) => fc::mk_gamn(b),
        (Fp::F64, GamL) => fc::mk_gaml(b),
        (Fp::F64, IgN) => fc::mk_ign(b),
        (Fp::F64, IgL) => fc::mk_igl(b),
        (Fp::F64, CLin) => ff::mk_clin(b),
        (Fp::F64, CLin2) => ff::mk_clin2(b),
        (Fp::F64, CLogit) => ff::mk_clogit(b),
        (Fp::F64, CCloglog) => ff::mk_ccll(b),
        (Fp::F64, CPois) => ff::mk_cpois(b),
        (Fp::F64, CExpL) => ff::mk_cexpl(b),
        (Fp::F64, CGamL) => fg::mk_cgaml(b),
        (Fp::F64, CIgL) => fg::mk_cigl(b),
        (Fp::F64, PSqrt) => fg::mk_psqrt(b),
        (Fp::F64, LLog) => fg::mk_llog(b),
        (Fp::F64, GRec) => fg::mk_grec(b),
        (Fp::F64, Fl::Cauchit) => fg::mk_cauchit(b),
        (Fp::F32, Lin) => fd::mk_lin32(b),
        (Fp::F32, Logit) => fd::mk_logit32(b),
        (Fp::F32, Cloglog) => fd::mk_cll32(b),
        (Fp::F32, Pois) => fd::mk_pois32(b),
        (Fp::F32, Bin3) => fd::mk_bin3_32(b),
        (Fp::F32, ExpN) => fe::mk_expn32(b),
        (Fp::F32, ExpL) => fd::mk_expl32(b),
        (Fp::F32, GamN) => fe::mk_gamn32(b),
        (Fp::F32, GamL) => fe::mk_gaml32(b),
        (Fp::F32, IgN) => fe::mk_ign32(b),
        (Fp::F32, IgL) => fe::mk_igl32(b),
        (fp, fl) => panic!("harness: no {fl:?} with {fp:?}"),
    }
}
