//! Endomorphism scalar decomposition.  o: |k1| (2 words), sign of k1, |k2| (2 words), sign of k2.
use halo2curves::verif_hooks::CurveEndo;
use halo2curves::{group::Group, CurveExt};

macro_rules! endo {
    ($G:ty, $S:ty, $n:literal) => {
        const _: () = {
            #[export_name = concat!($n, "_decomp")]
            pub unsafe extern "C" fn f(o: *mut u64, k: *const $S) {
                let (k1, n1, k2, n2) = <$G as CurveEndo>::decompose_scalar(&*k);
                *o = k1 as u64;
                *o.add(1) = (k1 >> 64) as u64;
                *o.add(2) = n1 as u64;
                *o.add(3) = k2 as u64;
                *o.add(4) = (k2 >> 64) as u64;
                *o.add(5) = n2 as u64;
            }
            /// is this scalar the eigenvalue of the endomorphism on the prime-order subgroup?
            #[export_name = concat!($n, "_eigen")]
            pub unsafe extern "C" fn e(k: *const $S) -> u8 {
                let g = <$G as Group>::generator();
                (g * *k == CurveExt::endo(&g)) as u8
            }
        };
    };
}
endo!(halo2curves::bn256::G1, halo2curves::bn256::Fr, "bn_g1");
endo!(halo2curves::grumpkin::G1, halo2curves::grumpkin::Fr, "gr_g1");
endo!(halo2curves::bls12381::G1, halo2curves::bls12381::Fr, "bls_g1");
endo!(halo2curves::bls12381::G2, halo2curves::bls12381::Fr, "bls_g2");
endo!(halo2curves::pasta::Ep, halo2curves::pasta::Fq, "ep");
endo!(halo2curves::pasta::Eq, halo2curves::pasta::Fp, "eq");
