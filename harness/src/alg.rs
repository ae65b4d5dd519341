//! FFT and MSM entry points.
use halo2curves::fft::best_fft;

macro_rules! fft {
    ($n:literal, $m:ident, $F:ty) => {
        pub mod $m {
            use super::*;
            type F = $F;
            #[export_name = concat!($n, "_fft")]
            pub unsafe extern "C" fn fft(o: *mut F, a: *const F, w: *const F, n: usize, log_n: u32, threads: usize) {
                let _ = threads;
                for i in 0..n {
                    *o.add(i) = *a.add(i);
                }
                best_fft(core::slice::from_raw_parts_mut(o, n), *w, log_n);
            }
            #[export_name = concat!($n, "_fft_n")]
            pub unsafe extern "C" fn fft_n(o: *mut F, a: *const F, w: *const F, n: usize, log_n: u32, threads: usize) {
                for i in 0..n {
                    *o.add(i) = *a.add(i);
                }
                let (s, w) = (core::slice::from_raw_parts_mut(o, n), *w);
                rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap().install(|| best_fft(s, w, log_n));
            }
        }
    };
}
fft!("bn256_fr", a, halo2curves::bn256::Fr);
fft!("bls_fr", b, halo2curves::bls12381::Fr);
fft!("pe_fq", c, halo2curves::pluto_eris::Fq);
