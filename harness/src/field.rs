use core::cmp::Ordering;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::{endian::EndianRepr, SerdeObject};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

type Slice = (*const u8, usize);

macro_rules! field_core {
    ($m:ident, $T:ty, $n:literal, $NL:literal, $SZ:literal) => {
        mod $m {
            use super::*;
            type F = $T;
            #[export_name = concat!($n, "_add")]
            pub unsafe extern "C" fn add(o: *mut [F; 6], a: *const F, b: *const F) {
                let (x, y) = (*a, *b);
                let mut t = x;
                t += y;
                let mut u = x;
                u += &y;
                *o = [&x + &y, x + y, &x + y, x + &y, t, u];
            }
            #[export_name = concat!($n, "_sub")]
            pub unsafe extern "C" fn sub(o: *mut [F; 6], a: *const F, b: *const F) {
                let (x, y) = (*a, *b);
                let mut t = x;
                t -= y;
                let mut u = x;
                u -= &y;
                *o = [&x - &y, x - y, &x - y, x - &y, t, u];
            }
            #[export_name = concat!($n, "_mul")]
            pub unsafe extern "C" fn mul(o: *mut [F; 6], a: *const F, b: *const F) {
                let (x, y) = (*a, *b);
                let mut t = x;
                t *= y;
                let mut u = x;
                u *= &y;
                *o = [&x * &y, x * y, &x * y, x * &y, t, u];
            }
            #[export_name = concat!($n, "_neg")]
            pub unsafe extern "C" fn neg(o: *mut [F; 2], a: *const F) {
                let x = *a;
                *o = [-x, -&x];
            }
            #[export_name = concat!($n, "_dbl")]
            pub unsafe extern "C" fn dbl(o: *mut [F; 2], a: *const F) {
                *o = [Field::double(&*a), (*a).double()];
            }
            #[export_name = concat!($n, "_sqr")]
            pub unsafe extern "C" fn sqr(o: *mut [F; 2], a: *const F) {
                *o = [Field::square(&*a), (*a).square()];
            }
            #[export_name = concat!($n, "_cube")]
            pub unsafe extern "C" fn cube(o: *mut F, a: *const F) {
                *o = Field::cube(&*a);
            }
            #[export_name = concat!($n, "_sum3")]
            pub unsafe extern "C" fn sum3(o: *mut F, a: *const [F; 3]) {
                *o = (*a).iter().sum();
            }
            #[export_name = concat!($n, "_prod3")]
            pub unsafe extern "C" fn prod3(o: *mut F, a: *const [F; 3]) {
                *o = (*a).iter().product();
            }
            #[export_name = concat!($n, "_consts")]
            pub unsafe extern "C" fn consts(o: *mut [F; 11]) {
                *o = [
                    F::ZERO,
                    F::ONE,
                    F::zero(),
                    F::one(),
                    <F as PrimeField>::TWO_INV,
                    <F as PrimeField>::MULTIPLICATIVE_GENERATOR,
                    <F as PrimeField>::ROOT_OF_UNITY,
                    <F as PrimeField>::ROOT_OF_UNITY_INV,
                    <F as PrimeField>::DELTA,
                    <F as WithSmallOrderMulGroup<3>>::ZETA,
                    F::default(),
                ];
            }
            #[export_name = concat!($n, "_nums")]
            pub unsafe extern "C" fn nums(o: *mut [u32; 3]) {
                *o = [<F as PrimeField>::S, <F as PrimeField>::NUM_BITS, <F as PrimeField>::CAPACITY];
            }
            #[export_name = concat!($n, "_modulus_str")]
            pub unsafe extern "C" fn modulus_str(o: *mut u8) -> usize {
                let s = <F as PrimeField>::MODULUS.as_bytes();
                core::ptr::copy_nonoverlapping(s.as_ptr(), o, s.len());
                s.len()
            }
            #[export_name = concat!($n, "_from_raw")]
            pub unsafe extern "C" fn from_raw(o: *mut F, a: *const [u64; $NL]) {
                *o = F::from_raw(*a);
            }
            #[export_name = concat!($n, "_from_u64")]
            pub unsafe extern "C" fn from_u64(o: *mut F, a: u64) {
                *o = F::from(a);
            }
            #[export_name = concat!($n, "_from_u128")]
            pub unsafe extern "C" fn from_u128(o: *mut F, lo: u64, hi: u64) {
                *o = F::from_u128((lo as u128) | ((hi as u128) << 64));
            }
            #[export_name = concat!($n, "_from_bool")]
            pub unsafe extern "C" fn from_bool(o: *mut F, a: u8) {
                *o = F::from(a != 0);
            }
            #[export_name = concat!($n, "_to_bytes")]
            pub unsafe extern "C" fn to_bytes(o: *mut [[u8; $SZ]; 4], a: *const F) {
                let x = *a;
                let r: [u8; $SZ] = <F as PrimeField>::to_repr(&x).into();
                let r2: halo2curves::serde::Repr<$SZ> = (&x).into();
                let v = <F as EndianRepr>::to_bytes(&x);
                *o = [F::to_bytes(&x), v.try_into().unwrap(), r, *r2.inner()];
            }
            #[export_name = concat!($n, "_from_bytes")]
            pub unsafe extern "C" fn from_bytes(o: *mut [F; 2], ok: *mut [u8; 2], a: *const [u8; $SZ]) {
                let r0 = F::from_bytes(&*a);
                let r1 = <F as EndianRepr>::from_bytes(&(*a)[..]);
                *ok = [r0.is_some().unwrap_u8(), r1.is_some().unwrap_u8()];
                if bool::from(r0.is_some()) {
                    (*o)[0] = r0.unwrap();
                }
                if bool::from(r1.is_some()) {
                    (*o)[1] = r1.unwrap();
                }
            }
            #[export_name = concat!($n, "_from_repr")]
            pub unsafe extern "C" fn from_repr(o: *mut [F; 2], ok: *mut [u8; 2], a: *const [u8; $SZ]) {
                let r1 = <F as PrimeField>::from_repr((*a).into());
                let r2 = <F as PrimeField>::from_repr_vartime((*a).into());
                *ok = [r1.is_some().unwrap_u8(), r2.is_some() as u8];
                if bool::from(r1.is_some()) {
                    (*o)[0] = r1.unwrap();
                }
                if let Some(x) = r2 {
                    (*o)[1] = x;
                }
            }
            #[export_name = concat!($n, "_from_raw_bytes")]
            pub unsafe extern "C" fn from_raw_bytes(o: *mut [F; 2], ok: *mut [u8; 2], a: *const u8, len: usize) {
                let s = core::slice::from_raw_parts(a, len);
                let r0 = F::from_raw_bytes(s);
                let mut rd = s;
                let r1 = F::read_raw(&mut rd).ok();
                *ok = [r0.is_some() as u8, r1.is_some() as u8];
                if let Some(x) = r0 {
                    (*o)[0] = x;
                }
                if let Some(x) = r1 {
                    (*o)[1] = x;
                }
            }
            #[export_name = concat!($n, "_from_raw_bytes_unchecked")]
            pub unsafe extern "C" fn from_raw_bytes_unchecked(o: *mut [F; 2], a: *const [u8; $SZ]) {
                let mut rd = &(*a)[..];
                *o = [F::from_raw_bytes_unchecked(&*a), F::read_raw_unchecked(&mut rd)];
            }
            #[export_name = concat!($n, "_to_raw_bytes")]
            pub unsafe extern "C" fn to_raw_bytes(o: *mut [[u8; $SZ]; 2], len: *mut [usize; 2], a: *const F) {
                let v = (*a).to_raw_bytes();
                let mut w = Vec::new();
                (*a).write_raw(&mut w).unwrap();
                *len = [v.len(), w.len()];
                (*o)[0].copy_from_slice(&v);
                (*o)[1].copy_from_slice(&w);
            }
            #[export_name = concat!($n, "_is_zero")]
            pub unsafe extern "C" fn is_zero(a: *const F, b: *mut [u8; 2]) {
                *b = [Field::is_zero(&*a).unwrap_u8(), Field::is_zero_vartime(&*a) as u8];
            }
            #[export_name = concat!($n, "_eq")]
            pub unsafe extern "C" fn eq(o: *mut [u8; 3], a: *const F, b: *const F) {
                *o = [(*a).ct_eq(&*b).unwrap_u8(), (*a == *b) as u8, (*a != *b) as u8];
            }
            #[export_name = concat!($n, "_select")]
            pub unsafe extern "C" fn select(o: *mut F, a: *const F, b: *const F, c: u8) {
                *o = F::conditional_select(&*a, &*b, Choice::from(c & 1));
            }
            #[export_name = concat!($n, "_cmp")]
            pub unsafe extern "C" fn cmp(o: *mut [u8; 3], a: *const F, b: *const F) {
                let c = |o: Ordering| match o {
                    Ordering::Less => 0u8,
                    Ordering::Equal => 1,
                    Ordering::Greater => 2,
                };
                *o = [c((*a).cmp(&*b)), (*a).partial_cmp(&*b).map(c).unwrap_or(3), (*a < *b) as u8];
            }
            #[export_name = concat!($n, "_parity")]
            pub unsafe extern "C" fn parity(o: *mut [u8; 2], a: *const F) {
                *o = [(*a).is_odd().unwrap_u8(), (*a).is_even().unwrap_u8()];
            }
            #[export_name = concat!($n, "_lexi")]
            pub unsafe extern "C" fn lexi(a: *const F) -> u8 {
                (*a).lexicographically_largest().unwrap_u8()
            }
            #[export_name = concat!($n, "_le_bits")]
            pub unsafe extern "C" fn le_bits(o: *mut [[u64; $NL]; 2], a: *const F) {
                *o = [(*a).to_le_bits().into_inner(), F::char_le_bits().into_inner()];
            }
            #[export_name = concat!($n, "_invert")]
            pub unsafe extern "C" fn invert(o: *mut F, a: *const F) -> u8 {
                let r = Field::invert(&*a);
                *o = r.unwrap_or(F::ZERO);
                r.is_some().unwrap_u8()
            }
            #[export_name = concat!($n, "_sqrt")]
            pub unsafe extern "C" fn sqrt(o: *mut F, a: *const F) -> u8 {
                let r = Field::sqrt(&*a);
                *o = r.unwrap_or(F::ZERO);
                r.is_some().unwrap_u8()
            }
            #[export_name = concat!($n, "_sqrt_ratio")]
            pub unsafe extern "C" fn sqrt_ratio(o: *mut F, a: *const F, b: *const F) -> u8 {
                let r = F::sqrt_ratio(&*a, &*b);
                *o = r.1;
                r.0.unwrap_u8()
            }
            #[export_name = concat!($n, "_legendre")]
            pub unsafe extern "C" fn legendre(a: *const F) -> i64 {
                Legendre::legendre(&*a)
            }
            #[export_name = concat!($n, "_qr")]
            pub unsafe extern "C" fn qr(o: *mut [u8; 2], a: *const F) {
                *o = [
                    Legendre::ct_quadratic_residue(&*a).unwrap_u8(),
                    Legendre::ct_quadratic_non_residue(&*a).unwrap_u8(),
                ];
            }
            #[export_name = concat!($n, "_pow")]
            pub unsafe extern "C" fn pow(o: *mut [F; 2], a: *const F, e: *const u64, n: usize) {
                let s = core::slice::from_raw_parts(e, n);
                *o = [Field::pow(&*a, s), Field::pow_vartime(&*a, s)];
            }
            #[export_name = concat!($n, "_random")]
            pub unsafe extern "C" fn random(o: *mut F, b: *const u8, len: usize) {
                *o = F::random(super::Src { p: b, n: len });
            }
        }
    };
}

/// byte source standing for the caller's RNG
pub struct Src {
    p: *const u8,
    n: usize,
}
impl rand_core::RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        assert!(d.len() <= self.n);
        unsafe {
            core::ptr::copy_nonoverlapping(self.p, d.as_mut_ptr(), d.len());
            self.p = self.p.add(d.len());
        }
        self.n -= d.len();
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

macro_rules! uniform {
    ($T:ty, $n:literal, $f:ident, $L:literal) => {
        #[export_name = concat!($n, "_uniform_", $L)]
        pub unsafe extern "C" fn $f(o: *mut $T, a: *const [u8; $L]) {
            *o = <$T as FromUniformBytes<$L>>::from_uniform_bytes(&*a);
        }
    };
}

field_core!(bn256_fq, halo2curves::bn256::Fq, "bn256_fq", 4, 32);
field_core!(bn256_fr, halo2curves::bn256::Fr, "bn256_fr", 4, 32);
field_core!(bls_fq, halo2curves::bls12381::Fq, "bls_fq", 6, 48);
field_core!(bls_fr, halo2curves::bls12381::Fr, "bls_fr", 4, 32);
field_core!(k1_fp, halo2curves::secp256k1::Fp, "k1_fp", 4, 32);
field_core!(k1_fq, halo2curves::secp256k1::Fq, "k1_fq", 4, 32);
field_core!(r1_fp, halo2curves::secp256r1::Fp, "r1_fp", 4, 32);
field_core!(r1_fq, halo2curves::secp256r1::Fq, "r1_fq", 4, 32);
field_core!(pe_fp, halo2curves::pluto_eris::Fp, "pe_fp", 7, 56);
field_core!(pe_fq, halo2curves::pluto_eris::Fq, "pe_fq", 7, 56);

uniform!(halo2curves::bn256::Fq, "bn256_fq", u0, 64);
uniform!(halo2curves::bn256::Fq, "bn256_fq", u1, 48);
uniform!(halo2curves::bn256::Fr, "bn256_fr", u2, 64);
uniform!(halo2curves::bn256::Fr, "bn256_fr", u3, 48);
uniform!(halo2curves::bls12381::Fq, "bls_fq", u4, 64);
uniform!(halo2curves::bls12381::Fq, "bls_fq", u5, 96);
uniform!(halo2curves::bls12381::Fr, "bls_fr", u6, 64);
uniform!(halo2curves::secp256k1::Fp, "k1_fp", u7, 48);
uniform!(halo2curves::secp256k1::Fp, "k1_fp", u8, 64);
uniform!(halo2curves::secp256k1::Fq, "k1_fq", u9, 48);
uniform!(halo2curves::secp256k1::Fq, "k1_fq", u10, 64);
uniform!(halo2curves::secp256r1::Fp, "r1_fp", u11, 48);
uniform!(halo2curves::secp256r1::Fp, "r1_fp", u12, 64);
uniform!(halo2curves::secp256r1::Fq, "r1_fq", u13, 48);
uniform!(halo2curves::secp256r1::Fq, "r1_fq", u14, 64);
uniform!(halo2curves::pluto_eris::Fp, "pe_fp", u15, 64);
uniform!(halo2curves::pluto_eris::Fp, "pe_fp", u16, 72);
uniform!(halo2curves::pluto_eris::Fp, "pe_fp", u17, 112);
uniform!(halo2curves::pluto_eris::Fq, "pe_fq", u18, 64);
uniform!(halo2curves::pluto_eris::Fq, "pe_fq", u19, 72);
uniform!(halo2curves::pluto_eris::Fq, "pe_fq", u20, 112);
