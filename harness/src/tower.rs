use super::flat::*;
use core::cmp::Ordering;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::{endian::EndianRepr, SerdeObject};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use halo2curves::ff_ext::cubic::{CubicExtField, CubicExtFieldArith, CubicSparseMul};
use halo2curves::ff_ext::quadratic::{QuadExtField, QuadExtFieldArith, QuadSparseMul};
use halo2curves::ff_ext::ExtField;

macro_rules! tower_core {
    ($m:ident, $T:ty, $n:literal) => {
        mod $m {
            use super::*;
            type F = $T;
            type B = <F as Flat>::B;
            #[export_name = concat!($n, "_add")]
            pub unsafe extern "C" fn add(o: *mut B, a: *const B, b: *const B) {
                let (x, y) = (F::get(a), F::get(b));
                let mut t = x;
                t += y;
                let mut u = x;
                u += &y;
                puts(o, &[&x + &y, x + y, &x + y, x + &y, t, u, x.add(&y)]);
            }
            #[export_name = concat!($n, "_sub")]
            pub unsafe extern "C" fn sub(o: *mut B, a: *const B, b: *const B) {
                let (x, y) = (F::get(a), F::get(b));
                let mut t = x;
                t -= y;
                let mut u = x;
                u -= &y;
                puts(o, &[&x - &y, x - y, &x - y, x - &y, t, u, x.sub(&y)]);
            }
            #[export_name = concat!($n, "_mul")]
            pub unsafe extern "C" fn mul(o: *mut B, a: *const B, b: *const B) {
                let (x, y) = (F::get(a), F::get(b));
                let mut t = x;
                t *= y;
                let mut u = x;
                u *= &y;
                let mut v = x;
                v.mul_assign(&y);
                puts(o, &[&x * &y, x * y, &x * y, x * &y, t, u, x.mul(&y), v]);
            }
            #[export_name = concat!($n, "_neg")]
            pub unsafe extern "C" fn neg(o: *mut B, a: *const B) {
                let x = F::get(a);
                puts(o, &[-x, -&x, x.neg()]);
            }
            #[export_name = concat!($n, "_dbl")]
            pub unsafe extern "C" fn dbl(o: *mut B, a: *const B) {
                let x = F::get(a);
                puts(o, &[Field::double(&x), x.double()]);
            }
            #[export_name = concat!($n, "_sqr")]
            pub unsafe extern "C" fn sqr(o: *mut B, a: *const B) {
                let x = F::get(a);
                let mut t = x;
                t.square_assign();
                puts(o, &[Field::square(&x), F::square(&x), t]);
            }
            #[export_name = concat!($n, "_cube")]
            pub unsafe extern "C" fn cube(o: *mut B, a: *const B) {
                puts(o, &[Field::cube(&F::get(a))]);
            }
            #[export_name = concat!($n, "_sum3")]
            pub unsafe extern "C" fn sum3(o: *mut B, a: *const B, b: *const B, c: *const B) {
                let v = [F::get(a), F::get(b), F::get(c)];
                puts(o, &[v.iter().sum::<F>()]);
            }
            #[export_name = concat!($n, "_prod3")]
            pub unsafe extern "C" fn prod3(o: *mut B, a: *const B, b: *const B, c: *const B) {
                let v = [F::get(a), F::get(b), F::get(c)];
                puts(o, &[v.iter().product::<F>()]);
            }
            #[export_name = concat!($n, "_consts")]
            pub unsafe extern "C" fn consts(o: *mut B) {
                puts(o, &[F::zero(), F::one(), F::ZERO, F::ONE, F::default()]);
            }
            #[export_name = concat!($n, "_nonres")]
            pub unsafe extern "C" fn nonres(o: *mut B, a: *const B) {
                puts(o, &[F::get(a).mul_by_nonresidue()]);
            }
            #[export_name = concat!($n, "_invert")]
            pub unsafe extern "C" fn invert(o: *mut B, a: *const B) -> u8 {
                let r = F::get(a).invert();
                let ok = bool::from(r.is_some());
                if ok {
                    puts(o, &[r.unwrap()]);
                }
                ok as u8
            }
            #[export_name = concat!($n, "_is_zero")]
            pub unsafe extern "C" fn is_zero(a: *const B) -> u8 {
                let x = F::get(a);
                x.is_zero().unwrap_u8() | (x.is_zero_vartime() as u8) << 1
            }
            #[export_name = concat!($n, "_eq")]
            pub unsafe extern "C" fn eq(a: *const B, b: *const B) -> u8 {
                let (x, y) = (F::get(a), F::get(b));
                x.ct_eq(&y).unwrap_u8() | ((x == y) as u8) << 1 | ((x != y) as u8) << 2
            }
            #[export_name = concat!($n, "_select")]
            pub unsafe extern "C" fn select(o: *mut B, a: *const B, b: *const B, c: u8) {
                puts(o, &[F::conditional_select(&F::get(a), &F::get(b), Choice::from(c))]);
            }
            #[export_name = concat!($n, "_frob")]
            pub unsafe extern "C" fn frob(o: *mut B, a: *const B, k: usize) {
                let mut x = F::get(a);
                x.frobenius_map(k);
                puts(o, &[x]);
            }
        }
    };
}
macro_rules! tower_quad {
    ($m:ident, $T:ty, $n:literal) => {
        mod $m {
            use super::*;
            type F = $T;
            type B = <F as Flat>::B;
            #[export_name = concat!($n, "_conj")]
            pub unsafe extern "C" fn conj(o: *mut B, a: *const B) {
                let mut x = F::get(a);
                x.conjugate();
                puts(o, &[x]);
            }
            #[export_name = concat!($n, "_norm")]
            pub unsafe extern "C" fn norm(o: *mut B, a: *const B) {
                F::get(a).norm().put(o);
            }
        }
    };
}
macro_rules! tower_12 {
    ($m:ident, $F2:ty, $F6:ty, $F12:ty, $n6:literal, $n12:literal) => {
        mod $m {
            use super::*;
            type B = <$F12 as Flat>::B;
            #[export_name = concat!($n6, "_mul_by_1")]
            pub unsafe extern "C" fn mul_by_1(o: *mut B, a: *const B, b: *const B) {
                puts(o, &[<$F6 as CubicSparseMul>::mul_by_1(&<$F6>::get(a), &<$F2>::get(b))]);
            }
            #[export_name = concat!($n6, "_mul_by_01")]
            pub unsafe extern "C" fn mul_by_01(o: *mut B, a: *const B, b: *const B, c: *const B) {
                puts(o, &[<$F6 as CubicSparseMul>::mul_by_01(&<$F6>::get(a), &<$F2>::get(b), &<$F2>::get(c))]);
            }
            #[export_name = concat!($n12, "_mul_by_014")]
            pub unsafe extern "C" fn mul_by_014(o: *mut B, a: *const B, b: *const B, c: *const B, d: *const B) {
                let mut x = <$F12>::get(a);
                <$F12 as QuadSparseMul>::mul_by_014(&mut x, &<$F2>::get(b), &<$F2>::get(c), &<$F2>::get(d));
                puts(o, &[x]);
            }
            #[export_name = concat!($n12, "_mul_by_034")]
            pub unsafe extern "C" fn mul_by_034(o: *mut B, a: *const B, b: *const B, c: *const B, d: *const B) {
                let mut x = <$F12>::get(a);
                <$F12 as QuadSparseMul>::mul_by_034(&mut x, &<$F2>::get(b), &<$F2>::get(c), &<$F2>::get(d));
                puts(o, &[x]);
            }
            #[export_name = concat!($n12, "_cyclo")]
            pub unsafe extern "C" fn cyclo(o: *mut B, a: *const B) {
                let mut x = <$F12>::get(a);
                x.cyclotomic_square();
                puts(o, &[x]);
            }
        }
    };
}
macro_rules! tower_2 {
    ($m:ident, $F2:ty, $n:literal, $SZ:literal, $U:literal) => {
        mod $m {
            use super::*;
            type F = $F2;
            type B = <F as Flat>::B;
            #[export_name = concat!($n, "_to_bytes")]
            pub unsafe extern "C" fn to_bytes(o: *mut [u8; $SZ], o2: *mut [u8; $SZ], a: *const B) {
                let x = F::get(a);
                *o = x.to_bytes();
                (*o2).copy_from_slice(x.to_repr().as_ref());
            }
            #[export_name = concat!($n, "_from_bytes")]
            pub unsafe extern "C" fn from_bytes(o: *mut B, a: *const [u8; $SZ]) -> u8 {
                let r = F::from_bytes(&*a);
                let ok = bool::from(r.is_some());
                if ok {
                    puts(o, &[r.unwrap()]);
                }
                ok as u8
            }
            #[export_name = concat!($n, "_from_repr")]
            pub unsafe extern "C" fn from_repr(o: *mut B, a: *const [u8; $SZ]) -> u8 {
                let mut rep = <F as PrimeField>::Repr::default();
                rep.as_mut().copy_from_slice(&*a);
                let r = F::from_repr(rep);
                let ok = bool::from(r.is_some());
                if ok {
                    puts(o, &[r.unwrap()]);
                }
                ok as u8
            }
            #[export_name = concat!($n, "_to_raw_bytes")]
            pub unsafe extern "C" fn to_raw_bytes(o: *mut [u8; $SZ], o2: *mut [u8; $SZ], a: *const B) {
                let x = F::get(a);
                (*o).copy_from_slice(&x.to_raw_bytes());
                let mut w = &mut (*o2)[..];
                x.write_raw(&mut w).unwrap();
            }
            #[export_name = concat!($n, "_from_raw_bytes")]
            pub unsafe extern "C" fn from_raw_bytes(o: *mut B, p: *const u8, n: usize) -> u8 {
                let s = core::slice::from_raw_parts(p, n);
                match F::from_raw_bytes(s) {
                    Some(x) => {
                        puts(o, &[x]);
                        1
                    }
                    None => 0,
                }
            }
            #[export_name = concat!($n, "_read_raw")]
            pub unsafe extern "C" fn read_raw(o: *mut B, p: *const u8, n: usize) -> u8 {
                let mut s = core::slice::from_raw_parts(p, n);
                match F::read_raw(&mut s) {
                    Ok(x) => {
                        puts(o, &[x]);
                        1
                    }
                    Err(_) => 0,
                }
            }
            #[export_name = concat!($n, "_unchecked")]
            pub unsafe extern "C" fn unchecked(o: *mut B, p: *const u8) {
                let s = core::slice::from_raw_parts(p, $SZ);
                let mut t = s;
                puts(o, &[F::from_raw_bytes_unchecked(s), F::read_raw_unchecked(&mut t)]);
            }
            #[export_name = concat!($n, "_uniform")]
            pub unsafe extern "C" fn uniform(o: *mut B, a: *const [u8; $U]) {
                puts(o, &[<F as FromUniformBytes<$U>>::from_uniform_bytes(&*a)]);
            }
            #[export_name = concat!($n, "_from_u64")]
            pub unsafe extern "C" fn from_u64(o: *mut B, a: u64) {
                puts(o, &[F::from(a)]);
            }
            #[export_name = concat!($n, "_cmp")]
            pub unsafe extern "C" fn cmp(a: *const B, b: *const B) -> i8 {
                F::get(a).cmp(&F::get(b)) as i8
            }
            #[export_name = concat!($n, "_lexi")]
            pub unsafe extern "C" fn lexi(a: *const B) -> u8 {
                F::get(a).lexicographically_largest().unwrap_u8()
            }
            #[export_name = concat!($n, "_is_odd")]
            pub unsafe extern "C" fn is_odd(a: *const B) -> u8 {
                F::get(a).is_odd().unwrap_u8()
            }
            #[export_name = concat!($n, "_sqrt")]
            pub unsafe extern "C" fn sqrt(o: *mut B, a: *const B) -> u8 {
                let r = F::get(a).sqrt();
                let ok = bool::from(r.is_some());
                if ok {
                    puts(o, &[r.unwrap()]);
                }
                ok as u8
            }
            #[export_name = concat!($n, "_legendre")]
            pub unsafe extern "C" fn legendre(a: *const B) -> i64 {
                F::get(a).legendre()
            }
        }
    };
}

use halo2curves::{bls12381, bn256, pluto_eris};
pub type PeFp2 = QuadExtField<pluto_eris::Fp>;
pub type PeFp6 = CubicExtField<PeFp2>;
pub type PeFp12 = QuadExtField<PeFp6>;
tower_core!(bn2, bn256::Fq2, "bn_fq2");
tower_core!(bn6, bn256::Fq6, "bn_fq6");
tower_core!(bn12, bn256::Fq12, "bn_fq12");
tower_core!(bl2, bls12381::Fq2, "bls_fq2");
tower_core!(bl6, bls12381::Fq6, "bls_fq6");
tower_core!(bl12, bls12381::Fq12, "bls_fq12");
tower_core!(pe2, PeFp2, "pe_fp2");
tower_core!(pe6, PeFp6, "pe_fp6");
tower_core!(pe12, PeFp12, "pe_fp12");
tower_quad!(qbn2, bn256::Fq2, "bn_fq2");
tower_quad!(qbn12, bn256::Fq12, "bn_fq12");
tower_quad!(qbl2, bls12381::Fq2, "bls_fq2");
tower_quad!(qbl12, bls12381::Fq12, "bls_fq12");
tower_quad!(qpe2, PeFp2, "pe_fp2");
tower_quad!(qpe12, PeFp12, "pe_fp12");
tower_12!(sbn, bn256::Fq2, bn256::Fq6, bn256::Fq12, "bn_fq6", "bn_fq12");
tower_12!(sbl, bls12381::Fq2, bls12381::Fq6, bls12381::Fq12, "bls_fq6", "bls_fq12");
tower_12!(spe, PeFp2, PeFp6, PeFp12, "pe_fp6", "pe_fp12");
tower_2!(tbn, bn256::Fq2, "bn_fq2", 64, 96);
tower_2!(tbl, bls12381::Fq2, "bls_fq2", 96, 128);
tower_2!(tpe, PeFp2, "pe_fp2", 112, 128);
