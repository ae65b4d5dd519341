//! Curve points.  A point is its coordinates one after the other (x, y, z or x, y).
use super::flat::*;
use halo2curves::ff::{Field, PrimeField};
use halo2curves::group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::serde::SerdeObject;
use halo2curves::{Coordinates, CurveAffine, CurveExt};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

macro_rules! curve_core {
    ($m:ident, $G:ty, $A:ty, $F:ty, $S:ty, $n:literal) => {
        mod $m {
            use super::*;
            type G = $G;
            type A = $A;
            type F = $F;
            type B = <F as Flat>::B;
            const N: usize = <F as Flat>::N;
            #[inline(always)]
            unsafe fn g(p: *const B) -> G {
                G { x: F::get(p), y: F::get(p.add(N)), z: F::get(p.add(2 * N)) }
            }
            #[inline(always)]
            unsafe fn a(p: *const B) -> A {
                A { x: F::get(p), y: F::get(p.add(N)) }
            }
            #[inline(always)]
            unsafe fn pg(o: *mut B, i: usize, p: G) {
                let o = o.add(3 * N * i);
                p.x.put(o);
                p.y.put(o.add(N));
                p.z.put(o.add(2 * N));
            }
            #[inline(always)]
            unsafe fn pa(o: *mut B, i: usize, p: A) {
                let o = o.add(2 * N * i);
                p.x.put(o);
                p.y.put(o.add(N));
            }
            #[export_name = concat!($n, "_add")]
            pub unsafe extern "C" fn add(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (g(p), g(q));
                pg(o, 0, &p + &q);
                pg(o, 1, p + q);
                pg(o, 2, &p + q);
                pg(o, 3, p + &q);
                let mut t = p;
                t += q;
                pg(o, 4, t);
                let mut t = p;
                t += &q;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_sub")]
            pub unsafe extern "C" fn sub(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (g(p), g(q));
                pg(o, 0, &p - &q);
                pg(o, 1, p - q);
                pg(o, 2, &p - q);
                pg(o, 3, p - &q);
                let mut t = p;
                t -= q;
                pg(o, 4, t);
                let mut t = p;
                t -= &q;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_add_pa")]
            pub unsafe extern "C" fn add_pa(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (g(p), a(q));
                pg(o, 0, &p + &q);
                pg(o, 1, p + q);
                pg(o, 2, &p + q);
                pg(o, 3, p + &q);
                let mut t = p;
                t += q;
                pg(o, 4, t);
                let mut t = p;
                t += &q;
                pg(o, 5, t);
                pg(o, 6, q + p);
                pg(o, 7, &q + &p);
                pg(o, 8, &q + p);
                pg(o, 9, q + &p);
            }
            #[export_name = concat!($n, "_sub_pa")]
            pub unsafe extern "C" fn sub_pa(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (g(p), a(q));
                pg(o, 0, &p - &q);
                pg(o, 1, p - q);
                pg(o, 2, &p - q);
                pg(o, 3, p - &q);
                let mut t = p;
                t -= q;
                pg(o, 4, t);
                let mut t = p;
                t -= &q;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_sub_ap")]
            pub unsafe extern "C" fn sub_ap(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (a(p), g(q));
                pg(o, 0, &p - &q);
                pg(o, 1, p - q);
                pg(o, 2, &p - q);
                pg(o, 3, p - &q);
            }
            #[export_name = concat!($n, "_add_aa")]
            pub unsafe extern "C" fn add_aa(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (a(p), a(q));
                pg(o, 0, &p + &q);
                pg(o, 1, p + q);
                pg(o, 2, &p + q);
                pg(o, 3, p + &q);
            }
            #[export_name = concat!($n, "_sub_aa")]
            pub unsafe extern "C" fn sub_aa(o: *mut B, p: *const B, q: *const B) {
                let (p, q) = (a(p), a(q));
                pg(o, 0, &p - &q);
                pg(o, 1, p - q);
                pg(o, 2, &p - q);
                pg(o, 3, p - &q);
            }
            #[export_name = concat!($n, "_dbl")]
            pub unsafe extern "C" fn dbl(o: *mut B, p: *const B) {
                pg(o, 0, g(p).double());
            }
            #[export_name = concat!($n, "_neg")]
            pub unsafe extern "C" fn neg(o: *mut B, p: *const B) {
                let p = g(p);
                pg(o, 0, -p);
                pg(o, 1, -&p);
            }
            #[export_name = concat!($n, "_neg_a")]
            pub unsafe extern "C" fn neg_a(o: *mut B, p: *const B) {
                let p = a(p);
                pa(o, 0, -p);
                pa(o, 1, -&p);
            }
            #[export_name = concat!($n, "_sum2")]
            pub unsafe extern "C" fn sum2(o: *mut B, p: *const B, q: *const B) {
                let v = [g(p), g(q)];
                pg(o, 0, v.iter().sum::<G>());
                pg(o, 1, v.into_iter().sum::<G>());
            }
            #[export_name = concat!($n, "_consts")]
            pub unsafe extern "C" fn consts(o: *mut B, oa: *mut B) -> u8 {
                pg(o, 0, <G as Group>::identity());
                pg(o, 1, G::default());
                pg(o, 2, <G as Group>::generator());
                pg(o, 3, G::generator());
                pa(oa, 0, <A as PrimeCurveAffine>::identity());
                pa(oa, 1, A::default());
                pa(oa, 2, <A as PrimeCurveAffine>::generator());
                pa(oa, 3, A::generator());
                pa(oa, 4, <A as CofactorCurveAffine>::identity());
                pa(oa, 5, <A as CofactorCurveAffine>::generator());
                0
            }
            #[export_name = concat!($n, "_ab")]
            pub unsafe extern "C" fn ab(o: *mut B) {
                puts(o, &[<G as CurveExt>::a(), <G as CurveExt>::b(), <A as CurveAffine>::a(), <A as CurveAffine>::b()]);
            }
            #[export_name = concat!($n, "_to_affine")]
            pub unsafe extern "C" fn to_affine(o: *mut B, p: *const B) {
                let p = g(p);
                pa(o, 0, p.to_affine());
                pa(o, 1, A::from(p));
                pa(o, 2, A::from(&p));
            }
            #[export_name = concat!($n, "_to_curve")]
            pub unsafe extern "C" fn to_curve(o: *mut B, p: *const B) {
                let p = a(p);
                pg(o, 0, PrimeCurveAffine::to_curve(&p));
                pg(o, 1, CofactorCurveAffine::to_curve(&p));
                pg(o, 2, G::from(p));
                pg(o, 3, G::from(&p));
            }
            #[export_name = concat!($n, "_eq")]
            pub unsafe extern "C" fn eq(p: *const B, q: *const B) -> u8 {
                let (p, q) = (g(p), g(q));
                p.ct_eq(&q).unwrap_u8() | ((p == q) as u8) << 1 | ((p != q) as u8) << 2 | p.ct_ne(&q).unwrap_u8() << 3
            }
            #[export_name = concat!($n, "_eq_a")]
            pub unsafe extern "C" fn eq_a(p: *const B, q: *const B) -> u8 {
                let (p, q) = (a(p), a(q));
                p.ct_eq(&q).unwrap_u8() | ((p == q) as u8) << 1 | ((p != q) as u8) << 2 | p.ct_ne(&q).unwrap_u8() << 3
            }
            #[export_name = concat!($n, "_select")]
            pub unsafe extern "C" fn select(o: *mut B, p: *const B, q: *const B, c: u8) {
                pg(o, 0, G::conditional_select(&g(p), &g(q), Choice::from(c)));
            }
            #[export_name = concat!($n, "_select_a")]
            pub unsafe extern "C" fn select_a(o: *mut B, p: *const B, q: *const B, c: u8) {
                pa(o, 0, A::conditional_select(&a(p), &a(q), Choice::from(c)));
            }
            #[export_name = concat!($n, "_is_identity")]
            pub unsafe extern "C" fn is_identity(p: *const B) -> u8 {
                g(p).is_identity().unwrap_u8()
            }
            #[export_name = concat!($n, "_is_identity_a")]
            pub unsafe extern "C" fn is_identity_a(p: *const B) -> u8 {
                let p = a(p);
                PrimeCurveAffine::is_identity(&p).unwrap_u8() | CofactorCurveAffine::is_identity(&p).unwrap_u8() << 1
            }
            #[export_name = concat!($n, "_on_curve")]
            pub unsafe extern "C" fn on_curve(p: *const B) -> u8 {
                g(p).is_on_curve().unwrap_u8()
            }
            #[export_name = concat!($n, "_on_curve_a")]
            pub unsafe extern "C" fn on_curve_a(p: *const B) -> u8 {
                a(p).is_on_curve().unwrap_u8()
            }
            #[export_name = concat!($n, "_from_xy")]
            pub unsafe extern "C" fn from_xy(o: *mut B, x: *const B, y: *const B) -> u8 {
                let r = A::from_xy(F::get(x), F::get(y));
                let s = r.is_some().unwrap_u8();
                if s == 1 {
                    pa(o, 0, r.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_coordinates")]
            pub unsafe extern "C" fn coordinates(o: *mut B, p: *const B) -> u8 {
                let r = a(p).coordinates();
                let s = r.is_some().unwrap_u8();
                if s == 1 {
                    let c = r.unwrap();
                    puts(o, &[*c.x(), *c.y()]);
                }
                s
            }
            #[export_name = concat!($n, "_jacobian")]
            pub unsafe extern "C" fn jacobian(o: *mut B, p: *const B) {
                let (x, y, z) = g(p).jacobian_coordinates();
                puts(o, &[x, y, z]);
            }
            #[export_name = concat!($n, "_new_jacobian")]
            pub unsafe extern "C" fn new_jacobian(o: *mut B, p: *const B) -> u8 {
                let p = g(p);
                let r = G::new_jacobian(p.x, p.y, p.z);
                let s = r.is_some().unwrap_u8();
                if s == 1 {
                    pg(o, 0, r.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_endo")]
            pub unsafe extern "C" fn endo(o: *mut B, p: *const B) {
                pg(o, 0, g(p).endo());
            }
            #[export_name = concat!($n, "_torsion")]
            pub unsafe extern "C" fn torsion(p: *const B) -> u8 {
                g(p).is_torsion_free().unwrap_u8()
            }
            #[export_name = concat!($n, "_clear")]
            pub unsafe extern "C" fn clear(o: *mut B, p: *const B) {
                pg(o, 0, g(p).clear_cofactor());
            }
            #[export_name = concat!($n, "_into")]
            pub unsafe extern "C" fn into(o: *mut B, p: *const B) -> u8 {
                let r = g(p).into_subgroup();
                let s = r.is_some().unwrap_u8();
                if s == 1 {
                    pg(o, 0, r.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_mul")]
            pub unsafe extern "C" fn mul(o: *mut B, p: *const B, k: *const $S) {
                let (p, k) = (g(p), *k);
                pg(o, 0, &p * &k);
                pg(o, 1, p * k);
                pg(o, 2, &p * k);
                pg(o, 3, p * &k);
                let mut t = p;
                t *= k;
                pg(o, 4, t);
                let mut t = p;
                t *= &k;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_mul_a")]
            pub unsafe extern "C" fn mul_a(o: *mut B, p: *const B, k: *const $S) {
                let (p, k) = (a(p), *k);
                pg(o, 0, &p * &k);
                pg(o, 1, p * k);
                pg(o, 2, &p * k);
                pg(o, 3, p * &k);
            }
            #[export_name = concat!($n, "_dec_g")]
            pub unsafe extern "C" fn dec_g(o: *mut B, b: *const u8) -> u8 {
                let mut r = <G as GroupEncoding>::Repr::default();
                let n = r.as_ref().len();
                r.as_mut().copy_from_slice(core::slice::from_raw_parts(b, n));
                let p = <G as GroupEncoding>::from_bytes(&r);
                let s = p.is_some().unwrap_u8();
                if s == 1 {
                    pg(o, 0, p.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_decu_g")]
            pub unsafe extern "C" fn decu_g(o: *mut B, b: *const u8) -> u8 {
                let mut r = <G as GroupEncoding>::Repr::default();
                let n = r.as_ref().len();
                r.as_mut().copy_from_slice(core::slice::from_raw_parts(b, n));
                let p = <G as GroupEncoding>::from_bytes_unchecked(&r);
                let s = p.is_some().unwrap_u8();
                if s == 1 {
                    pg(o, 0, p.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_enc_g")]
            pub unsafe extern "C" fn enc_g(o: *mut u8, p: *const B) {
                let r = <G as GroupEncoding>::to_bytes(&g(p));
                let r = r.as_ref();
                core::slice::from_raw_parts_mut(o, r.len()).copy_from_slice(r);
            }
            #[export_name = concat!($n, "_raw_g")]
            pub unsafe extern "C" fn raw_g(o: *mut u8, o2: *mut u8, p: *const B) -> u64 {
                let x = g(p);
                let r = x.to_raw_bytes();
                core::slice::from_raw_parts_mut(o, r.len()).copy_from_slice(&r);
                let mut w = core::slice::from_raw_parts_mut(o2, r.len());
                x.write_raw(&mut w).unwrap();
                (r.len() + w.len()) as u64
            }
            #[export_name = concat!($n, "_from_raw_g")]
            pub unsafe extern "C" fn from_raw_g(o: *mut B, p: *const u8, n: usize) -> u8 {
                match G::from_raw_bytes(core::slice::from_raw_parts(p, n)) {
                    Some(x) => {
                        pg(o, 0, x);
                        1
                    }
                    None => 0,
                }
            }
            #[export_name = concat!($n, "_read_raw_g")]
            pub unsafe extern "C" fn read_raw_g(o: *mut B, p: *const u8, n: usize) -> u8 {
                let mut s = core::slice::from_raw_parts(p, n);
                match G::read_raw(&mut s) {
                    Ok(x) => {
                        pg(o, 0, x);
                        1
                    }
                    Err(_) => 0,
                }
            }
            #[export_name = concat!($n, "_raw_unchecked_g")]
            pub unsafe extern "C" fn raw_unchecked_g(o: *mut B, p: *const u8, n: usize) {
                let s = core::slice::from_raw_parts(p, n);
                pg(o, 0, G::from_raw_bytes_unchecked(s));
                let mut t = s;
                pg(o, 1, G::read_raw_unchecked(&mut t));
            }
            #[export_name = concat!($n, "_dec_a")]
            pub unsafe extern "C" fn dec_a(o: *mut B, b: *const u8) -> u8 {
                let mut r = <A as GroupEncoding>::Repr::default();
                let n = r.as_ref().len();
                r.as_mut().copy_from_slice(core::slice::from_raw_parts(b, n));
                let p = <A as GroupEncoding>::from_bytes(&r);
                let s = p.is_some().unwrap_u8();
                if s == 1 {
                    pa(o, 0, p.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_decu_a")]
            pub unsafe extern "C" fn decu_a(o: *mut B, b: *const u8) -> u8 {
                let mut r = <A as GroupEncoding>::Repr::default();
                let n = r.as_ref().len();
                r.as_mut().copy_from_slice(core::slice::from_raw_parts(b, n));
                let p = <A as GroupEncoding>::from_bytes_unchecked(&r);
                let s = p.is_some().unwrap_u8();
                if s == 1 {
                    pa(o, 0, p.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_enc_a")]
            pub unsafe extern "C" fn enc_a(o: *mut u8, p: *const B) {
                let r = <A as GroupEncoding>::to_bytes(&a(p));
                let r = r.as_ref();
                core::slice::from_raw_parts_mut(o, r.len()).copy_from_slice(r);
            }
            #[export_name = concat!($n, "_raw_a")]
            pub unsafe extern "C" fn raw_a(o: *mut u8, o2: *mut u8, p: *const B) -> u64 {
                let x = a(p);
                let r = x.to_raw_bytes();
                core::slice::from_raw_parts_mut(o, r.len()).copy_from_slice(&r);
                let mut w = core::slice::from_raw_parts_mut(o2, r.len());
                x.write_raw(&mut w).unwrap();
                (r.len() + w.len()) as u64
            }
            #[export_name = concat!($n, "_from_raw_a")]
            pub unsafe extern "C" fn from_raw_a(o: *mut B, p: *const u8, n: usize) -> u8 {
                match A::from_raw_bytes(core::slice::from_raw_parts(p, n)) {
                    Some(x) => {
                        pa(o, 0, x);
                        1
                    }
                    None => 0,
                }
            }
            #[export_name = concat!($n, "_read_raw_a")]
            pub unsafe extern "C" fn read_raw_a(o: *mut B, p: *const u8, n: usize) -> u8 {
                let mut s = core::slice::from_raw_parts(p, n);
                match A::read_raw(&mut s) {
                    Ok(x) => {
                        pa(o, 0, x);
                        1
                    }
                    Err(_) => 0,
                }
            }
            #[export_name = concat!($n, "_raw_unchecked_a")]
            pub unsafe extern "C" fn raw_unchecked_a(o: *mut B, p: *const u8, n: usize) {
                let s = core::slice::from_raw_parts(p, n);
                pa(o, 0, A::from_raw_bytes_unchecked(s));
                let mut t = s;
                pa(o, 1, A::read_raw_unchecked(&mut t));
            }
            #[export_name = concat!($n, "_udec_a")]
            pub unsafe extern "C" fn udec_a(o: *mut B, b: *const u8) -> u8 {
                let mut r = <A as UncompressedEncoding>::Uncompressed::default();
                let n = r.as_ref().len();
                r.as_mut().copy_from_slice(core::slice::from_raw_parts(b, n));
                let p = <A as UncompressedEncoding>::from_uncompressed(&r);
                let s = p.is_some().unwrap_u8();
                if s == 1 {
                    pa(o, 0, p.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_udecu_a")]
            pub unsafe extern "C" fn udecu_a(o: *mut B, b: *const u8) -> u8 {
                let mut r = <A as UncompressedEncoding>::Uncompressed::default();
                let n = r.as_ref().len();
                r.as_mut().copy_from_slice(core::slice::from_raw_parts(b, n));
                let p = <A as UncompressedEncoding>::from_uncompressed_unchecked(&r);
                let s = p.is_some().unwrap_u8();
                if s == 1 {
                    pa(o, 0, p.unwrap());
                }
                s
            }
            #[export_name = concat!($n, "_uenc_a")]
            pub unsafe extern "C" fn uenc_a(o: *mut u8, p: *const B) {
                let r = <A as UncompressedEncoding>::to_uncompressed(&a(p));
                let r = r.as_ref();
                core::slice::from_raw_parts_mut(o, r.len()).copy_from_slice(r);
            }
            #[export_name = concat!($n, "_batch0")]
            pub unsafe extern "C" fn batch0() {
                G::batch_normalize(&[], &mut []);
            }
            #[export_name = concat!($n, "_batch1")]
            pub unsafe extern "C" fn batch1(o: *mut B, p: *const B) {
                let mut q = [A::generator(); 1];
                G::batch_normalize(&[g(p)], &mut q);
                pa(o, 0, q[0]);
            }
            #[export_name = concat!($n, "_batch2")]
            pub unsafe extern "C" fn batch2(o: *mut B, p: *const B, p2: *const B) {
                let mut q = [A::generator(); 2];
                G::batch_normalize(&[g(p), g(p2)], &mut q);
                pa(o, 0, q[0]);
                pa(o, 1, q[1]);
            }
            #[export_name = concat!($n, "_batch3")]
            pub unsafe extern "C" fn batch3(o: *mut B, p: *const B, p2: *const B, p3: *const B) {
                let mut q = [A::generator(); 3];
                G::batch_normalize(&[g(p), g(p2), g(p3)], &mut q);
                for i in 0..3 {
                    pa(o, i, q[i]);
                }
            }
        }
    };
}

use halo2curves::{bls12381, bn256, grumpkin, pluto_eris, secp256k1, secp256r1, secq256k1};
curve_core!(bn1, bn256::G1, bn256::G1Affine, bn256::Fq, bn256::Fr, "bn_g1");
curve_core!(bn2, bn256::G2, bn256::G2Affine, bn256::Fq2, bn256::Fr, "bn_g2");
curve_core!(gr, grumpkin::G1, grumpkin::G1Affine, bn256::Fr, bn256::Fq, "grumpkin");
curve_core!(bl1, bls12381::G1, bls12381::G1Affine, bls12381::Fq, bls12381::Fr, "bls_g1");
curve_core!(bl2, bls12381::G2, bls12381::G2Affine, bls12381::Fq2, bls12381::Fr, "bls_g2");
curve_core!(k1, secp256k1::Secp256k1, secp256k1::Secp256k1Affine, secp256k1::Fp, secp256k1::Fq, "k1");
curve_core!(q1, secq256k1::Secq256k1, secq256k1::Secq256k1Affine, secp256k1::Fq, secp256k1::Fp, "secq");
curve_core!(r1, secp256r1::Secp256r1, secp256r1::Secp256r1Affine, secp256r1::Fp, secp256r1::Fq, "r1");
curve_core!(pl, pluto_eris::G1, pluto_eris::G1Affine, pluto_eris::Fp, pluto_eris::Fq, "pluto");
curve_core!(er, pluto_eris::Eris, pluto_eris::ErisAffine, pluto_eris::Fq, pluto_eris::Fp, "eris");
curve_core!(tr, pluto_eris::G2, pluto_eris::G2Affine, QuadExtField<pluto_eris::Fp>, pluto_eris::Fq, "triton");
use halo2curves::ff_ext::quadratic::QuadExtField;
