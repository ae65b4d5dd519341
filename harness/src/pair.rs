//! Target group and pairing entry points.  Target group elements are passed as elements of the extension field they wrap.
use super::flat::*;
use halo2curves::ff::Field;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group};
use halo2curves::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

macro_rules! pair {
    ($m:ident, $n:literal, $E:ty) => {
        mod $m {
            use super::*;
            type Gt = <$E as Engine>::Gt;
            type S = <$E as Engine>::Fr;
            type T = <$E as MultiMillerLoop>::Result;
            type P = <$E as Engine>::G1Affine;
            type Q = <$E as Engine>::G2Affine;
            // the wrapper of one field element has that element's layout
            #[inline(always)]
            unsafe fn g(p: *const T) -> Gt {
                *(p as *const Gt)
            }
            #[inline(always)]
            unsafe fn pg(o: *mut T, i: usize, x: Gt) {
                *(o.add(i) as *mut Gt) = x;
            }
            #[export_name = concat!($n, "_gt_add")]
            pub unsafe extern "C" fn add(o: *mut T, a: *const T, b: *const T) {
                let (x, y) = (g(a), g(b));
                pg(o, 0, &x + &y);
                pg(o, 1, x + y);
                pg(o, 2, &x + y);
                pg(o, 3, x + &y);
                let mut t = x;
                t += y;
                pg(o, 4, t);
                let mut t = x;
                t += &y;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_gt_sub")]
            pub unsafe extern "C" fn sub(o: *mut T, a: *const T, b: *const T) {
                let (x, y) = (g(a), g(b));
                pg(o, 0, &x - &y);
                pg(o, 1, x - y);
                pg(o, 2, &x - y);
                pg(o, 3, x - &y);
                let mut t = x;
                t -= y;
                pg(o, 4, t);
                let mut t = x;
                t -= &y;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_gt_neg")]
            pub unsafe extern "C" fn neg(o: *mut T, a: *const T) {
                let x = g(a);
                pg(o, 0, -x);
                pg(o, 1, -&x);
            }
            #[export_name = concat!($n, "_gt_dbl")]
            pub unsafe extern "C" fn dbl(o: *mut T, a: *const T) {
                let x = g(a);
                pg(o, 0, x.double());
                pg(o, 1, Group::double(&x));
            }
            #[export_name = concat!($n, "_gt_ident")]
            pub unsafe extern "C" fn ident(o: *mut T) {
                pg(o, 0, Gt::identity());
                pg(o, 1, <Gt as Group>::identity());
            }
            #[export_name = concat!($n, "_gt_sum")]
            pub unsafe extern "C" fn sum(o: *mut T, a: *const T, b: *const T, c: *const T) {
                let v = [g(a), g(b), g(c)];
                pg(o, 0, v.iter().sum::<Gt>());
                pg(o, 1, v.iter().copied().sum::<Gt>());
            }
            #[export_name = concat!($n, "_gt_mul")]
            pub unsafe extern "C" fn mul(o: *mut T, a: *const T, k: *const S) {
                let (p, k) = (g(a), *k);
                pg(o, 0, &p * &k);
                pg(o, 1, p * k);
                pg(o, 2, &p * k);
                pg(o, 3, p * &k);
                let mut t = p;
                t *= k;
                pg(o, 4, t);
                let mut t = p;
                t *= &k;
                pg(o, 5, t);
            }
            #[export_name = concat!($n, "_gt_pred")]
            pub unsafe extern "C" fn pred(a: *const T, b: *const T) -> u8 {
                let (x, y) = (g(a), g(b));
                (x == y) as u8 | ((x != y) as u8) << 1 | x.ct_eq(&y).unwrap_u8() << 2 | x.is_identity().unwrap_u8() << 3
            }
            #[export_name = concat!($n, "_gt_select")]
            pub unsafe extern "C" fn select(o: *mut T, a: *const T, b: *const T, c: u8) {
                pg(o, 0, Gt::conditional_select(&g(a), &g(b), Choice::from(c)));
            }
            #[export_name = concat!($n, "_fe")]
            pub unsafe extern "C" fn fe(o: *mut T, a: *const T) {
                pg(o, 0, (*a).final_exponentiation());
            }
            #[export_name = concat!($n, "_mml")]
            pub unsafe extern "C" fn mml(o: *mut T, p: *const P, q: *const Q, n: usize) {
                let v: [(&P, &Q); 3] = core::array::from_fn(|i| (&*p.add(i % n), &*q.add(i % n)));
                *o = <$E as MultiMillerLoop>::multi_miller_loop(&v[..n]);
            }
            #[export_name = concat!($n, "_mml_fe")]
            pub unsafe extern "C" fn mml_fe(o: *mut T, p: *const P, q: *const Q, n: usize) {
                let mut f = T::ONE;
                mml(&mut f, p, q, n);
                pg(o, 0, f.final_exponentiation());
            }
            #[export_name = concat!($n, "_pairing")]
            pub unsafe extern "C" fn pairing(o: *mut T, p: *const P, q: *const Q) {
                let (p, q) = (*p, *q);
                pg(o, 0, <$E as Engine>::pairing(&p, &q));
                *o.add(1) = core::mem::transmute(p.pairing_with(&q));
                *o.add(2) = core::mem::transmute(q.pairing_with(&p));
            }
        }
    };
}
pair!(bn, "bn", halo2curves::bn256::Bn256);
pair!(bls, "bls", halo2curves::bls12381::Bls12381);
pair!(pe, "pe", halo2curves::pluto_eris::Pluto);
