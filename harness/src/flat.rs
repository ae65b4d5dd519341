//! Layout-neutral access to composite elements: coordinates are read and written one prime-field element at a time.
use core::cmp::Ordering;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField, PrimeFieldBits, WithSmallOrderMulGroup};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::{endian::EndianRepr, SerdeObject};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use halo2curves::ff_ext::{cubic::CubicExtField, quadratic::QuadExtField};

pub trait Flat: Copy {
    type B: Copy;
    const N: usize;
    unsafe fn get(p: *const Self::B) -> Self;
    unsafe fn put(&self, p: *mut Self::B);
}
macro_rules! flat_base {
    ($($T:ty),*) => { $( impl Flat for $T {
        type B = $T;
        const N: usize = 1;
        unsafe fn get(p: *const $T) -> Self { *p }
        unsafe fn put(&self, p: *mut $T) { *p = *self }
    } )* };
}
flat_base!(
    halo2curves::bn256::Fq, halo2curves::bn256::Fr, halo2curves::bls12381::Fq, halo2curves::bls12381::Fr,
    halo2curves::secp256k1::Fp, halo2curves::secp256k1::Fq, halo2curves::secp256r1::Fp, halo2curves::secp256r1::Fq,
    halo2curves::pluto_eris::Fp, halo2curves::pluto_eris::Fq, halo2curves::pasta::Fp, halo2curves::pasta::Fq
);
impl<F: Flat + Field> Flat for QuadExtField<F> {
    type B = F::B;
    const N: usize = 2 * F::N;
    unsafe fn get(p: *const Self::B) -> Self {
        QuadExtField::new(F::get(p), F::get(p.add(F::N)))
    }
    unsafe fn put(&self, p: *mut Self::B) {
        self.c0().put(p);
        self.c1().put(p.add(F::N));
    }
}
impl<F: Flat + Field> Flat for CubicExtField<F> {
    type B = F::B;
    const N: usize = 3 * F::N;
    unsafe fn get(p: *const Self::B) -> Self {
        CubicExtField::new(F::get(p), F::get(p.add(F::N)), F::get(p.add(2 * F::N)))
    }
    unsafe fn put(&self, p: *mut Self::B) {
        self.c0().put(p);
        self.c1().put(p.add(F::N));
        self.c2().put(p.add(2 * F::N));
    }
}
/// write several elements one after the other
pub unsafe fn puts<T: Flat>(o: *mut T::B, xs: &[T]) {
    for i in 0..xs.len() {
        xs[i].put(o.add(i * T::N));
    }
}
