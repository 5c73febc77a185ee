//! Scalar types for the workloads, each with arithmetic for the oracles that does not go
//! through the library.
use crate::rng::Rng;
use rustyalgebra::coefficients::{CoefficientBase, CoefficientField, Commutative, FromDegreeType};
use std::borrow::Borrow;
use std::cell::Cell;
use std::fmt::Debug;

pub const P: u64 = (1 << 61) - 1;

fn addp(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
fn subp(a: u64, b: u64) -> u64 {
    if a >= b { a - b } else { a + P - b }
}
fn mulp(a: u64, b: u64) -> u64 {
    let x = a as u128 * b as u128;
    let s = (x as u64 & P) + (x >> 61) as u64;
    if s >= P { s - P } else { s }
}
fn powp(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, b);
        }
        b = mulp(b, b);
        e >>= 1;
    }
    r
}
fn invp(a: u64) -> u64 {
    assert!(a != 0, "division by zero in workload");
    powp(a, P - 2)
}
fn fromi(v: i64) -> u64 {
    v.rem_euclid(P as i64) as u64
}

/// What a workload needs of a scalar type. `m_*` is the oracle's own arithmetic.
pub trait Sc: CoefficientField<RationalType = <Self as Sc>::Q> + Debug + 'static {
    type Q: Clone + Debug + 'static + From<i8> + From<i16> + FromDegreeType;
    const NAME: &'static str;
    const EXACT: bool;
    /// a value, biased to 0, 1, -1; with special floating-point values if `special`
    fn gen(r: &mut Rng, special: bool) -> Self;
    fn gen_q(r: &mut Rng) -> Self::Q;
    fn m_int(v: i64) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn m_add(&self, o: &Self) -> Self;
    fn m_sub(&self, o: &Self) -> Self;
    fn m_mul(&self, o: &Self) -> Self;
    fn m_neg(&self) -> Self;
    fn m_div(&self, q: &Self::Q) -> Self;
    fn m_q(v: i64) -> Self::Q;
    fn is_zero(&self) -> bool {
        self.same(&Self::m_int(0))
    }
    fn m_abs(x: &Self) -> Self {
        x.clone()
    }
    /// magnitude, for approximate comparison of floats
    fn mag(&self) -> f64 {
        0.0
    }
}

// ---------------------------------------------------------------- prime field

/// Prime field of order 2^61-1. The parameter carries the maximum degree for the free tensor trait.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Fp<const M: u32>(pub u64);
/// The "rational" companion type of Fp, deliberately a different type.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Fq<const M: u32>(pub u64);

fn show(v: u64, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if v > P / 2 {
        write!(f, "-{}", P - v)
    } else {
        write!(f, "{}", v)
    }
}
impl<const M: u32> Debug for Fp<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        show(self.0, f)
    }
}
impl<const M: u32> std::fmt::Display for Fp<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        show(self.0, f)
    }
}
impl<const M: u32> Debug for Fq<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        show(self.0, f)
    }
}
macro_rules! from_ints {
    ($t:ident) => {
        impl<const M: u32> From<i8> for $t<M> {
            fn from(v: i8) -> Self {
                $t(fromi(v as i64))
            }
        }
        impl<const M: u32> From<i16> for $t<M> {
            fn from(v: i16) -> Self {
                $t(fromi(v as i64))
            }
        }
        impl<const M: u32> FromDegreeType for $t<M> {
            fn from_degree(deg: &u32) -> Self {
                $t(fromi(*deg as i64))
            }
        }
    };
}
macro_rules! from_floats {
    ($t:ident) => {
        impl<const M: u32> From<i8> for $t<M> {
            fn from(v: i8) -> Self {
                $t(v as f64)
            }
        }
        impl<const M: u32> From<i16> for $t<M> {
            fn from(v: i16) -> Self {
                $t(v as f64)
            }
        }
        impl<const M: u32> FromDegreeType for $t<M> {
            fn from_degree(deg: &u32) -> Self {
                $t(<f64 as FromDegreeType>::from_degree(deg))
            }
        }
    };
}
from_ints!(Fp);
from_ints!(Fq);
impl<const M: u32> CoefficientBase for Fp<M> {}
impl<const M: u32> Commutative for Fp<M> {}
impl<const M: u32> CoefficientField for Fp<M> {
    type RationalType = Fq<M>;
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    const MONE: Self = Fp(P - 1);
    fn uminus(&self) -> Self {
        Fp(subp(0, self.0))
    }
    fn inv(arg: impl Borrow<Fq<M>>) -> Self {
        Fp(invp(arg.borrow().0))
    }
    fn add(&self, o: &Self) -> Self {
        Fp(addp(self.0, o.0))
    }
    fn sub(&self, o: &Self) -> Self {
        Fp(subp(self.0, o.0))
    }
    fn mul(&self, o: &Self) -> Self {
        Fp(mulp(self.0, o.0))
    }
    fn div(&self, o: &Fq<M>) -> Self {
        Fp(mulp(self.0, invp(o.0)))
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        self.0 = addp(self.0, o.0);
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        self.0 = subp(self.0, o.0);
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        self.0 = mulp(self.0, o.0);
        self
    }
    fn div_inplace(&mut self, o: &Fq<M>) -> &mut Self {
        self.0 = mulp(self.0, invp(o.0));
        self
    }
}
fn gen_p(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => P - 1,
        5 | 6 => r.range(2, 9),
        7 => P - r.range(2, 9),
        _ => r.below(P),
    }
}
impl<const M: u32> Sc for Fp<M> {
    type Q = Fq<M>;
    const NAME: &'static str = "Fp";
    const EXACT: bool = true;
    fn gen(r: &mut Rng, _: bool) -> Self {
        Fp(gen_p(r))
    }
    fn gen_q(r: &mut Rng) -> Fq<M> {
        Fq(gen_p(r).max(1))
    }
    fn m_int(v: i64) -> Self {
        Fp(fromi(v))
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn m_add(&self, o: &Self) -> Self {
        Fp(addp(self.0, o.0))
    }
    fn m_sub(&self, o: &Self) -> Self {
        Fp(subp(self.0, o.0))
    }
    fn m_mul(&self, o: &Self) -> Self {
        Fp(mulp(self.0, o.0))
    }
    fn m_neg(&self) -> Self {
        Fp(subp(0, self.0))
    }
    fn m_div(&self, q: &Fq<M>) -> Self {
        Fp(mulp(self.0, invp(q.0)))
    }
    fn m_q(v: i64) -> Fq<M> {
        Fq(fromi(v))
    }
}

// ---------------------------------------------------------------- floats

macro_rules! float_sc {
    ($t:ident, $name:literal) => {
        impl Sc for $t {
            type Q = $t;
            const NAME: &'static str = $name;
            const EXACT: bool = false;
            fn gen(r: &mut Rng, special: bool) -> Self {
                if special {
                    match r.below(12) {
                        0 => return $t::INFINITY,
                        1 => return $t::NEG_INFINITY,
                        2 => return $t::NAN,
                        3 => return $t::MIN_POSITIVE,
                        4 => return -$t::MIN_POSITIVE / 4.0,
                        5 => return $t::MAX,
                        6 => return -0.0,
                        7 => return $t::EPSILON,
                        _ => {}
                    }
                }
                match r.below(8) {
                    0 => 0.0,
                    1 => 1.0,
                    2 => -1.0,
                    // small dyadics: sums and products of a few are exact
                    _ => (r.below(129) as $t - 64.0) / 8.0,
                }
            }
            fn gen_q(r: &mut Rng) -> $t {
                *r.pick(&[1.0, -1.0, 2.0, 0.5, -4.0, 8.0, 3.0, -5.0, 7.0, 0.25, 10.0])
            }
            fn m_int(v: i64) -> Self {
                v as $t
            }
            fn same(&self, o: &Self) -> bool {
                self == o || (self.is_nan() && o.is_nan())
            }
            fn m_add(&self, o: &Self) -> Self {
                *self + *o
            }
            fn m_sub(&self, o: &Self) -> Self {
                *self - *o
            }
            fn m_mul(&self, o: &Self) -> Self {
                *self * *o
            }
            fn m_neg(&self) -> Self {
                -*self
            }
            fn m_div(&self, q: &$t) -> Self {
                *self / *q
            }
            fn m_q(v: i64) -> $t {
                v as $t
            }
        }
    };
}
float_sc!(f64, "f64");
float_sc!(f32, "f32");

// ---------------------------------------------------------------- local float newtype

/// f64 behind the library's own f64 field operations; the parameter is the maximum degree.
#[derive(Clone, Copy, PartialEq)]
pub struct Fw<const M: u32>(pub f64);
impl<const M: u32> Debug for Fw<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
from_floats!(Fw);
impl<const M: u32> CoefficientBase for Fw<M> {}
impl<const M: u32> Commutative for Fw<M> {}
impl<const M: u32> CoefficientField for Fw<M> {
    type RationalType = Fw<M>;
    const ZERO: Self = Fw(0.0);
    const ONE: Self = Fw(1.0);
    const MONE: Self = Fw(-1.0);
    fn uminus(&self) -> Self {
        Fw(CoefficientField::uminus(&self.0))
    }
    fn inv(arg: impl Borrow<Self>) -> Self {
        Fw(<f64 as CoefficientField>::inv(arg.borrow().0))
    }
    fn add(&self, o: &Self) -> Self {
        Fw(CoefficientField::add(&self.0, &o.0))
    }
    fn sub(&self, o: &Self) -> Self {
        Fw(CoefficientField::sub(&self.0, &o.0))
    }
    fn mul(&self, o: &Self) -> Self {
        Fw(CoefficientField::mul(&self.0, &o.0))
    }
    fn div(&self, o: &Self) -> Self {
        Fw(CoefficientField::div(&self.0, &o.0))
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        CoefficientField::add_inplace(&mut self.0, &o.0);
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        CoefficientField::sub_inplace(&mut self.0, &o.0);
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        CoefficientField::mul_inplace(&mut self.0, &o.0);
        self
    }
    fn div_inplace(&mut self, o: &Self) -> &mut Self {
        CoefficientField::div_inplace(&mut self.0, &o.0);
        self
    }
}
impl<const M: u32> Sc for Fw<M> {
    type Q = Fw<M>;
    const NAME: &'static str = "f64 newtype";
    const EXACT: bool = false;
    fn gen(r: &mut Rng, special: bool) -> Self {
        Fw(<f64 as Sc>::gen(r, special))
    }
    fn gen_q(r: &mut Rng) -> Self {
        Fw(<f64 as Sc>::gen_q(r))
    }
    fn m_int(v: i64) -> Self {
        Fw(v as f64)
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
    fn m_add(&self, o: &Self) -> Self {
        Fw(self.0 + o.0)
    }
    fn m_sub(&self, o: &Self) -> Self {
        Fw(self.0 - o.0)
    }
    fn m_mul(&self, o: &Self) -> Self {
        Fw(self.0 * o.0)
    }
    fn m_neg(&self) -> Self {
        Fw(-self.0)
    }
    fn m_div(&self, q: &Self) -> Self {
        Fw(self.0 / q.0)
    }
    fn m_q(v: i64) -> Self {
        Fw(v as f64)
    }
    fn mag(&self) -> f64 {
        self.0.abs()
    }
    fn m_abs(x: &Self) -> Self {
        Fw(x.0.abs())
    }
}

// ---------------------------------------------------------------- heap-owning scalar

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
    /// operations until an injected panic (negative: never)
    static FUSE: Cell<i64> = const { Cell::new(-1) };
}
pub fn heap_live() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn heap_reset() {
    LIVE.with(|c| c.set(0))
}
pub fn heap_made() -> u64 {
    MADE.with(|c| c.get())
}
pub fn set_fuse(n: i64) {
    FUSE.with(|c| c.set(n))
}
pub fn fuse() -> i64 {
    FUSE.with(|c| c.get())
}
pub const INJECTED: &str = "injected scalar panic";
fn burn() {
    FUSE.with(|c| {
        let v = c.get();
        if v == 0 {
            c.set(-1);
            std::panic::panic_any(INJECTED.to_string());
        } else if v > 0 {
            c.set(v - 1);
        }
    })
}

/// One counted heap allocation.
pub struct Cellar(Box<u64>);
impl Cellar {
    fn new(v: u64) -> Self {
        LIVE.with(|c| c.set(c.get() + 1));
        MADE.with(|c| c.set(c.get() + 1));
        Cellar(Box::new(v))
    }
}
impl Drop for Cellar {
    fn drop(&mut self) {
        LIVE.with(|c| c.set(c.get() - 1));
    }
}
/// Scalar that owns heap memory (except for the constants the trait demands).
pub enum Hs {
    Imm(i8),
    Big(Cellar),
}
use Hs::*;
impl Hs {
    fn v(&self) -> u64 {
        match self {
            Imm(i) => fromi(*i as i64),
            Big(b) => *b.0,
        }
    }
    fn mk(v: u64) -> Hs {
        Big(Cellar::new(v))
    }
}
impl Clone for Hs {
    fn clone(&self) -> Self {
        burn();
        Hs::mk(self.v())
    }
}
impl PartialEq for Hs {
    fn eq(&self, o: &Self) -> bool {
        self.v() == o.v()
    }
}
impl Debug for Hs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        show(self.v(), f)
    }
}
impl std::fmt::Display for Hs {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        show(self.v(), f)
    }
}
impl From<i8> for Hs {
    fn from(v: i8) -> Self {
        Hs::mk(fromi(v as i64))
    }
}
impl From<i16> for Hs {
    fn from(v: i16) -> Self {
        Hs::mk(fromi(v as i64))
    }
}
impl FromDegreeType for Hs {
    fn from_degree(d: &u32) -> Self {
        Hs::mk(fromi(*d as i64))
    }
}
impl CoefficientBase for Hs {}
impl Commutative for Hs {}
impl CoefficientField for Hs {
    type RationalType = Hs;
    const ZERO: Hs = Imm(0);
    const ONE: Hs = Imm(1);
    const MONE: Hs = Imm(-1);
    fn uminus(&self) -> Self {
        burn();
        Hs::mk(subp(0, self.v()))
    }
    fn inv(arg: impl Borrow<Hs>) -> Self {
        burn();
        Hs::mk(invp(arg.borrow().v()))
    }
    fn add(&self, o: &Self) -> Self {
        burn();
        Hs::mk(addp(self.v(), o.v()))
    }
    fn sub(&self, o: &Self) -> Self {
        burn();
        Hs::mk(subp(self.v(), o.v()))
    }
    fn mul(&self, o: &Self) -> Self {
        burn();
        Hs::mk(mulp(self.v(), o.v()))
    }
    fn div(&self, o: &Hs) -> Self {
        burn();
        Hs::mk(mulp(self.v(), invp(o.v())))
    }
    fn add_inplace(&mut self, o: &Self) -> &mut Self {
        burn();
        *self = Hs::mk(addp(self.v(), o.v()));
        self
    }
    fn sub_inplace(&mut self, o: &Self) -> &mut Self {
        burn();
        *self = Hs::mk(subp(self.v(), o.v()));
        self
    }
    fn mul_inplace(&mut self, o: &Self) -> &mut Self {
        burn();
        *self = Hs::mk(mulp(self.v(), o.v()));
        self
    }
    fn div_inplace(&mut self, o: &Hs) -> &mut Self {
        burn();
        *self = Hs::mk(mulp(self.v(), invp(o.v())));
        self
    }
}
impl Sc for Hs {
    type Q = Hs;
    const NAME: &'static str = "heap";
    const EXACT: bool = true;
    fn gen(r: &mut Rng, _: bool) -> Self {
        Hs::mk(gen_p(r))
    }
    fn gen_q(r: &mut Rng) -> Hs {
        Hs::mk(r.range(1, 50))
    }
    fn m_int(v: i64) -> Self {
        Hs::mk(fromi(v))
    }
    fn same(&self, o: &Self) -> bool {
        self.v() == o.v()
    }
    fn m_add(&self, o: &Self) -> Self {
        Hs::mk(addp(self.v(), o.v()))
    }
    fn m_sub(&self, o: &Self) -> Self {
        Hs::mk(subp(self.v(), o.v()))
    }
    fn m_mul(&self, o: &Self) -> Self {
        Hs::mk(mulp(self.v(), o.v()))
    }
    fn m_neg(&self) -> Self {
        Hs::mk(subp(0, self.v()))
    }
    fn m_div(&self, q: &Hs) -> Self {
        Hs::mk(mulp(self.v(), invp(q.v())))
    }
    fn m_q(v: i64) -> Hs {
        Hs::mk(fromi(v))
    }
}
