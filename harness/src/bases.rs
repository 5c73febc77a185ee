//! Bases used by the workloads, with index arithmetic of our own.
use crate::words::{degree_of, rank, start, unrank};
use rustyalgebra::basis::{Basis, OrderedBasis};
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use std::cmp::Ordering;
use std::fmt;

/// An ordered basis for which the harness knows key <-> index independently of the library.
pub trait TBasis: OrderedBasis<KeyType = <Self as TBasis>::K> + 'static {
    type K: Clone + PartialEq + fmt::Display + fmt::Debug + 'static;
    fn name() -> String;
    fn mk(i: usize) -> Self::K;
    /// interesting sizes: every degree boundary etc. up to max
    fn marks(max: usize) -> Vec<usize>;
    /// degree of index, if the basis is graded
    fn deg(_i: usize) -> Option<u32> {
        None
    }
    /// largest index there is
    fn top() -> usize {
        usize::MAX / 4
    }
}

impl<const N: u32> TBasis for TensorBasis<N> {
    type K = TensorKey<N>;
    fn name() -> String {
        format!("T{}", N)
    }
    fn mk(i: usize) -> TensorKey<N> {
        TensorKey::<N>::from_letters(&unrank(N, i as u128))
    }
    fn marks(max: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut d = 0;
        while start(N, d) <= max as u128 && d <= Self::max_degree() + 1 {
            v.push(start(N, d) as usize);
            d += 1;
        }
        v
    }
    fn deg(i: usize) -> Option<u32> {
        Some(degree_of(N, i as u128))
    }
    fn top() -> usize {
        // N = 1 has few words
        (start(N, TensorBasis::<N>::max_degree() + 1) - 1).min(usize::MAX as u128 / 4) as usize
    }
}

/// Key type for user-defined bases.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Z(pub i64);
impl fmt::Display for Z {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

pub struct Keys<B>(usize, std::marker::PhantomData<B>);
impl<B: TBasis> Iterator for Keys<B> {
    type Item = <B as TBasis>::K;
    fn next(&mut self) -> Option<Self::Item> {
        self.0 += 1;
        Some(B::mk(self.0 - 1))
    }
}

fn zig(i: usize) -> i64 {
    if i % 2 == 0 { (i / 2) as i64 } else { -((i / 2) as i64) - 1 }
}
fn zag(k: i64) -> usize {
    if k >= 0 { k as usize * 2 } else { (-(k + 1)) as usize * 2 + 1 }
}

macro_rules! int_basis {
    ($name:ident, $mk:expr, $idx:expr, $dim:expr) => {
        pub struct $name;
        impl Basis for $name {
            type KeyType = Z;
        }
        impl OrderedBasis for $name {
            type KeyIterator = Keys<$name>;
            fn compare(a: &Z, b: &Z) -> Ordering {
                Self::key_to_index(a).cmp(&Self::key_to_index(b))
            }
            fn iter_keys() -> Keys<$name> {
                Keys(0, std::marker::PhantomData)
            }
            fn key_to_index(k: &Z) -> usize {
                let f: fn(i64) -> usize = $idx;
                f(k.0)
            }
            fn index_to_key(i: usize) -> Z {
                Self::mk(i)
            }
            fn vector_dimension_for_key(k: &Z) -> usize {
                Self::vector_dimension_for_index(Self::key_to_index(k))
            }
            fn vector_dimension_for_index(i: impl Into<usize>) -> usize {
                let f: fn(usize) -> usize = $dim;
                f(i.into())
            }
        }
        impl TBasis for $name {
            type K = Z;
            fn name() -> String {
                stringify!($name).to_string()
            }
            fn mk(i: usize) -> Z {
                let f: fn(usize) -> i64 = $mk;
                Z(f(i))
            }
            fn marks(max: usize) -> Vec<usize> {
                let mut v = vec![];
                let mut i = 0usize;
                while i <= max {
                    v.push(i);
                    i += 16;
                }
                v
            }
        }
    };
}
// dimension exactly index + 1
int_basis!(IntExact, |i| i as i64, |k| k as usize, |i| i + 1);
// zigzag keys, dimension in blocks of 16
int_basis!(ZigBlock, zig, zag, |i| (i / 16 + 1) * 16);

pub fn tensor_rank<const N: u32>(w: &[u32]) -> usize {
    rank(N, w) as usize
}

// ---- user-defined bases that misreport (memory-safety workloads only)
int_basis!(LiarExact, |i| i as i64, |k| k as usize, |i| i);
int_basis!(LiarZero, |i| i as i64, |k| k as usize, |_| 0);
int_basis!(LiarHalf, |i| i as i64, |k| k as usize, |i| i / 2 + 1);
int_basis!(LiarConst, |i| i as i64, |k| k as usize, |_| 16);
int_basis!(LiarShift, |i| i as i64, |k| k as usize + 7, |i| i + 1);

thread_local! {
    static WOBBLE: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}
fn wobble(m: usize) -> usize {
    WOBBLE.with(|c| {
        let v = crate::rng::mix(c.get());
        c.set(v);
        (v % m as u64) as usize
    })
}
pub fn wobble_seed(v: u64) {
    WOBBLE.with(|c| c.set(v));
}
// answers differ from call to call
int_basis!(LiarWobble, |i| i as i64, |k| k as usize / 2 + wobble(20), |i| i / 2 + wobble(30));
