//! Helpers for dense vectors.
use crate::bases::TBasis;
use crate::ctx::Ctx;
use crate::ops::{at, Model};
use crate::rng::Rng;
use crate::scalar::Sc;
use rustyalgebra::vector::{DenseVector, SimpleDenseVector, Vector};

pub type Dv<'a, B, S> = SimpleDenseVector<'a, B, S>;

/// A vector size: boundaries of degrees, powers of two and their neighbours, small, empty.
pub fn gen_size(r: &mut Rng, marks: &[usize], max: usize) -> usize {
    let s = match r.below(10) {
        0 => 0,
        1 | 2 if !marks.is_empty() => *r.pick(marks),
        3 if !marks.is_empty() => r.pick(marks) + 1,
        4 if !marks.is_empty() => r.pick(marks).saturating_sub(1),
        5 => {
            let p = 1usize << r.us(20);
            (p + r.us(3)).saturating_sub(1)
        }
        6 => r.us(max + 1),
        _ => r.us(max.min(20) + 1),
    };
    if s > max { r.us(max + 1) } else { s }
}

/// Random coefficients; mostly mixed, sometimes all zero, one-hot or zero at the ends.
pub fn gen_coeffs<S: Sc>(r: &mut Rng, n: usize, special: bool) -> Vec<S> {
    let mut v: Vec<S> = match r.below(8) {
        0 => (0..n).map(|_| S::m_int(0)).collect(),
        1 => {
            let mut v: Vec<S> = (0..n).map(|_| S::m_int(0)).collect();
            if n > 0 {
                let i = r.us(n);
                v[i] = S::gen(r, special);
            }
            v
        }
        2 => (0..n).map(|i| S::m_int(i as i64 % 7 + 1)).collect(),
        _ => (0..n).map(|_| S::gen(r, special)).collect(),
    };
    if n > 0 && r.chance(1, 4) {
        v[n - 1] = S::m_int(0);
    }
    if n > 0 && r.chance(1, 4) {
        v[0] = match r.below(3) {
            0 => S::m_int(0),
            1 => S::m_int(1),
            _ => S::m_int(-1),
        };
    }
    v
}

pub fn build<B: TBasis, S: Sc>(m: &[S]) -> Dv<'static, B, S> {
    let mut v = m.to_vec();
    v.shrink_to_fit();
    Dv::<B, S>::from(v)
}

pub fn slice<'x, B: TBasis, S: Sc>(v: &'x Dv<'_, B, S>) -> &'x [S] {
    DenseVector::as_slice(v)
}

/// First index at which the stored coefficients differ from the model (missing = zero).
pub fn differ<S: Sc>(s: &[S], m: &Model<S>) -> Option<usize> {
    let n = s.len().min(m.len());
    for i in 0..n {
        if !s[i].same(&m[i]) {
            return Some(i);
        }
    }
    for i in n..s.len() {
        if !s[i].is_zero() {
            return Some(i);
        }
    }
    for i in n..m.len() {
        if !m[i].is_zero() {
            return Some(i);
        }
    }
    None
}

pub fn check_dense<B: TBasis, S: Sc>(ctx: &mut Ctx, v: &Dv<'_, B, S>, m: &Model<S>, what: &dyn Fn() -> String) {
    let s = slice(v);
    ctx.evn("coefficients compared", s.len().max(m.len()) as u64);
    if let Some(i) = differ(s, m) {
        let got = s.get(i).cloned();
        ctx.fail(format!(
            "{}: coefficient at index {} (key {}) is {:?}, expected {:?}; stored size {}",
            what(),
            i,
            B::mk(i),
            got,
            at(m, i),
            s.len()
        ));
    }
}

/// Element access by key agrees with the stored coefficients.
pub fn check_access<B: TBasis, S: Sc>(ctx: &mut Ctx, v: &Dv<'_, B, S>, m: &Model<S>, i: usize) {
    let n = v.size();
    let got = Vector::get(v, B::mk(i)).cloned();
    ctx.ev("get");
    match &got {
        Some(g) => {
            if !g.same(&at(m, i)) {
                ctx.fail(format!("get(key {}) = {:?}, expected {:?}", B::mk(i), g, at(m, i)));
            }
        }
        None => {
            if i < n || !at(m, i).is_zero() {
                ctx.fail(format!(
                    "get(key {}) = None, expected {:?}; stored size {}",
                    B::mk(i),
                    at(m, i),
                    n
                ));
            }
        }
    }
    let got2 = Vector::get(v, &B::mk(i)).cloned();
    let ok = match (&got, &got2) {
        (None, None) => true,
        (Some(a), Some(b)) => a.same(b),
        _ => false,
    };
    if !ok {
        ctx.fail(format!("get by key and by reference differ at {}: {:?} / {:?}", B::mk(i), got, got2));
    }
}

/// bases with few valid keys need a bounded span
pub fn span_for<B: TBasis>(want: usize) -> usize {
    want.min(B::top().saturating_add(1))
}
