//! Tensor workloads: word-level product oracle.
use crate::bases::TBasis;
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ops::{put, Model};
use crate::rng::Rng;
use crate::scalar::*;
use crate::words::*;
use rustyalgebra::free_tensor::TensorBasis;

pub type Tv<const N: u32, S> = Dv<'static, TensorBasis<N>, S>;

/// Truncated concatenation product, from the definition.
pub fn product<S: Sc>(n: u32, a: &[S], b: &[S], limit: u32) -> Model<S> {
    let mut out: Model<S> = vec![];
    // degree, start and N^degree of every index
    let info = |len: usize| -> Vec<(u32, u128)> {
        let mut v = Vec::with_capacity(len);
        let mut d = 0;
        for i in 0..len as u128 {
            while start(n, d + 1) <= i {
                d += 1;
            }
            v.push((d, i - start(n, d)));
        }
        v
    };
    let (ia, ib) = (info(a.len()), info(b.len()));
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() || ia[i].0 > limit {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            if ia[i].0 + ib[j].0 > limit {
                break; // indices are in degree order
            }
            if y.is_zero() {
                continue;
            }
            let (db, ob) = ib[j];
            let k = start(n, ia[i].0 + db) + ia[i].1 * (n as u128).pow(db) + ob;
            let k = k as usize;
            let cur = if k < out.len() { out[k].clone() } else { S::m_int(0) };
            put(&mut out, k, cur.m_add(&x.m_mul(y)));
        }
    }
    out
}

/// The same by writing out words; slow, used to watch the formula above.
pub fn product_slow<S: Sc>(n: u32, a: &[S], b: &[S], limit: u32) -> Model<S> {
    let mut out: Model<S> = vec![];
    for (i, x) in a.iter().enumerate() {
        let u = unrank(n, i as u128);
        for (j, y) in b.iter().enumerate() {
            let mut w = u.clone();
            w.extend(unrank(n, j as u128));
            if w.len() as u32 > limit {
                continue;
            }
            let k = rank(n, &w) as usize;
            let cur = if k < out.len() { out[k].clone() } else { S::m_int(0) };
            put(&mut out, k, cur.m_add(&x.m_mul(y)));
        }
    }
    out
}

/// Largest useful stored sizes for operands over n letters.
pub fn operand_max(r: &mut Rng, small: bool, n: u32) -> usize {
    if small {
        return match n {
            1 => 5,
            2 => 8,
            3 => 14,
            _ => (n as usize + 3).min(12),
        };
    }
    if r.chance(1, 12) {
        // deep or wide operands now and then
        let n = n as usize;
        return match n {
            1 => 29,
            2 => *r.pick(&[127usize, 400, 511, 1100]),
            3 => *r.pick(&[121usize, 364, 500]),
            4 => *r.pick(&[85usize, 341]),
            _ => 1 + n + n * n / 2 + r.us(n * n + 1).min(400),
        };
    }
    match n {
        1 => 12,
        2 => *r.pick(&[7usize, 15, 31, 40, 63]),
        3 => *r.pick(&[4usize, 13, 40, 50]),
        4 => *r.pick(&[5usize, 21, 60]),
        5 => *r.pick(&[6usize, 31, 50]),
        _ => *r.pick(&[n as usize + 1, n as usize + 6, 2 * n as usize + 3]),
    }
}

/// Coefficients for products: floats stay exact whatever the order of summation.
pub fn gen_tensor<S: Sc>(r: &mut Rng, n: usize) -> Vec<S> {
    let mut v: Vec<S> = if S::EXACT {
        gen_coeffs(r, n, false)
    } else {
        (0..n).map(|_| S::m_int(r.below(9) as i64 - 4)).collect()
    };
    if n > 0 {
        match r.below(5) {
            0 => v[0] = S::m_int(0),
            1 => v[0] = S::m_int(1),
            2 => v[0] = S::m_int(-1),
            _ => {}
        }
    }
    // a whole degree of zeros now and then
    if n > 2 && r.chance(1, 6) {
        let lo = r.us(n);
        let hi = lo + r.us(n - lo) + 1;
        for x in &mut v[lo..hi] {
            *x = S::m_int(0);
        }
    }
    v
}

pub fn gen_operand<const N: u32, S: Sc>(ctx: &mut Ctx, max: usize) -> Vec<S> {
    let marks = <TensorBasis<N> as TBasis>::marks(max);
    let n = gen_size(&mut ctx.rng, &marks, max);
    gen_tensor(&mut ctx.rng, n)
}

pub fn deg<S>(n: u32, a: &[S]) -> u32 {
    if a.is_empty() { 0 } else { degree_of(n, a.len() as u128 - 1) }
}

/// highest degree to which products of these operands may be computed without exploding
pub fn gen_limit(r: &mut Rng, n: u32, da: u32, db: u32, cap: usize) -> u32 {
    let full = da + db;
    let mut d = match r.below(10) {
        0 => 0,
        1 => full,
        2 => full + 1,
        3 => u32::MAX,
        4 => full + 1000,
        5 => da,
        6 => db,
        7 => full.saturating_sub(1),
        _ => r.below(full as u64 + 2) as u32,
    };
    // result size is start(min(d, full) + 1)
    while start(n, d.min(full) + 1) > cap as u128 {
        d = d.min(full) - 1;
    }
    d
}
