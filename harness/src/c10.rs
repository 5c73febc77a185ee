//! C10: in-place products.
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::ops::Model;
use crate::scalar::*;
use crate::tensor::*;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::TensorBasis;

pub fn run(ctx: &mut Ctx) {
    macro_rules! go {
        ($n:literal) => {
            match ctx.rng.below(8) {
                0 | 1 => case::<$n, f64>(ctx),
                2 => case::<$n, f32>(ctx),
                3 => case::<$n, Hs>(ctx),
                _ => case::<$n, Fp<0>>(ctx),
            }
        };
    }
    macro_rules! wide {
        ($($n:literal)*) => {{
            const W: &[u32] = &[$($n),*];
            let fp = ctx.rng.chance(2, 3);
            match *ctx.rng.pick(W) {
                $($n => if fp { case::<$n, Fp<0>>(ctx) } else { case::<$n, f64>(ctx) },)*
                _ => unreachable!(),
            }
        }};
    }
    match ctx.rng.below(16) {
        14 | 15 => wide!(6 8 9 12 17 20 26 32 64 100 255 256),
        0 => go!(1),
        1 | 2 | 3 => go!(2),
        4 | 5 | 6 => go!(3),
        7 | 8 => go!(4),
        9 => go!(5),
        10 => go!(7),
        11 => go!(10),
        12 => go!(16),
        _ => go!(33),
    }
}

pub fn case<const N: u32, S: Sc>(ctx: &mut Ctx) {
    let max = operand_max(&mut ctx.rng, ctx.small, N);
    let mut a: Vec<S> = gen_operand::<N, S>(ctx, max);
    let mut v = build::<TensorBasis<N>, S>(&a);
    let cap = if ctx.small { 150 } else if ctx.rng.chance(1, 150) { 70_000 } else { 6000 };
    let steps = if ctx.small { 1 + ctx.rng.us(2) } else { 1 + ctx.rng.us(4) };
    for _ in 0..steps {
        let b: Vec<S> = if ctx.rng.chance(1, 12) { a.clone() } else { gen_operand::<N, S>(ctx, max) };
        if a.len() * b.len() > 1_300_000 {
            return;
        }
        let vb = build::<TensorBasis<N>, S>(&b);
        let lim = gen_limit(&mut ctx.rng, N, deg(N, &a), deg(N, &b), cap);
        let p = product(N, &a, &b, lim);
        let k = ctx.rng.below(10);
        let c = {
            // floats: powers of two keep everything exact
            let c = ctx.rng.below(9) as i64 - 4;
            if S::EXACT { c } else { *ctx.rng.pick(&[1, -1, 2, -2, 0, 4]) }
        };
        let cq = if c == 0 { 2 } else if !S::EXACT { c } else { c };
        ctx.note(|| {
            format!(
                "width {} degrees {}x{} constant {} op {}",
                N,
                deg(N, &a),
                deg(N, &b),
                if b.is_empty() { "none" } else if b[0].is_zero() { "0" } else if b[0].same(&S::m_int(1)) { "1" } else { "other" },
                k / 2
            )
        });
        let h = format!("{:?}{:?}", a, b).bytes().fold(3u64, |h, c| crate::rng::mix(h ^ c as u64));
        ctx.mixin(h ^ k ^ ((lim as u64) << 8));
        if !a.is_empty() && !b.is_empty() {
            ctx.nontrivial = true;
        }
        ctx.step(|| format!("width {} scalar {} limit {} form {} factor {}: a = {:?}, b = {:?}", N, S::NAME, lim, k / 2, c, a, b));
        // the scalar handed over: a small integer, or any element of an exact field
        let any = S::EXACT && ctx.rng.chance(1, 3);
        let s = if any { S::gen(&mut ctx.rng, false) } else { S::m_int(c) };
        let q = if any { S::gen_q(&mut ctx.rng) } else { S::m_q(cq) };
        let want: Model<S>;
        let what;
        match k / 2 {
            0 => {
                ctx.ev("multiply_inplace");
                what = "multiply_inplace";
                if k % 2 == 0 {
                    v.multiply_inplace(&vb, Some(lim));
                } else {
                    v.multiply_inplace(build::<TensorBasis<N>, S>(&b), Some(lim));
                }
                want = p;
            }
            1 => {
                if k % 2 == 0 {
                    ctx.ev("mul_scal_lprod");
                    what = "mul_scal_lprod";
                    if any || ctx.rng.chance(1, 2) {
                        v.mul_scal_lprod(&vb, s.clone(), Some(lim));
                    } else {
                        v.mul_scal_lprod(&vb, c as i8, Some(lim));
                    }
                } else {
                    ctx.ev("mul_scal_rprod");
                    what = "mul_scal_rprod";
                    if any || ctx.rng.chance(1, 2) {
                        v.mul_scal_rprod(&vb, s.clone(), Some(lim));
                    } else {
                        v.mul_scal_rprod(&vb, c as i16, Some(lim));
                    }
                }
                want = p.iter().map(|x| x.m_mul(&s)).collect();
            }
            2 | 3 => {
                if k % 2 == 0 {
                    ctx.ev("mul_rat_ldiv");
                    what = "mul_rat_ldiv";
                    v.mul_rat_ldiv(&vb, q.clone(), Some(lim));
                } else {
                    ctx.ev("mul_rat_rdiv");
                    what = "mul_rat_rdiv";
                    v.mul_rat_rdiv(&vb, q.clone(), Some(lim));
                }
                want = p.iter().map(|x| x.m_div(&q)).collect();
            }
            _ => {
                ctx.ev("multiply_into_impl");
                what = "multiply_into_impl";
                v.multiply_into_impl(&vb, |x| x.m_mul(&s), Some(lim));
                want = p.iter().map(|x| x.m_mul(&s)).collect();
            }
        }
        check_dense(ctx, &v, &want, &|| format!("{} of {:?} by {:?} to degree {} (factor {:?} or {:?})", what, a, b, lim, s, q));
        ensure!(ctx, vb.size() == b.len() && differ(slice(&vb), &b).is_none(), "{} changed its right operand", what);
        // the same through the ordinary product
        let va = build::<TensorBasis<N>, S>(&a);
        let prod = va.multiply(&vb, Some(lim));
        if what == "multiply_inplace" {
            let m: Model<S> = slice(&prod).to_vec();
            check_dense(ctx, &v, &m, &|| format!("in-place against ordinary product of {:?} and {:?}", a, b));
        }
        a = slice(&v).to_vec();
        if !S::EXACT {
            // keep floats in the exactly representable range
            a = gen_operand::<N, S>(ctx, max);
            v = build::<TensorBasis<N>, S>(&a);
        }
    }
}
