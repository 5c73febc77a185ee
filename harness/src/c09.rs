//! C09: truncated concatenation product, multiply-accumulate, commutator.
use crate::ctx::{quietly, Ctx};
use crate::dense::*;
use crate::ensure;
use crate::ops::{at, Model};
use crate::scalar::*;
use crate::tensor::*;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use rustyalgebra::vector::Vector;

pub fn run(ctx: &mut Ctx) {
    macro_rules! go {
        ($n:literal) => {
            match ctx.rng.below(8) {
                0 | 1 => case::<$n, f64>(ctx),
                2 => case::<$n, f32>(ctx),
                3 => case::<$n, Hs>(ctx),
                _ => case::<$n, Fp<0>>(ctx),
            }
        };
    }
    macro_rules! wide {
        ($($n:literal)*) => {{
            const W: &[u32] = &[$($n),*];
            let fp = ctx.rng.chance(2, 3);
            match *ctx.rng.pick(W) {
                $($n => if fp { case::<$n, Fp<0>>(ctx) } else { case::<$n, f64>(ctx) },)*
                _ => unreachable!(),
            }
        }};
    }
    match ctx.rng.below(16) {
        14 | 15 => wide!(6 8 9 12 17 20 26 32 64 100 255 256),
        0 => go!(1),
        1 | 2 | 3 => go!(2),
        4 | 5 | 6 => go!(3),
        7 | 8 => go!(4),
        9 => go!(5),
        10 => go!(7),
        11 => go!(10),
        12 => go!(16),
        _ => go!(33),
    }
}

fn zipw<S: Sc>(a: &Model<S>, b: &Model<S>, f: impl Fn(&S, &S) -> S) -> Model<S> {
    (0..a.len().max(b.len())).map(|i| f(&at(a, i), &at(b, i))).collect()
}

pub fn case<const N: u32, S: Sc>(ctx: &mut Ctx) {
    let max = operand_max(&mut ctx.rng, ctx.small, N);
    let a: Vec<S> = gen_operand::<N, S>(ctx, max);
    let b: Vec<S> = if ctx.rng.chance(1, 15) { a.clone() } else { gen_operand::<N, S>(ctx, max) };
    let cap = if ctx.small { 150 } else if ctx.rng.chance(1, 150) { 70_000 } else { 6000 };
    let lim = gen_limit(&mut ctx.rng, N, deg(N, &a), deg(N, &b), cap);
    ctx.note(|| format!("width {} degrees {}x{} limit {}", N, deg(N, &a), deg(N, &b), lim.min(99)));
    ctx.mixin(N as u64 ^ ((a.len() as u64) << 16) ^ ((b.len() as u64) << 32) ^ ((lim as u64) << 48));
    let h = format!("{:?}{:?}", a, b).bytes().fold(3u64, |h, c| crate::rng::mix(h ^ c as u64));
    ctx.mixin(h);
    ctx.nontrivial = !a.is_empty() && !b.is_empty();
    ctx.step(|| format!("width {} scalar {} limit {}: a = {:?}, b = {:?}", N, S::NAME, lim, a, b));
    let va = build::<TensorBasis<N>, S>(&a);
    let vb = build::<TensorBasis<N>, S>(&b);
    let ab = product(N, &a, &b, lim);
    if ctx.rng.chance(1, 20) && a.len() * b.len() < 1500 {
        let slow = product_slow(N, &a, &b, lim);
        ensure!(ctx, differ(&slow, &ab).is_none(), "oracle disagrees with itself");
        ctx.ev("oracle cross-checks");
    }
    let unchanged = |ctx: &mut Ctx, what: &str| {
        ensure!(ctx, va.size() == a.len() && differ(slice(&va), &a).is_none(), "{} changed its left operand", what);
        ensure!(ctx, vb.size() == b.len() && differ(slice(&vb), &b).is_none(), "{} changed its right operand", what);
    };
    match ctx.rng.below(9) {
        0 | 1 | 2 => {
            ctx.ev("multiply");
            let p = if ctx.rng.chance(1, 2) { va.multiply(&vb, Some(lim)) } else { va.multiply(build::<TensorBasis<N>, S>(&b), Some(lim)) };
            check_dense(ctx, &p, &ab, &|| format!("product of {:?} and {:?} to degree {}", a, b, lim));
            unchanged(ctx, "multiply");
        }
        3 | 4 => {
            // accumulate
            let cmax = if ctx.small { 40 } else { 300 };
            let c: Vec<S> = gen_operand::<N, S>(ctx, cmax);
            let mut vc = build::<TensorBasis<N>, S>(&c);
            let sub = ctx.rng.chance(1, 2);
            ctx.step(|| format!("{} into {:?}", if sub { "sub_mul" } else { "add_mul" }, c));
            let mut want;
            if sub {
                ctx.ev("sub_mul");
                vc.sub_mul(&va, &vb, Some(lim));
                want = zipw(&c, &ab, |x, y| x.m_sub(y));
            } else {
                ctx.ev("add_mul");
                vc.add_mul(&va, &vb, Some(lim));
                want = zipw(&c, &ab, |x, y| x.m_add(y));
            }
            check_dense(ctx, &vc, &want, &|| format!("{:?} {} {:?}*{:?} to degree {}", c, if sub { "-" } else { "+" }, a, b, lim));
            unchanged(ctx, "multiply-accumulate");
            // again into the same accumulator, chained, other order and limit
            let lim2 = gen_limit(&mut ctx.rng, N, deg(N, &a), deg(N, &b), cap);
            vc.add_mul(&vb, &va, Some(lim2)).sub_mul(&va, &vb, Some(lim));
            want = zipw(&want, &product(N, &b, &a, lim2), |x, y| x.m_add(y));
            want = zipw(&want, &ab, |x, y| x.m_sub(y));
            check_dense(ctx, &vc, &want, &|| format!("second accumulation, limits {} and {}", lim2, lim));
        }
        5 => {
            ctx.ev("commutator");
            let c = va.commutator(&vb, Some(lim));
            let want = zipw(&ab, &product(N, &b, &a, lim), |x, y| x.m_sub(y));
            check_dense(ctx, &c, &want, &|| format!("commutator of {:?} and {:?} to degree {}", a, b, lim));
            unchanged(ctx, "commutator");
        }
        6 => {
            // with a scaling function
            let s = S::m_int(ctx.rng.below(9) as i64 - 4);
            let c: Vec<S> = gen_operand::<N, S>(ctx, 40);
            let mut vc = build::<TensorBasis<N>, S>(&c);
            let mut calls = 0u64;
            ctx.ev("custom function");
            vc.multiply_and_add_into_impl(
                &va,
                &vb,
                |x| {
                    calls += 1;
                    x.m_mul(&s)
                },
                Some(lim),
            );
            let want = zipw(&c, &ab, |x, y| x.m_add(&y.m_mul(&s)));
            check_dense(ctx, &vc, &want, &|| format!("accumulating {:?} times the product of {:?} and {:?}", s, a, b));
            ctx.evn("function calls", calls);
        }
        7 => {
            // no degree limit: refused
            ctx.ev("no limit");
            let r = match ctx.rng.below(4) {
                0 => quietly(|| va.multiply(&vb, None)).is_err(),
                1 => quietly(|| {
                    let mut t = build::<TensorBasis<N>, S>(&a);
                    t.add_mul(&va, &vb, None);
                })
                .is_err(),
                2 => quietly(|| {
                    let mut t = build::<TensorBasis<N>, S>(&b);
                    t.sub_mul(&va, &vb, None);
                })
                .is_err(),
                _ => quietly(|| va.commutator(&vb, None)).is_err(),
            };
            ensure!(ctx, r, "multiplying {:?} and {:?} without a degree limit was not refused", a, b);
            unchanged(ctx, "refused multiplication");
        }
        _ => {
            // algebra identities on the real code
            ctx.ev("identities");
            let unit = Tv::<N, S>::from_key(TensorKey::<N>::new());
            let full = deg(N, &a).max(deg(N, &b));
            let l = va.multiply(&unit, Some(full));
            let keep = |m: &Vec<S>| -> Model<S> { m.iter().take(crate::words::start(N, full + 1) as usize).cloned().collect() };
            check_dense(ctx, &l, &keep(&a), &|| format!("{:?} times one", a));
            let r = unit.multiply(&vb, Some(full));
            check_dense(ctx, &r, &keep(&b), &|| format!("one times {:?}", b));
            let c: Vec<S> = gen_operand::<N, S>(ctx, 12);
            let vc = build::<TensorBasis<N>, S>(&c);
            let l3 = lim.min(deg(N, &a) + deg(N, &b) + deg(N, &c));
            if crate::words::start(N, l3 + 1) < cap as u128 {
                let x = va.multiply(&vb, Some(l3)).multiply(&vc, Some(l3));
                let y = va.multiply(vb.multiply(&vc, Some(l3)), Some(l3));
                let ym: Model<S> = slice(&y).to_vec();
                check_dense(ctx, &x, &ym, &|| format!("associativity for {:?}, {:?}, {:?} to degree {}", a, b, c, l3));
                let s = va.multiply(Vector::add(&vb, &vc), Some(l3));
                let mut t = va.multiply(&vb, Some(l3));
                t.add_mul(&va, &vc, Some(l3));
                let tm: Model<S> = slice(&t).to_vec();
                check_dense(ctx, &s, &tm, &|| format!("distributivity for {:?}, {:?}, {:?} to degree {}", a, b, c, l3));
            }
        }
    }
}
