//! C11: exp, log and fused multiply-exponentiate against direct evaluation of the series.
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::ops::{at, Model};
use crate::scalar::*;
use crate::tensor::*;
use crate::words::start;
use rustyalgebra::free_tensor::{FreeTensor, TensorBasis};

macro_rules! tensors {
    ($(($n:literal, $m:literal)),* $(,)?) => {
        $(
            impl FreeTensor<'static, Fp<$m>, $n> for Dv<'static, TensorBasis<$n>, Fp<$m>> {
                const MAX_DEGREE: u32 = $m;
            }
            impl FreeTensor<'static, Fw<$m>, $n> for Dv<'static, TensorBasis<$n>, Fw<$m>> {
                const MAX_DEGREE: u32 = $m;
            }
        )*
        const COMBOS: &[(u32, u32)] = &[$(($n, $m)),*];
        fn dispatch(ctx: &mut Ctx, n: u32, m: u32, float: bool) {
            match (n, m) {
                $(($n, $m) => if float { case::<$n, $m, Fw<$m>>(ctx) } else { case::<$n, $m, Fp<$m>>(ctx) },)*
                _ => unreachable!(),
            }
        }
    };
}
tensors!(
    (1, 0), (1, 1), (1, 2), (1, 5), (1, 12),
    (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 8),
    (3, 1), (3, 2), (3, 3), (3, 4), (3, 5),
    (4, 2), (4, 3), (5, 2), (5, 3), (6, 3), (8, 2), (10, 2), (20, 2), (7, 1),
    (1, 20), (2, 7), (2, 9), (2, 10), (3, 6),
);

macro_rules! heap {
    ($(($n:literal, $m:literal)),*) => {
        $(
            impl FreeTensor<'static, Hs, $n> for Dv<'static, TensorBasis<$n>, Hs> {
                const MAX_DEGREE: u32 = $m;
            }
        )*
        /// the same cases with scalars that own heap memory
        pub fn heap_case(ctx: &mut Ctx) {
            let all: &[fn(&mut Ctx)] = &[$(case::<$n, $m, Hs>),*];
            let k = ctx.rng.us(if ctx.small { 2 } else { all.len() });
            all[k](ctx)
        }
    };
}
heap!((1, 4), (3, 2), (2, 4), (5, 3));

pub fn run(ctx: &mut Ctx) {
    loop {
        let (n, m) = *ctx.rng.pick(COMBOS);
        let size = start(n, m + 1);
        if ctx.small && size > 16 {
            continue;
        }
        if size > 150 && !ctx.rng.chance(1, 4) {
            continue;
        }
        let float = !ctx.small && ctx.rng.chance(1, 4);
        return dispatch(ctx, n, m, float);
    }
}

fn add<S: Sc>(a: &Model<S>, b: &Model<S>) -> Model<S> {
    (0..a.len().max(b.len())).map(|i| at(a, i).m_add(&at(b, i))).collect()
}
fn div<S: Sc>(a: &Model<S>, k: i64) -> Model<S> {
    let q = S::m_q(k);
    a.iter().map(|x| x.m_div(&q)).collect()
}
fn trunc<S: Sc>(n: u32, a: &Model<S>, m: u32) -> Model<S> {
    a.iter().take(start(n, m + 1) as usize).cloned().collect()
}

pub fn exp_series<S: Sc>(n: u32, x: &Model<S>, m: u32) -> Model<S> {
    let mut term: Model<S> = vec![S::m_int(1)];
    let mut sum = term.clone();
    for k in 1..=m {
        term = div(&product(n, &term, x, m), k as i64);
        sum = add(&sum, &term);
    }
    sum
}
pub fn log_series<S: Sc>(n: u32, x: &Model<S>, m: u32) -> Model<S> {
    let y = without_constant(x);
    let mut pow: Model<S> = vec![S::m_int(1)];
    let mut sum: Model<S> = vec![];
    for k in 1..=m {
        pow = product(n, &pow, &y, m);
        let t = div(&pow, if k % 2 == 1 { k as i64 } else { -(k as i64) });
        sum = add(&sum, &t);
    }
    sum
}
fn without_constant<S: Sc>(x: &Model<S>) -> Model<S> {
    let mut y = x.clone();
    if !y.is_empty() {
        y[0] = S::m_int(0);
    }
    y
}

/// exact comparison in the prime field; for floats relative to `bound`, the same series evaluated
/// on magnitudes (no cancellation), so that any order of evaluation passes
fn check<const N: u32, S: Sc>(ctx: &mut Ctx, v: &Tv<N, S>, want: &Model<S>, bound: &dyn Fn() -> Model<S>, what: &dyn Fn() -> String) {
    if S::EXACT {
        check_dense(ctx, v, want, what);
        return;
    }
    let s = slice(v);
    let scale = bound().iter().map(|x| x.mag()).fold(1.0, f64::max);
    ctx.evn("coefficients compared", s.len().max(want.len()) as u64);
    for i in 0..s.len().max(want.len()) {
        let g = s.get(i).cloned().unwrap_or_else(|| S::m_int(0));
        let d = g.m_sub(&at(want, i)).mag();
        if !(d <= scale * 1e-11) {
            ctx.fail(format!("{}: coefficient at index {} is {:?}, expected about {:?}", what(), i, g, at(want, i)));
        }
    }
}
fn abs<S: Sc>(x: &Model<S>) -> Model<S> {
    x.iter().map(|c| S::m_abs(c)).collect()
}
/// sum of y^k for k = 0..m
fn powers<S: Sc>(n: u32, y: &Model<S>, m: u32) -> Model<S> {
    let mut pow: Model<S> = vec![S::m_int(1)];
    let mut sum = pow.clone();
    for _ in 1..=m {
        pow = product(n, &pow, y, m);
        sum = add(&sum, &pow);
    }
    sum
}

fn case<const N: u32, const M: u32, S: Sc>(ctx: &mut Ctx)
where
    Tv<N, S>: FreeTensor<'static, S, N>,
{
    // arguments may be shorter or longer than the maximum degree
    let full = start(N, M + 1) as usize;
    let max = (full + full / 3 + 2).min(start(N, <TensorBasis<N>>::max_degree() + 1) as usize);
    let x: Vec<S> = {
        let mut v: Vec<S> = gen_operand::<N, S>(ctx, max);
        if ctx.rng.chance(1, 4) {
            v = gen_tensor(&mut ctx.rng, full);
        }
        v
    };
    ctx.note(|| format!("width {} max degree {} {}", N, M, S::NAME));
    let h = format!("{}/{}/{:?}", N, M, x).bytes().fold(3u64, |h, c| crate::rng::mix(h ^ c as u64));
    ctx.mixin(h);
    ctx.nontrivial = x.iter().any(|c| !c.is_zero());
    let vx = build::<TensorBasis<N>, S>(&x);
    match ctx.rng.below(if S::EXACT { 7 } else { 5 }) {
        0 | 1 => {
            ctx.step(|| format!("width {} max degree {}: exp of {:?}", N, M, x));
            ctx.ev("exp");
            let e = vx.exp();
            check(ctx, &e, &exp_series(N, &x, M), &|| exp_series(N, &abs(&x), M), &|| format!("width {} max degree {}: exp({:?})", N, M, x));
        }
        2 => {
            ctx.step(|| format!("width {} max degree {}: log of {:?}", N, M, x));
            ctx.ev("log");
            let l = vx.log();
            check(ctx, &l, &log_series(N, &x, M), &|| powers(N, &abs(&without_constant(&x)), M), &|| format!("width {} max degree {}: log({:?})", N, M, x));
        }
        3 | 4 => {
            let a: Vec<S> = if ctx.rng.chance(1, 5) { vec![S::m_int(1)] } else { gen_operand::<N, S>(ctx, full) };
            ctx.step(|| format!("width {} max degree {}: {:?} fmexp {:?}", N, M, a, x));
            let h = format!("{:?}", a).bytes().fold(3u64, |h, c| crate::rng::mix(h ^ c as u64));
            ctx.mixin(h);
            ctx.ev("fmexp");
            let mut va = build::<TensorBasis<N>, S>(&a);
            if ctx.rng.chance(1, 2) {
                va.fmexp(&vx);
            } else {
                va.fmexp(build::<TensorBasis<N>, S>(&x));
            }
            let want = product(N, &a, &exp_series(N, &without_constant(&x), M), M);
            check(ctx, &va, &want, &|| product(N, &abs(&a), &exp_series(N, &abs(&x), M), M), &|| format!("width {} max degree {}: {:?} times exp of {:?}", N, M, a, x));
        }
        _ => {
            // round trips
            let mut y = trunc(N, &x, M);
            if !y.is_empty() {
                y[0] = S::m_int(0);
            }
            let vy = build::<TensorBasis<N>, S>(&y);
            ctx.step(|| format!("width {} max degree {}: round trips of {:?}", N, M, y));
            ctx.ev("round trips");
            let back = vy.exp().log();
            check_dense(ctx, &back, &y, &|| format!("width {} max degree {}: log(exp({:?}))", N, M, y));
            let mut one: Model<S> = vec![S::m_int(1)];
            one = add(&one, &y);
            let v1 = build::<TensorBasis<N>, S>(&one);
            let back = v1.log().exp();
            check_dense(ctx, &back, &one, &|| format!("width {} max degree {}: exp(log({:?}))", N, M, one));
        }
    }
    ensure!(ctx, vx.size() == x.len() && differ(slice(&vx), &x).is_none(), "the argument was changed");
}
