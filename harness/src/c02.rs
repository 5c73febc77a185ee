//! C02: dense linear arithmetic against the reference model.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::ops::*;
use crate::scalar::*;
use rustyalgebra::free_tensor::TensorBasis;
use rustyalgebra::vector::Vector;

pub fn sizes_for_case(ctx: &mut Ctx) -> (usize, usize) {
    // (max size, max ops)
    if ctx.small {
        return (14, 5);
    }
    match ctx.rng.below(400) {
        0 => (70_000, 4),
        1..=6 => (4_200, 8),
        7..=40 => (700, 12),
        _ => (90, 25),
    }
}

pub fn run(ctx: &mut Ctx) {
    macro_rules! go {
        ($b:ty) => {
            match ctx.rng.below(8) {
                0 | 1 => case::<$b, f64>(ctx),
                2 => case::<$b, f32>(ctx),
                3 => case::<$b, Hs>(ctx),
                _ => case::<$b, Fp<0>>(ctx),
            }
        };
    }
    match ctx.rng.below(7) {
        0 => go!(TensorBasis<2>),
        1 => go!(TensorBasis<3>),
        2 => go!(TensorBasis<5>),
        3 => go!(TensorBasis<1>),
        4 => go!(IntExact),
        5 => go!(ZigBlock),
        _ => go!(TensorBasis<10>),
    }
}

pub fn case<B: TBasis, S: Sc>(ctx: &mut Ctx) {
    let (max, nops) = sizes_for_case(ctx);
    let max = span_for::<B>(max);
    let marks = B::marks(max);
    let special = !S::EXACT && ctx.rng.chance(1, 3);
    let kg = KeyGen { span: max.max(1), marks: &marks };
    let cfg = GenCfg { special, zero_scalar: true };
    let np = 3;
    let mut models: Vec<Model<S>> = (0..np)
        .map(|_| {
            let n = gen_size(&mut ctx.rng, &marks, max);
            gen_coeffs(&mut ctx.rng, n, special)
        })
        .collect();
    let mut pool: Vec<Dv<'static, B, S>> = models.iter().map(|m| build::<B, S>(m)).collect();
    ctx.note(|| format!("{}/{}", B::name(), S::NAME));
    if max <= 700 {
        let m = &models;
        let d: Vec<String> = (0..np).map(|i| format!("v{} = {:?}", i, m[i])).collect();
        ctx.step(|| format!("basis {} scalar {}; {}", B::name(), S::NAME, d.join("; ")));
    }
    for m in &models {
        let l = m.len() as u64;
        ctx.mixin(l);
    }
    let n = 1 + ctx.rng.us(nops);
    for _ in 0..n {
        let which = *ctx.rng.pick(LINEAR);
        let op: Op<S> = gen_op(&mut ctx.rng, which, np, &kg, &cfg);
        ctx.step(|| format!("{:?}", op));
        ctx.ev(op.kind());
        let code = op.code();
        ctx.mixin(code);
        if models.iter().any(|m| m.iter().any(|x| !x.is_zero())) {
            ctx.nontrivial = true;
        }
        apply(&op, &mut pool, &|i| B::mk(i));
        apply_model(&op, &mut models, true);
        for i in 0..np {
            check_dense(ctx, &pool[i], &models[i], &|| format!("after {:?}, v{}", op, i));
        }
        if ctx.rng.chance(1, 4) {
            equality(ctx, &pool, &models);
        }
        if ctx.rng.chance(1, 6) {
            forms(ctx, &pool, &models, &cfg);
        }
    }
    for _ in 0..3 {
        let i = ctx.rng.us(np);
        let k = kg.key(&mut ctx.rng);
        if k <= B::top() {
            check_access(ctx, &pool[i], &models[i], k);
        }
    }
}

/// value forms against in-place forms, small-integer scalars
fn forms<B: TBasis, S: Sc>(ctx: &mut Ctx, pool: &[Dv<'static, B, S>], models: &[Model<S>], cfg: &GenCfg) {
    let a = ctx.rng.us(pool.len());
    let b = ctx.rng.us(pool.len());
    let k = ctx.rng.below(19) as i64 - 9;
    let k = if k == 0 && !cfg.zero_scalar { 1 } else { k };
    ctx.ev("integer scalar forms");
    let s = S::m_int(k);
    let want: Model<S> = models[a].iter().map(|x| x.m_mul(&s)).collect();
    let mut t = Vector::to_owned(&pool[a]);
    match ctx.rng.below(6) {
        0 => t = t.scalar_lmultiply(k as i8),
        1 => t = t.scalar_rmultiply(k as i16),
        2 => {
            t.scalar_lmultiply_inplace(k as i8);
        }
        3 => {
            t.scalar_rmultiply_inplace(k as i16);
        }
        4 => {
            // via fused form on a zero vector
            t = Dv::<B, S>::new();
            t.add_scalar_lmultiply(&pool[a], k as i8);
        }
        _ => {
            t = Dv::<B, S>::new();
            t.sub_scalar_rmultiply(&pool[a], -k as i16);
        }
    }
    check_dense(ctx, &t, &want, &|| format!("v{} times integer {}", a, k));
    let q = if k == 0 { 3 } else { k };
    let qq = S::m_q(q);
    let want: Model<S> = (0..models[a].len().max(models[b].len()))
        .map(|i| at(&models[b], i).m_add(&at(&models[a], i).m_div(&qq)))
        .collect();
    let mut t = Vector::to_owned(&pool[b]);
    t.add_scalar_rdivide(&pool[a], qq.clone());
    check_dense(ctx, &t, &want, &|| format!("v{} + v{}/{}", b, a, q));
    // chained through the returned reference
    let mut t = Vector::to_owned(&pool[a]);
    t.add_inplace(&pool[b]).sub_inplace(&pool[a]).uminus_inplace();
    let want: Model<S> = (0..models[a].len().max(models[b].len()))
        .map(|i| at(&models[a], i).m_add(&at(&models[b], i)).m_sub(&at(&models[a], i)).m_neg())
        .collect();
    check_dense(ctx, &t, &want, &|| format!("-(v{} + v{} - v{})", a, b, a));
    ctx.ev("chained in-place forms");
}

fn equality<B: TBasis, S: Sc>(ctx: &mut Ctx, pool: &[Dv<'static, B, S>], models: &[Model<S>]) {
    let a = ctx.rng.us(pool.len());
    let n = pool[a].size();
    let copy = Vector::to_owned(&pool[a]);
    ensure!(ctx, copy.size() == n, "copy of v{} has size {} instead of {}", a, copy.size(), n);
    let selfeq = slice(&pool[a]).iter().all(|x| x == x);
    ctx.ev("equality");
    ensure!(
        ctx,
        (pool[a] == copy) == selfeq && (copy == pool[a]) == selfeq,
        "v{} == copy gave {}, expected {}; v{} = {:?}",
        a,
        pool[a] == copy,
        selfeq,
        a,
        models[a]
    );
    ensure!(ctx, (pool[a] != copy) != selfeq, "!= is not the negation of ==");
    if n > 0 {
        let mut t: Vec<S> = slice(&pool[a]).to_vec();
        let i = *ctx.rng.pick(&[0, n - 1, n / 2]);
        let i = if ctx.rng.chance(1, 2) { i } else { ctx.rng.us(n) };
        let d = S::gen(&mut ctx.rng, false);
        t[i] = t[i].m_add(&d);
        let eq = slice(&pool[a]).iter().zip(&t).all(|(x, y)| x == y);
        let w = build::<B, S>(&t);
        ensure!(
            ctx,
            (pool[a] == w) == eq && (w == pool[a]) == eq,
            "comparing vectors that {} at index {} of {} gave {}",
            if eq { "agree" } else { "differ" },
            i,
            n,
            pool[a] == w
        );
    }
    for b in 0..pool.len() {
        if pool[b].size() == n {
            let eq = slice(&pool[a]).iter().zip(slice(&pool[b])).all(|(x, y)| x == y);
            ensure!(ctx, (pool[a] == pool[b]) == eq, "v{} == v{} gave {}, expected {}", a, b, !eq, eq);
        }
    }
}
