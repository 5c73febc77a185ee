//! C05: wrappers against the bare vector, same history.
use crate::bases::*;
use crate::c04::{SKey, Sv};
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::ops::*;
use crate::scalar::*;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis};
use rustyalgebra::vector::{Vector, VectorKeyExt};
use std::ops::{Deref, DerefMut};

/// A user-defined wrapper with extra state.
pub struct Tagged<V> {
    pub tag: u32,
    pub v: V,
}
impl<V: PartialEq> PartialEq for Tagged<V> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<V> Deref for Tagged<V> {
    type Target = V;
    fn deref(&self) -> &V {
        &self.v
    }
}
impl<V> DerefMut for Tagged<V> {
    fn deref_mut(&mut self) -> &mut V {
        &mut self.v
    }
}
impl<V> From<V> for Tagged<V> {
    fn from(v: V) -> Self {
        Tagged { tag: 0, v }
    }
}

pub type D<const N: u32, S> = Dv<'static, TensorBasis<N>, S>;

pub fn run(ctx: &mut Ctx) {
    match ctx.rng.below(9) {
        0 => dense::<TensorBasis<2>, f64, DenseTensor<'static, f64, 2>>(ctx, "DenseTensor<2>"),
        1 => dense::<TensorBasis<3>, Fp<0>, DenseTensor<'static, Fp<0>, 3>>(ctx, "DenseTensor<3>"),
        2 => dense::<TensorBasis<5>, Hs, DenseTensor<'static, Hs, 5>>(ctx, "DenseTensor<5>"),
        3 => dense::<TensorBasis<2>, Fp<0>, Box<D<2, Fp<0>>>>(ctx, "Box<dense>"),
        4 => dense::<IntExact, f32, Tagged<Dv<'static, IntExact, f32>>>(ctx, "custom<dense>"),
        5 => sparse::<Fp<0>, Box<Sv<IntExact, Fp<0>, Z>>>(ctx, "Box<sparse>"),
        6 => sparse::<f64, Tagged<Sv<IntExact, f64, Z>>>(ctx, "custom<sparse>"),
        7 => nested(ctx),
        _ => conversions(ctx),
    }
}

fn opt_same<S: Sc>(a: Option<&S>, b: Option<&S>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.same(y),
        _ => false,
    }
}

/// Apply one history to wrappers and bare vectors; compare through every access path.
fn drive<S, K, U, W>(
    ctx: &mut Ctx,
    name: &'static str,
    span: usize,
    marks: &[usize],
    mk: &dyn Fn(usize) -> K,
    same_inner: &dyn Fn(&U, &U) -> bool,
) where
    S: Sc,
    K: Clone + 'static,
    U: Vector<'static, KeyType = K, ScalarType = S, RationalType = <S as Sc>::Q>,
    W: Vector<'static, KeyType = K, ScalarType = S, RationalType = <S as Sc>::Q> + Deref<Target = U> + DerefMut + From<U>,
{
    let kg = KeyGen { span, marks };
    let special = !S::EXACT && ctx.rng.chance(1, 4);
    let cfg = GenCfg { special, zero_scalar: !special };
    let np = 3;
    let mut bare: Vec<U> = (0..np).map(|_| U::new()).collect();
    let mut wrap: Vec<W> = (0..np).map(|_| W::new()).collect();
    ctx.note(|| format!("{}/{}", name, S::NAME));
    ctx.step(|| format!("wrapper {} scalar {}", name, S::NAME));
    let n = if ctx.small { 6 } else { 4 + ctx.rng.us(30) };
    for j in 0..n {
        let which = if j < 2 {
            25
        } else if ctx.rng.chance(1, 2) {
            *ctx.rng.pick(LINEAR)
        } else {
            *ctx.rng.pick(MAP)
        };
        let op: Op<S> = gen_op(&mut ctx.rng, which, np, &kg, &cfg);
        ctx.step(|| format!("{:?}", op));
        ctx.ev(op.kind());
        let code = op.code();
        ctx.mixin(code);
        let rb = apply(&op, &mut bare, mk);
        let rw = apply(&op, &mut wrap, mk);
        ensure!(ctx, rb == rw, "{:?}: bare found the key: {}, wrapped: {}", op, rb, rw);
        ctx.nontrivial = true;
        for i in 0..np {
            ctx.ev("wrapper/bare comparisons");
            ensure!(ctx, same_inner(wrap[i].deref(), &bare[i]), "after {:?}: wrapped v{} differs from the bare vector", op, i);
        }
        // element access through the wrapper
        for _ in 0..3 {
            let i = ctx.rng.us(np);
            let k = mk(kg.key(&mut ctx.rng));
            ctx.ev("wrapped get/get_mut");
            let b = Vector::get(&bare[i], &k).cloned();
            ensure!(ctx, opt_same(Vector::get(&wrap[i], &k), b.as_ref()), "wrapped get of v{} differs from the bare get {:?} after {:?}", i, b, op);
            ensure!(ctx, opt_same(Vector::get(&wrap[i], k.clone()), b.as_ref()), "wrapped get by value differs after {:?}", op);
            let bm = Vector::get_mut(&mut bare[i], &k).map(|x| x.clone());
            let wm = Vector::get_mut(&mut wrap[i], &k).map(|x| x.clone());
            ensure!(ctx, opt_same(wm.as_ref(), bm.as_ref()), "wrapped get_mut {:?} differs from bare {:?} after {:?}", wm, bm, op);
        }
        // equality
        let (a, b) = (ctx.rng.us(np), ctx.rng.us(np));
        let be = bare[a] == bare[b];
        ctx.ev("equality");
        ensure!(ctx, (wrap[a] == wrap[b]) == be, "wrapped v{} == v{} gave {}, bare {}", a, b, !be, be);
        if ctx.rng.chance(1, 5) {
            // out of and back into the wrapper
            let i = ctx.rng.us(np);
            let u: U = Vector::to_owned(wrap[i].deref());
            ensure!(ctx, same_inner(&u, &bare[i]), "unwrapped copy differs");
            wrap[i] = W::from(u);
            ensure!(ctx, same_inner(wrap[i].deref(), &bare[i]), "wrapping changed the vector");
            ctx.ev("round trips");
        }
        if ctx.rng.chance(1, 6) {
            // writes through the dereferenced vector and chained calls
            let i = ctx.rng.us(np);
            let k = kg.key(&mut ctx.rng);
            let s = S::gen(&mut ctx.rng, special);
            wrap[i].deref_mut().insert_single(&mk(k), s.clone());
            bare[i].insert_single(&mk(k), s.clone());
            wrap[i].uminus_inplace().add_scalar_multiply(mk(k), s.clone()).uminus_inplace();
            bare[i].uminus_inplace().add_scalar_multiply(mk(k), s.clone()).uminus_inplace();
            ensure!(ctx, same_inner(wrap[i].deref(), &bare[i]), "chained calls on the wrapper differ");
            ctx.ev("chained calls");
        }
    }
}

pub fn dense<B, S, W>(ctx: &mut Ctx, name: &'static str)
where
    B: TBasis,
    S: Sc,
    W: Vector<'static, KeyType = <B as TBasis>::K, ScalarType = S, RationalType = <S as Sc>::Q>
        + Deref<Target = Dv<'static, B, S>>
        + DerefMut
        + From<Dv<'static, B, S>>,
{
    let span = span_for::<B>(if ctx.small { 14 } else if ctx.rng.chance(1, 120) { 4_200 } else { *ctx.rng.pick(&[6usize, 20, 60, 300]) });
    let marks = B::marks(span);
    drive::<S, <B as TBasis>::K, Dv<'static, B, S>, W>(ctx, name, span, &marks, &|i| B::mk(i), &|a, b| {
        let (x, y) = (slice(a), slice(b));
        x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.same(q))
    });
}

pub fn sparse<S, W>(ctx: &mut Ctx, name: &'static str)
where
    S: Sc,
    W: Vector<'static, KeyType = Z, ScalarType = S, RationalType = <S as Sc>::Q>
        + Deref<Target = Sv<IntExact, S, Z>>
        + DerefMut
        + From<Sv<IntExact, S, Z>>,
{
    let span = if ctx.small { 6 } else if ctx.rng.chance(1, 60) { 1_500 } else { *ctx.rng.pick(&[5usize, 12, 40]) };
    drive::<S, Z, Sv<IntExact, S, Z>, W>(ctx, name, span, &[], &|i| <Z as SKey>::mk(i), &|a, b| {
        let n = |v: &Sv<IntExact, S, Z>| v.into_iter().count();
        n(a) == n(b) && a.into_iter().all(|(k, x)| opt_same(Vector::get(b, k), Some(x)))
    });
}

/// a wrapper around a wrapper
pub fn nested(ctx: &mut Ctx) {
    type T = DenseTensor<'static, Fp<0>, 3>;
    let span = if ctx.small { 13 } else { 45 };
    let marks = <TensorBasis<3> as TBasis>::marks(span);
    drive::<Fp<0>, _, T, Box<T>>(ctx, "Box<DenseTensor<3>>", span, &marks, &|i| <TensorBasis<3> as TBasis>::mk(i), &|a, b| {
        let (x, y) = (slice(a.deref()), slice(b.deref()));
        x == y
    });
}

/// converting to and from the wrapped vector
pub fn conversions(ctx: &mut Ctx) {
    fn go<S: Sc, const N: u32>(ctx: &mut Ctx) {
        let max = if ctx.small { 15 } else if ctx.rng.chance(1, 60) { 9_000 } else { 300 };
        let marks = <TensorBasis<N> as TBasis>::marks(max);
        let n = gen_size(&mut ctx.rng, &marks, max);
        let m: Vec<S> = gen_coeffs(&mut ctx.rng, n, !S::EXACT);
        ctx.step(|| format!("convert {:?}", m));
        ctx.ev("conversions");
        ctx.mixin(n as u64);
        ctx.nontrivial = n > 0;
        let v = build::<TensorBasis<N>, S>(&m);
        let t: DenseTensor<'static, S, N> = v.into();
        ensure!(ctx, t.deref().size() == n && differ(slice(t.deref()), &m).is_none(), "wrapping changed the vector {:?}", m);
        let back: Dv<'static, TensorBasis<N>, S> = t.into();
        ensure!(ctx, back.size() == n && differ(slice(&back), &m).is_none(), "unwrapping changed the vector {:?}", m);
        let t2 = DenseTensor::<'static, S, N>::from(back);
        let c = Vector::to_owned(&t2);
        ensure!(ctx, slice(c.deref()).len() == n && differ(slice(c.deref()), &m).is_none(), "copy of the wrapper differs");
    }
    match ctx.rng.below(3) {
        0 => go::<Fp<0>, 2>(ctx),
        1 => go::<f64, 3>(ctx),
        _ => go::<Hs, 4>(ctx),
    }
}
