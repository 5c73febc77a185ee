//! C01: the workloads of the other properties plus hostile ones, judged only on memory behaviour:
//! sanitizer reports, aborts, and conservation of heap-owning scalars.
use crate::bases::*;
use crate::c04::{Coll, Sv, SB};
use crate::ctx::{quietly, Ctx, Violation};
use crate::dense::*;
use crate::ops::*;
use crate::scalar::*;
use rustyalgebra::algebra::Algebra;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector, VectorWithDegree};

/// A case; some are run again with the same choices to see whether every run leaves more memory
/// allocated than it found.
pub fn run(ctx: &mut Ctx) {
    let rng = ctx.rng.clone();
    once(ctx);
    if cfg!(miri) || ctx.case % 3 != 0 {
        return;
    }
    let wanted = ctx.want_desc;
    let desc = std::mem::take(&mut ctx.describe);
    ctx.want_desc = false;
    let mut grown = i64::MAX;
    for _ in 0..4 {
        let before = crate::memory::live();
        ctx.rng = rng.clone();
        once(ctx);
        grown = grown.min(crate::memory::live() - before);
        if grown <= 0 {
            break;
        }
    }
    ctx.describe = desc;
    ctx.want_desc = wanted;
    ctx.ev("memory balances checked");
    if grown > 0 {
        std::panic::panic_any(Violation(format!("each run of this history leaks at least {} bytes", grown)));
    }
}

fn once(ctx: &mut Ctx) {
    ctx.judge = false;
    heap_reset();
    let made0 = heap_made();
    set_fuse(-1);
    let seed = ctx.rng.u64();
    wobble_seed(seed);
    let pick = ctx.rng.below(20);
    let injected = match pick {
        // heap scalars, with a panic injected at some scalar operation most of the time
        0..=9 => {
            let r = if ctx.small { 120 } else { 3000 };
            let f = match ctx.rng.below(5) {
                0 => -1,
                1 => ctx.rng.below(20) as i64,
                _ => ctx.rng.below(r) as i64,
            };
            set_fuse(f);
            ctx.mixin(f as u64);
            let had = f >= 0;
            ctx.step(|| format!("heap scalars, injected panic after {} scalar operations", f));
            let res = quietly(|| heap_work(ctx));
            let fired = had && fuse() < 0;
            set_fuse(-1);
            if res.is_err() {
                ctx.ev(if fired { "injected panics" } else { "panics" });
            }
            ctx.nontrivial = true;
            fired
        }
        10..=13 => {
            let res = quietly(|| if ctx.rng.chance(1, 4) { lying_vectors(ctx) } else { liars(ctx) });
            if res.is_err() {
                ctx.ev("panics");
            }
            ctx.nontrivial = true;
            false
        }
        _ => {
            let res = quietly(|| mixed(ctx));
            if res.is_err() {
                ctx.ev("panics");
            }
            ctx.nontrivial = true;
            false
        }
    };
    let live = heap_live();
    let made = heap_made() - made0;
    ctx.mixin(made);
    ctx.evn("heap scalars followed", made);
    ctx.judge = true;
    if live != 0 {
        std::panic::panic_any(Violation(format!(
            "{} heap scalars of {} made {}{}",
            live.abs(),
            made,
            if live > 0 { "were never dropped" } else { "were dropped twice" },
            if injected { " (after an injected scalar panic)" } else { "" }
        )));
    }
    if injected {
        ctx.ev("histories with a fault");
    }
}

fn heap_work(ctx: &mut Ctx) {
    type B2 = TensorBasis<2>;
    type B3 = TensorBasis<3>;
    match ctx.rng.below(16) {
        14 => crate::c11::heap_case(ctx),
        #[cfg(verif_hooks)]
        15 => crate::c13::heap_case(ctx),
        0 => crate::c02::case::<B2, Hs>(ctx),
        1 => crate::c02::case::<ZigBlock, Hs>(ctx),
        2 => crate::c03::case::<B3, Hs>(ctx, |v| Some(v.degree())),
        3 => crate::c03::case::<IntExact, Hs>(ctx, |_| None),
        4 => crate::c04::case::<SB<String>, String, Hs>(ctx),
        5 => crate::c04::case::<SB<Coll>, Coll, Hs>(ctx),
        6 => crate::c05::dense::<TensorBasis<5>, Hs, DenseTensor<'static, Hs, 5>>(ctx, "DenseTensor<5>"),
        7 => crate::c05::sparse::<Hs, Box<Sv<IntExact, Hs, Z>>>(ctx, "Box<sparse>"),
        8 => crate::c09::case::<2, Hs>(ctx),
        9 => crate::c09::case::<3, Hs>(ctx),
        10 => crate::c09::case::<1, Hs>(ctx),
        11 => crate::c10::case::<2, Hs>(ctx),
        12 => crate::c10::case::<3, Hs>(ctx),
        _ => chains::<Hs>(ctx),
    }
}

fn mixed(ctx: &mut Ctx) {
    match ctx.rng.below(14) {
        0 => crate::c02::run(ctx),
        1 => crate::c03::run(ctx),
        2 => crate::c04::run(ctx),
        3 => crate::c05::run(ctx),
        4 => crate::c06::run(ctx),
        5 => crate::c07::run(ctx),
        6 => crate::c08::run(ctx),
        7 => crate::c09::run(ctx),
        8 => crate::c10::run(ctx),
        9 => crate::c11::run(ctx),
        10 => crate::c16::run(ctx),
        #[cfg(verif_hooks)]
        12 | 13 => crate::c13::run(ctx),
        _ => chains::<Fp<0>>(ctx),
    }
}

/// tensors of exact capacity, odd sizes, products into odd accumulators, many limits
fn chains<S: Sc>(ctx: &mut Ctx) {
    fn go<const N: u32, S: Sc>(ctx: &mut Ctx) {
        let max = if ctx.small { 12 } else { 60 };
        let mut pool: Vec<Dv<'static, TensorBasis<N>, S>> = (0..3)
            .map(|_| {
                let n = ctx.rng.us(max + 1);
                let c: Vec<S> = gen_coeffs(&mut ctx.rng, n, false);
                build::<TensorBasis<N>, S>(&c)
            })
            .collect();
        let sizes: Vec<usize> = pool.iter().map(|v| v.size()).collect();
        ctx.step(|| format!("tensor chain width {} sizes {:?}", N, sizes));
        for _ in 0..(if ctx.small { 3 } else { 8 }) {
            let (d, a, b) = (ctx.rng.us(3), ctx.rng.us(3), ctx.rng.us(3));
            let full = pool[a].degree() + pool[b].degree();
            let mut lim = ctx.rng.below(full as u64 + 2) as u32;
            while crate::words::start(N, lim + 1) > if ctx.small { 130 } else { 1500 } {
                lim -= 1;
            }
            let (x, y) = (pool[a].clone(), pool[b].clone());
            let op = ctx.rng.below(7);
            ctx.step(|| format!("op {} on sizes {} {} {} to degree {}", op, pool[d].size(), x.size(), y.size(), lim));
            ctx.ev("tensor chain operations");
            ctx.mixin(op ^ ((lim as u64) << 8) ^ ((x.size() as u64) << 16) ^ ((y.size() as u64) << 32));
            match op {
                0 => pool[d] = x.multiply(&y, Some(lim)),
                1 => {
                    pool[d].add_mul(&x, &y, Some(lim));
                }
                2 => {
                    pool[d].sub_mul(&x, &y, Some(lim));
                }
                3 => {
                    pool[a].multiply_inplace(&y, Some(lim));
                }
                4 => pool[d] = x.commutator(&y, Some(lim)),
                5 => {
                    let n = ctx.rng.us(max + 1);
                    pool[d].resize(n);
                    let s = DenseVector::as_slice(&pool[d]).to_vec();
                    pool[d] = build::<TensorBasis<N>, S>(&s);
                }
                _ => {
                    let i = ctx.rng.us(max);
                    let w = crate::words::unrank(N, i as u128);
                    pool[d].insert_single(&TensorKey::<N>::from_letters(&w), S::m_int(3));
                }
            }
            if pool.iter().any(|v| v.size() > 1600) {
                pool[d].resize(10);
            }
        }
    }
    match ctx.rng.below(5) {
        0 => go::<1, S>(ctx),
        1 => go::<2, S>(ctx),
        2 => go::<3, S>(ctx),
        3 => go::<4, S>(ctx),
        _ => go::<7, S>(ctx),
    }
}

struct LyingIter<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for LyingIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

fn liars(ctx: &mut Ctx) {
    macro_rules! go {
        ($b:ty) => {
            if ctx.rng.chance(1, 2) { liar_case::<$b, Hs>(ctx) } else { liar_case::<$b, f64>(ctx) }
        };
    }
    match ctx.rng.below(6) {
        0 => go!(LiarExact),
        1 => go!(LiarZero),
        2 => go!(LiarHalf),
        3 => go!(LiarConst),
        4 => go!(LiarShift),
        _ => go!(LiarWobble),
    }
}

fn liar_case<B: TBasis, S: Sc>(ctx: &mut Ctx) {
    let span = 40;
    let kg = KeyGen { span, marks: &[] };
    let cfg = GenCfg { special: false, zero_scalar: true };
    ctx.note(|| format!("misreporting basis {}/{}", B::name(), S::NAME));
    ctx.step(|| format!("misreporting basis {} scalar {}", B::name(), S::NAME));
    let mut pool: Vec<Dv<'static, B, S>> = (0..3)
        .map(|_| {
            let n = ctx.rng.us(12);
            let c: Vec<S> = gen_coeffs(&mut ctx.rng, n, false);
            build::<B, S>(&c)
        })
        .collect();
    let n = if ctx.small { 4 } else { 12 };
    for _ in 0..n {
        let which = if ctx.rng.chance(1, 4) { *ctx.rng.pick(LINEAR) } else { *ctx.rng.pick(MAP) };
        let op: Op<S> = gen_op(&mut ctx.rng, which, 3, &kg, &cfg);
        ctx.step(|| format!("{:?}", op));
        ctx.ev("operations over misreporting bases");
        let c = op.code();
        ctx.mixin(c);
        if quietly(|| apply(&op, &mut pool, &|i| B::mk(i))).is_err() {
            ctx.ev("refused operations");
        }
        if ctx.rng.chance(1, 4) {
            let l: Vec<(usize, S)> = gen_list(&mut ctx.rng, &kg, &cfg, true, 9);
            let lo = ctx.rng.us(12);
            let hint = (lo, if ctx.rng.chance(1, 2) { Some(ctx.rng.us(12)) } else { None });
            let d = ctx.rng.us(3);
            ctx.step(|| format!("v{} = from_iterator {:?} with size hint {:?}", d, l, hint));
            ctx.ev("iterators with a false size hint");
            let r = quietly(|| {
                Dv::<'static, B, S>::from_iterator(LyingIter(l.iter().map(|(k, s)| (B::mk(*k), s.clone())), hint))
            });
            if let Ok(v) = r {
                pool[d] = v;
            }
        }
    }
}

/// A user's own dense tensor type: a wrapper that supplies size, degree and storage itself, and wrongly.
struct Liar<const N: u32, S: Sc> {
    v: Dv<'static, TensorBasis<N>, S>,
    tick: std::cell::Cell<u64>,
}
impl<const N: u32, S: Sc> Liar<N, S> {
    /// a number that changes with every question
    fn lie(&self, n: u64) -> u64 {
        let t = crate::rng::mix(self.tick.get().wrapping_add(1));
        self.tick.set(t);
        t % n
    }
}
impl<const N: u32, S: Sc> std::ops::Deref for Liar<N, S> {
    type Target = Dv<'static, TensorBasis<N>, S>;
    fn deref(&self) -> &Self::Target {
        &self.v
    }
}
impl<const N: u32, S: Sc> std::ops::DerefMut for Liar<N, S> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.v
    }
}
impl<const N: u32, S: Sc> From<Dv<'static, TensorBasis<N>, S>> for Liar<N, S> {
    fn from(v: Dv<'static, TensorBasis<N>, S>) -> Self {
        let tick = std::cell::Cell::new(v.size() as u64);
        Liar { v, tick }
    }
}
impl<const N: u32, S: Sc> PartialEq for Liar<N, S> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<const N: u32, S: Sc> DenseVector<'static> for Liar<N, S> {
    fn as_slice(&self) -> &[S] {
        let s = DenseVector::as_slice(&self.v);
        if self.lie(4) == 0 { &s[..self.lie(s.len() as u64 + 1) as usize] } else { s }
    }
    fn as_mut_slice(&mut self) -> &mut [S] {
        let cut = if self.lie(8) == 0 { Some(self.lie(self.v.size() as u64 + 1) as usize) } else { None };
        let s = DenseVector::as_mut_slice(&mut self.v);
        match cut {
            Some(n) => &mut s[..n],
            None => s,
        }
    }
}
impl<const N: u32, S: Sc> ResizeableDenseVector<'static> for Liar<N, S> {
    fn resize(&mut self, n: usize) {
        match self.lie(6) {
            0 => {}
            1 => self.v.resize(n / 2),
            2 => self.v.resize(n + 1),
            3 => self.v.resize(n.saturating_sub(1)),
            _ => self.v.resize(n),
        }
    }
}
impl<const N: u32, S: Sc> VectorWithDegree<'static> for Liar<N, S> {
    fn degree(&self) -> u32 {
        match self.lie(3) {
            0 => self.lie(5) as u32,
            1 => self.v.degree() + 1,
            _ => self.v.degree(),
        }
    }
}

fn lying_vectors(ctx: &mut Ctx) {
    fn go<const N: u32, S: Sc>(ctx: &mut Ctx) {
        let max = if ctx.small { 10 } else { 40 };
        let mut pool: Vec<Liar<N, S>> = (0..3)
            .map(|_| {
                let n = ctx.rng.us(max + 1);
                let c: Vec<S> = gen_coeffs(&mut ctx.rng, n, false);
                let l = Liar::from(build::<TensorBasis<N>, S>(&c));
                l.tick.set(ctx.rng.u64());
                l
            })
            .collect();
        ctx.note(|| format!("misreporting vectors {}/{}", N, S::NAME));
        for _ in 0..(if ctx.small { 3 } else { 8 }) {
            let (d, a, b) = (ctx.rng.us(3), ctx.rng.us(3), ctx.rng.us(3));
            let lim = ctx.rng.below(4) as u32;
            let op = ctx.rng.below(5);
            let (x, y) = (Liar::from(pool[a].v.clone()), Liar::from(pool[b].v.clone()));
            x.tick.set(ctx.rng.u64());
            y.tick.set(ctx.rng.u64());
            ctx.step(|| format!("op {} on misreporting vectors of sizes {} {} {} to degree {}", op, pool[d].v.size(), x.v.size(), y.v.size(), lim));
            ctx.ev("operations on misreporting vectors");
            ctx.mixin(op ^ ((lim as u64) << 8) ^ ((x.v.size() as u64) << 16) ^ ((y.v.size() as u64) << 32));
            let r = quietly(|| match op {
                0 => pool[d] = x.multiply(&y, Some(lim)),
                1 => {
                    pool[d].add_mul(&x, &y, Some(lim));
                }
                2 => {
                    pool[d].sub_mul(&x, &y, Some(lim));
                }
                3 => {
                    pool[a].multiply_inplace(&y, Some(lim));
                }
                _ => pool[d] = x.commutator(&y, Some(lim)),
            });
            if r.is_err() {
                ctx.ev("refused operations");
            }
            if pool.iter().any(|v| v.v.size() > 1600) {
                pool[d].v.resize(10);
            }
        }
    }
    match ctx.rng.below(4) {
        0 => go::<2, Hs>(ctx),
        1 => go::<3, Hs>(ctx),
        2 => go::<3, f64>(ctx),
        _ => go::<5, Fp<0>>(ctx),
    }
}
