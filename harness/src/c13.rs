//! C13: vectors over borrowed data: owned, borrowed and mutably borrowed in parallel.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::ops::*;
use crate::scalar::*;
use rustyalgebra::free_tensor::TensorBasis;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector};

pub fn run(ctx: &mut Ctx) {
    macro_rules! go {
        ($b:ty) => {
            match ctx.rng.below(6) {
                0 => case::<$b, f64>(ctx),
                1 | 2 => case::<$b, Hs>(ctx),
                _ => case::<$b, Fp<0>>(ctx),
            }
        };
    }
    match ctx.rng.below(5) {
        0 => go!(TensorBasis<2>),
        1 => go!(TensorBasis<3>),
        2 => go!(IntExact),
        3 => go!(ZigBlock),
        _ => go!(TensorBasis<5>),
    }
}

pub fn heap_case(ctx: &mut Ctx) {
    case::<TensorBasis<2>, Hs>(ctx)
}

/// What is known about a mutably lent buffer.
#[derive(Clone)]
enum Lent<S> {
    /// attached: slot holds the borrowing vector; buffer must equal its coefficients
    Attached(usize),
    /// the vector went away or grew: each element is one of two values, for ever
    Frozen(Vec<(S, S)>),
    /// not determined by the property
    Unknown,
}

fn case<B: TBasis, S: Sc>(ctx: &mut Ctx) {
    let max = span_for::<B>(if ctx.small { 14 } else if ctx.rng.chance(1, 80) { 4_200 } else { *ctx.rng.pick(&[6usize, 20, 60, 200]) });
    let marks = B::marks(max);
    let special = !S::EXACT && ctx.rng.chance(1, 4);
    let kg = KeyGen { span: max.max(1), marks: &marks };
    let cfg = GenCfg { special, zero_scalar: !special };
    let np = 3;
    let init: Vec<Vec<S>> = (0..np)
        .map(|_| {
            let n = gen_size(&mut ctx.rng, &marks, max);
            gen_coeffs(&mut ctx.rng, n, special)
        })
        .collect();
    ctx.note(|| format!("{}/{}", B::name(), S::NAME));
    ctx.step(|| format!("basis {} scalar {}; lent buffers {:?}", B::name(), S::NAME, init));
    for m in &init {
        ctx.mixin(m.len() as u64);
    }
    // histories first, so that all three runs see the same operations
    let n = if ctx.small { 1 + ctx.rng.us(4) } else { 1 + ctx.rng.us(14) };
    enum Step<S: Sc> {
        Op(Op<S>),
        Resize(usize, usize),
        SliceWrite(usize, usize, S),
        Clone(usize, usize),
    }
    let steps: Vec<Step<S>> = (0..n)
        .map(|_| {
            let a = ctx.rng.us(np);
            match ctx.rng.below(10) {
                0 => Step::Resize(a, gen_size(&mut ctx.rng, &marks, max)),
                1 => Step::SliceWrite(a, ctx.rng.us(max + 1), S::gen(&mut ctx.rng, special)),
                2 => Step::Clone(ctx.rng.us(np), a),
                _ => {
                    // in-place operations most of the time: they keep the vector attached
                    let inplace: &[usize] = &[1, 3, 5, 8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 29, 30, 31, 32, 33, 34, 35, 36, 37];
                    let which = if ctx.rng.chance(3, 4) {
                        *ctx.rng.pick(inplace)
                    } else if ctx.rng.chance(1, 2) {
                        *ctx.rng.pick(LINEAR)
                    } else {
                        *ctx.rng.pick(MAP)
                    };
                    Step::Op(gen_op(&mut ctx.rng, which, np, &kg, &cfg))
                }
            }
        })
        .collect();
    ctx.nontrivial = init.iter().any(|m| !m.is_empty());

    // lenders
    let shared: Vec<Vec<S>> = init.clone();
    let mut lent: Vec<Vec<S>> = init.clone();
    let mut state: Vec<Lent<S>> = (0..np).map(Lent::Attached).collect();
    let mut models: Vec<Model<S>> = init.clone();
    {
        let mut owned: Vec<Dv<'_, B, S>> = init.iter().map(|m| Dv::<B, S>::from(m.clone())).collect();
        let mut bor: Vec<Dv<'_, B, S>> = shared.iter().map(|m| Dv::<B, S>::verif_borrowed(m)).collect();
        let mut bm: Vec<Dv<'_, B, S>> = lent.iter_mut().map(|m| Dv::<B, S>::verif_borrowed_mut(m)).collect();
        // a second borrower of the same shared data, left alone
        let idle: Vec<Dv<'_, B, S>> = shared.iter().map(|m| Dv::<B, S>::verif_borrowed(m)).collect();

        for st in &steps {
            let before = models.clone();
            let sizes: Vec<usize> = bm.iter().map(|v| v.size()).collect();
            let what;
            match st {
                Step::Op(op) => {
                    what = format!("{:?}", op);
                    ctx.step(|| what.clone());
                    ctx.ev(op.kind());
                    let c = op.code();
                    ctx.mixin(c);
                    let r1 = apply(op, &mut owned, &|i| B::mk(i));
                    let r2 = apply(op, &mut bor, &|i| B::mk(i));
                    let r3 = apply(op, &mut bm, &|i| B::mk(i));
                    if let Op::GetMutSet(_, k, ..) = op {
                        let a = op.target();
                        // stored sizes may differ between the three after clearing; each must find its stored keys
                        ensure!(ctx, r3 == (*k < sizes[a]), "{}: get_mut on the mutably borrowed vector found the key: {}", what, r3);
                        if !(r1 == r2 && r2 == r3) {
                            // bring them in step again
                            let s = match op {
                                Op::GetMutSet(_, _, s, _) => s.clone(),
                                _ => unreachable!(),
                            };
                            for (r, p) in [(r1, &mut owned), (r2, &mut bor), (r3, &mut bm)] {
                                if !r {
                                    use rustyalgebra::vector::Vector;
                                    p[a].insert_single(&B::mk(*k), s.clone());
                                }
                            }
                        }
                    }
                    let wrote = r1 || r2 || r3;
                    apply_model(op, &mut models, wrote);
                    // lending state
                    match op {
                        Op::Swap(a, b) | Op::SwapOwned(a, b) => {
                            for s in state.iter_mut() {
                                if matches!(s, Lent::Attached(x) if x == a || x == b) {
                                    *s = Lent::Unknown;
                                }
                            }
                        }
                        // the slot is overwritten with a new vector: the old one is dropped
                        Op::UminusTo(d, _) | Op::AddTo(d, ..) | Op::SubTo(d, ..) | Op::New(d) | Op::ToOwned(d, _)
                        | Op::FromKey(d, _) | Op::FromKeyScalar(d, ..) | Op::FromIter(d, _) => freeze(&mut state, *d, &before, &sizes, None),
                        Op::RMulTo(d, ..) | Op::LMulTo(d, ..) => freeze(&mut state, *d, &before, &sizes, None),
                        Op::RDivTo(d, ..) | Op::LDivTo(d, ..) => freeze(&mut state, *d, &before, &sizes, None),
                        _ => {
                            let d = op.target();
                            let other = match op {
                                Op::AddIn(_, b, _) | Op::SubIn(_, b, _) => Some(*b),
                                Op::AddRMul(_, b, _) | Op::AddLMul(_, b, _) | Op::SubRMul(_, b, _) | Op::SubLMul(_, b, _) => Some(*b),
                                Op::AddRDiv(_, b, _) | Op::AddLDiv(_, b, _) | Op::SubRDiv(_, b, _) | Op::SubLDiv(_, b, _) => Some(*b),
                                _ => None,
                            };
                            let grows = match op {
                                Op::InsertSingle(_, k, _) => *k >= sizes[d],
                                Op::Insert(_, l) => l.iter().any(|(k, _)| *k >= sizes[d]),
                                Op::KAddMul(_, k, ..) | Op::KSubMul(_, k, ..) => *k >= sizes[d],
                                Op::KAddDiv(_, k, ..) | Op::KSubDiv(_, k, ..) => *k >= sizes[d],
                                Op::GetMutSet(_, k, ..) => *k >= sizes[d] && wrote,
                                _ => other.map_or(false, |b| sizes[b] > sizes[d]),
                            };
                            if grows {
                                ctx.ev("growing operations");
                                let after = models.clone();
                                freeze(&mut state, d, &before, &sizes, Some(&after));
                            } else if matches!(state[..], _ if state.iter().any(|s| matches!(s, Lent::Attached(x) if *x == d))) {
                                ctx.ev("write-through operations");
                            }
                        }
                    }
                }
                Step::Resize(a, k) => {
                    what = format!("resize v{} to {}", a, k);
                    ctx.step(|| what.clone());
                    ctx.ev("resize");
                    ctx.mixin(*k as u64 + 77);
                    for p in [&mut owned, &mut bor, &mut bm] {
                        p[*a].resize(*k);
                        ensure!(ctx, p[*a].size() == *k, "{} left size {}", what, p[*a].size());
                    }
                    models[*a].truncate(*k);
                    if *k > sizes[*a] {
                        let after = models.clone();
                        freeze(&mut state, *a, &before, &sizes, Some(&after));
                    } else {
                        for s in state.iter_mut() {
                            if matches!(s, Lent::Attached(x) if x == a) {
                                *s = Lent::Unknown;
                            }
                        }
                    }
                }
                Step::SliceWrite(a, i, s) => {
                    what = format!("v{}.as_mut_slice()[{}] = {:?}", a, i, s);
                    ctx.step(|| what.clone());
                    ctx.ev("slice writes");
                    if [&owned, &bor, &bm].iter().all(|p| *i < p[*a].size()) {
                        for p in [&mut owned, &mut bor, &mut bm] {
                            DenseVector::as_mut_slice(&mut p[*a])[*i] = s.clone();
                        }
                        put(&mut models[*a], *i, s.clone());
                    }
                }
                Step::Clone(d, a) => {
                    what = format!("v{} = clone of v{}", d, a);
                    ctx.step(|| what.clone());
                    ctx.ev("clone");
                    for p in [&mut owned, &mut bor, &mut bm] {
                        p[*d] = p[*a].clone();
                    }
                    models[*d] = models[*a].clone();
                    freeze(&mut state, *d, &before, &sizes, None);
                }
            }
            for i in 0..np {
                check_dense(ctx, &owned[i], &models[i], &|| format!("after {}, owning v{}", what, i));
                check_dense(ctx, &bor[i], &models[i], &|| format!("after {}, v{} over shared data", what, i));
                check_dense(ctx, &bm[i], &models[i], &|| format!("after {}, v{} over mutably lent data", what, i));
                // over shared data nothing tells the vector from the owning one, its extent (and so its degree) included
                ensure!(
                    ctx,
                    bor[i].size() == owned[i].size(),
                    "after {}: v{} over shared data has size {}, the owning vector {}",
                    what,
                    i,
                    bor[i].size(),
                    owned[i].size()
                );
                // the shared lender can be watched at any time
                ensure!(
                    ctx,
                    shared[i].len() == init[i].len() && shared[i].iter().zip(&init[i]).all(|(x, y)| x.same(y)),
                    "after {}: shared data of v{} changed from {:?} to {:?}",
                    what,
                    i,
                    init[i],
                    shared[i]
                );
            }
            let i = ctx.rng.us(np);
            let k = kg.key(&mut ctx.rng);
            use rustyalgebra::vector::Vector;
            for (p, name) in [(&bor, "shared"), (&bm, "mutably lent")] {
                let g = Vector::get(&p[i], B::mk(k)).cloned().unwrap_or_else(|| S::m_int(0));
                ensure!(ctx, g.same(&at(&models[i], k)), "after {}: get #{} on {} v{} = {:?}, expected {:?}", what, k, name, i, g, at(&models[i], k));
            }
            if owned[i].size() == bor[i].size() && slice(&owned[i]).iter().all(|x| x == x) {
                ensure!(ctx, bor[i] == owned[i] && owned[i] == bor[i], "after {}: borrowed v{} is not equal to the owning vector", what, i);
            }
            if owned[i].size() == bm[i].size() && slice(&owned[i]).iter().all(|x| x == x) {
                ensure!(ctx, bm[i] == owned[i] && owned[i] == bm[i], "after {}: mutably borrowed v{} is not equal to the owning vector", what, i);
            }
        }
        for i in 0..np {
            check_dense(ctx, &idle[i], &init[i], &|| format!("an idle borrower of v{}", i));
        }
    }
    // the mutable borrows are over: inspect the lent buffers
    for i in 0..np {
        ensure!(ctx, lent[i].len() == init[i].len(), "lent buffer {} changed its length", i);
        match &state[i] {
            Lent::Attached(x) => {
                ctx.ev("attached buffers checked");
                for (j, e) in lent[i].iter().enumerate() {
                    ensure!(
                        ctx,
                        e.same(&at(&models[*x], j)),
                        "lent buffer {} holds {:?} at {}, the vector over it had {:?}",
                        i,
                        e,
                        j,
                        at(&models[*x], j)
                    );
                }
            }
            Lent::Frozen(v) => {
                ctx.ev("released buffers checked");
                for (j, e) in lent[i].iter().enumerate() {
                    ensure!(
                        ctx,
                        e.same(&v[j].0) || e.same(&v[j].1),
                        "lent buffer {} holds {:?} at {} although it was released with {:?}",
                        i,
                        e,
                        j,
                        v[j]
                    );
                }
            }
            Lent::Unknown => ctx.ev("undetermined buffers"),
        }
    }
}

/// The vector in `slot` stops using its buffer; elements are as before or as after the operation.
fn freeze<S: Sc>(state: &mut [Lent<S>], slot: usize, before: &[Model<S>], sizes: &[usize], after: Option<&[Model<S>]>) {
    for (i, s) in state.iter_mut().enumerate() {
        if matches!(s, Lent::Attached(x) if *x == slot) {
            let _ = i;
            let n = sizes[slot];
            let v = (0..n)
                .map(|j| {
                    let b = at(&before[slot], j);
                    let a = after.map_or(b.clone(), |m| at(&m[slot], j));
                    (b, a)
                })
                .collect();
            *s = Lent::Frozen(v);
        }
    }
}
