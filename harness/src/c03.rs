//! C03: dense vectors as finite maps: mixed histories.
use crate::bases::*;
use crate::c02::sizes_for_case;
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::ops::*;
use crate::scalar::*;
use rustyalgebra::free_tensor::TensorBasis;
use rustyalgebra::vector::{DenseVector, ResizeableDenseVector, Vector, VectorWithDegree};

pub fn run(ctx: &mut Ctx) {
    macro_rules! go {
        ($b:ty, $deg:expr) => {
            match ctx.rng.below(8) {
                0 | 1 => case::<$b, f64>(ctx, $deg),
                2 => case::<$b, f32>(ctx, $deg),
                3 => case::<$b, Hs>(ctx, $deg),
                _ => case::<$b, Fp<0>>(ctx, $deg),
            }
        };
    }
    match ctx.rng.below(8) {
        0 => go!(TensorBasis<2>, |v| Some(v.degree())),
        1 => go!(TensorBasis<3>, |v| Some(v.degree())),
        2 => go!(TensorBasis<5>, |v| Some(v.degree())),
        3 => go!(TensorBasis<1>, |v| Some(v.degree())),
        4 => go!(IntExact, |_| None),
        5 => go!(ZigBlock, |_| None),
        6 => go!(TensorBasis<26>, |v| Some(v.degree())),
        _ => go!(TensorBasis<10>, |v| Some(v.degree())),
    }
}

pub fn case<B: TBasis, S: Sc>(ctx: &mut Ctx, degree: fn(&Dv<'static, B, S>) -> Option<u32>) {
    let (max, nops) = sizes_for_case(ctx);
    let nops = nops * 2;
    let max = span_for::<B>(max);
    let marks = B::marks(max);
    let special = !S::EXACT && ctx.rng.chance(1, 4);
    let kg = KeyGen { span: max.max(1), marks: &marks };
    let cfg = GenCfg { special, zero_scalar: !special };
    let np = 3;
    let mut models: Vec<Model<S>> = vec![];
    let mut pool: Vec<Dv<'static, B, S>> = vec![];
    for _ in 0..np {
        let n = { let m = if ctx.rng.chance(1, 6) { max } else { max.min(300) }; gen_size(&mut ctx.rng, &marks, m) };
        match ctx.rng.below(3) {
            0 => {
                pool.push(Dv::<B, S>::from_dimension(n));
                let p = pool.last().unwrap();
                ensure!(ctx, p.size() == n, "from_dimension({}) has size {}", n, p.size());
                models.push((0..n).map(|_| S::m_int(0)).collect());
                ctx.ev("from_dimension");
            }
            1 => {
                pool.push(Dv::<B, S>::new());
                ctx.ev("new");
                models.push(vec![]);
            }
            _ => {
                let m: Vec<S> = gen_coeffs(&mut ctx.rng, n, special);
                pool.push(build::<B, S>(&m));
                let p = pool.last().unwrap();
                ensure!(ctx, p.size() == n, "from(vec of {}) has size {}", n, p.size());
                models.push(m);
                ctx.ev("from");
            }
        }
    }
    ctx.note(|| format!("{}/{}", B::name(), S::NAME));
    {
        let m = &models;
        let d: Vec<String> = (0..np).map(|i| format!("v{} = {:?}", i, m[i])).collect();
        ctx.step(|| format!("basis {} scalar {}; {}", B::name(), S::NAME, d.join("; ")));
    }
    let n = 1 + ctx.rng.us(nops);
    for step in 0..n {
        let what;
        if ctx.rng.chance(1, 6) {
            what = extra(ctx, &mut pool, &mut models, &marks, max, special);
        } else {
            let which = if ctx.rng.chance(1, 5) { *ctx.rng.pick(LINEAR) } else { *ctx.rng.pick(MAP) };
            let mut op: Op<S> = gen_op(&mut ctx.rng, which, np, &kg, &cfg);
            if let Op::FromIter(_, l) | Op::Insert(_, l) = &mut op {
                // now and then a long list
                if !ctx.small && ctx.rng.chance(1, 12) {
                    *l = gen_list(&mut ctx.rng, &kg, &cfg, false, 200);
                }
            }
            ctx.step(|| format!("{:?}", op));
            ctx.ev(op.kind());
            let code = op.code();
            ctx.mixin(code);
            what = format!("{:?}", op);
            let before = pool[op.target()].size();
            let ok = apply(&op, &mut pool, &|i| B::mk(i));
            if let Op::GetMutSet(_, k, _, _) = &op {
                ensure!(
                    ctx,
                    ok == (*k < before),
                    "get_mut(key {}) on a vector of size {} returned {}",
                    B::mk(*k),
                    before,
                    if ok { "Some" } else { "None" }
                );
            }
            apply_model(&op, &mut models, ok);
        }
        if models.iter().any(|m| m.iter().any(|x| !x.is_zero())) {
            ctx.nontrivial = true;
        }
        for i in 0..np {
            // large vectors: compare all of them at the end, the changed ones at each step
            if max <= 1000 || step + 1 == n || step % 2 == 0 {
                check_dense(ctx, &pool[i], &models[i], &|| format!("after {}, v{}", what, i));
            }
        }
        let i = ctx.rng.us(np);
        let k = kg.key(&mut ctx.rng);
        check_access(ctx, &pool[i], &models[i], k);
        if let Some(d) = degree(&pool[i]) {
            let s = pool[i].size();
            let want = if s == 0 { 0 } else { B::deg(s - 1).unwrap() };
            ctx.ev("degree");
            ensure!(ctx, d == want, "degree of a vector of stored size {} is {}, expected {}", s, d, want);
        }
    }
}

fn extra<B: TBasis, S: Sc>(
    ctx: &mut Ctx,
    pool: &mut [Dv<'static, B, S>],
    models: &mut [Model<S>],
    marks: &[usize],
    max: usize,
    special: bool,
) -> String {
    let a = ctx.rng.us(pool.len());
    match ctx.rng.below(6) {
        0 | 1 => {
            let n = gen_size(&mut ctx.rng, marks, max);
            ctx.step(|| format!("resize v{} to {}", a, n));
            ctx.ev("resize");
            ctx.mixin(n as u64 + 1000);
            pool[a].resize(n);
            ensure!(ctx, pool[a].size() == n, "resize({}) left size {}", n, pool[a].size());
            models[a].truncate(n);
            format!("resize v{} to {}", a, n)
        }
        2 => {
            let n = pool[a].size();
            ctx.ev("as_mut_slice");
            ensure!(ctx, pool[a].as_mut_slice_len() == n, "as_mut_slice length differs from size {}", n);
            if n > 0 {
                let i = ctx.rng.us(n);
                let s = S::gen(&mut ctx.rng, special);
                ctx.step(|| format!("v{}.as_mut_slice()[{}] = {:?}", a, i, s));
                DenseVector::as_mut_slice(&mut pool[a])[i] = s.clone();
                put(&mut models[a], i, s);
            }
            format!("slice write to v{}", a)
        }
        3 => {
            let n = pool[a].size();
            let lo = ctx.rng.us(n + 2);
            let hi = lo + ctx.rng.us(n + 2);
            ctx.ev("get_slice");
            let got = DenseVector::get_slice(&pool[a], lo..hi).map(|s| s.to_vec());
            let want = slice(&pool[a]).get(lo..hi).map(|s| s.to_vec());
            let same = match (&got, &want) {
                (None, None) => true,
                (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.same(q)),
                _ => false,
            };
            ensure!(ctx, same, "get_slice({}..{}) of {} gave {:?}", lo, hi, n, got);
            if let Some(s) = DenseVector::get_mut_slice(&mut pool[a], lo..hi) {
                for x in s.iter_mut() {
                    *x = S::m_int(5);
                }
                for i in lo..hi {
                    put(&mut models[a], i, S::m_int(5));
                }
            }
            format!("get_mut_slice({}..{}) fill of v{}", lo, hi, a)
        }
        4 => {
            let b = ctx.rng.us(pool.len());
            ctx.step(|| format!("v{} = v{}.clone()", b, a));
            ctx.ev("clone");
            pool[b] = pool[a].clone();
            models[b] = models[a].clone();
            format!("v{} = v{}.clone()", b, a)
        }
        _ => {
            // small-integer forms of the single-key operations
            let k = ctx.rng.us(max.max(1));
            let c = ctx.rng.below(9) as i64 + 1;
            use rustyalgebra::vector::VectorKeyExt;
            ctx.step(|| format!("integer single-key ops on v{} key {} by {}", a, k, c));
            ctx.ev("integer single-key ops");
            pool[a].add_scalar_multiply(B::mk(k), c as i8).sub_scalar_multiply(B::mk(k), (c + 1) as i16);
            let v = at(&models[a], k).m_add(&S::m_int(c)).m_sub(&S::m_int(c + 1));
            put(&mut models[a], k, v);
            if ctx.rng.chance(1, 2) {
                let j = ctx.rng.us(max.max(1));
                pool[a] = Dv::<B, S>::from_key_scalar(B::mk(j), c as i8);
                models[a] = vec![];
                put(&mut models[a], j, S::m_int(c));
            } else {
                pool[a].insert_single(&B::mk(k), c as i16);
                put(&mut models[a], k, S::m_int(c));
            }
            format!("integer single-key ops on v{} key {} by {}", a, k, c)
        }
    }
}

trait MutLen {
    fn as_mut_slice_len(&mut self) -> usize;
}
impl<B: TBasis, S: Sc> MutLen for Dv<'static, B, S> {
    fn as_mut_slice_len(&mut self) -> usize {
        DenseVector::as_mut_slice(self).len()
    }
}
