//! C04: sparse vectors: histories against the model, stored-set rules, dense differential.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::dense::{differ, slice, Dv};
use crate::ensure;
use crate::ops::*;
use crate::scalar::*;
use rustyalgebra::basis::Basis;
use rustyalgebra::vector::implementation::SimpleSparseVector;
use rustyalgebra::vector::{Vector, VectorIteratorItem};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

/// key types for sparse vectors
pub trait SKey: Clone + Eq + Hash + Debug + Display + 'static {
    fn mk(i: usize) -> Self;
    const NAME: &'static str;
}
impl SKey for u32 {
    fn mk(i: usize) -> u32 {
        i as u32 * 3 + 1
    }
    const NAME: &'static str = "u32";
}
impl SKey for String {
    fn mk(i: usize) -> String {
        if i == 0 { String::new() } else { format!("key-{}", i) }
    }
    const NAME: &'static str = "String";
}
impl SKey for Z {
    fn mk(i: usize) -> Z {
        <IntExact as TBasis>::mk(i)
    }
    const NAME: &'static str = "Z";
}
/// every key has the same hash
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Coll(pub usize, pub String);
impl Hash for Coll {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(1)
    }
}
impl Display for Coll {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "c{}", self.0)
    }
}
impl SKey for Coll {
    fn mk(i: usize) -> Coll {
        Coll(i, "x".repeat(i % 3))
    }
    const NAME: &'static str = "colliding";
}

pub struct SB<K>(PhantomData<K>);
impl<K: SKey> Basis for SB<K> {
    type KeyType = K;
}

pub type Sv<B, S, K> = SimpleSparseVector<'static, B, S, K>;

pub fn run(ctx: &mut Ctx) {
    macro_rules! go {
        ($b:ty, $k:ty) => {
            match ctx.rng.below(8) {
                0 | 1 => case::<$b, $k, f64>(ctx),
                2 => case::<$b, $k, f32>(ctx),
                3 => case::<$b, $k, Hs>(ctx),
                _ => case::<$b, $k, Fp<0>>(ctx),
            }
        };
    }
    match ctx.rng.below(6) {
        0 => go!(SB<u32>, u32),
        1 => go!(SB<String>, String),
        2 => go!(SB<Coll>, Coll),
        3 => go!(SB<Z>, Z),
        _ => match ctx.rng.below(3) {
            0 => with_dense::<f64>(ctx),
            1 => with_dense::<Hs>(ctx),
            _ => with_dense::<Fp<0>>(ctx),
        },
    }
}

/// What iteration shows, with all the checks on iteration and access.
pub fn observe<B, K, S>(ctx: &mut Ctx, v: &Sv<B, S, K>, index: &HashMap<K, usize>, probe: usize) -> BTreeMap<usize, S>
where
    B: Basis<KeyType = K> + 'static,
    K: SKey,
    S: Sc,
{
    let mut seen: BTreeMap<usize, S> = BTreeMap::new();
    for item in v {
        let (k, s) = item;
        ensure!(ctx, item.key() == k && item.value().same(s), "iterator item key/value differ from the pair");
        match index.get(k) {
            None => ctx.fail(format!("iteration yields key {:?}, which was never inserted", k)),
            Some(i) => {
                if seen.insert(*i, s.clone()).is_some() {
                    ctx.fail(format!("iteration yields key {:?} twice", k));
                }
            }
        }
        ctx.ev("iterated items");
    }
    let n = index.len();
    let all = n <= 64;
    let tries = if all { n } else { probe };
    for t in 0..tries {
        let i = if all { t } else { ctx.rng.us(n) };
        let key = K::mk(i);
        let g = if t % 2 == 0 { Vector::get(v, &key).cloned() } else { Vector::get(v, key.clone()).cloned() };
        ctx.ev("get");
        let same = match (&g, seen.get(&i)) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        };
        ensure!(ctx, same, "get({:?}) = {:?} but iteration shows {:?}", key, g, seen.get(&i));
    }
    seen
}

fn compare<S: Sc>(ctx: &mut Ctx, seen: &BTreeMap<usize, S>, m: &Model<S>, what: &dyn Fn() -> String) {
    let zero = S::m_int(0);
    for (i, x) in m.iter().enumerate() {
        let g = seen.get(&i).unwrap_or(&zero);
        if !g.same(x) {
            ctx.fail(format!("{}: coefficient of key #{} is {:?}, expected {:?}", what(), i, seen.get(&i), x));
        }
    }
    for (i, x) in seen {
        if *i >= m.len() && !x.is_zero() {
            ctx.fail(format!("{}: coefficient of key #{} is {:?}, expected zero", what(), i, x));
        }
    }
    ctx.evn("coefficients compared", m.len().max(seen.len()) as u64);
}

fn stored_eq<S: Sc>(a: &BTreeMap<usize, S>, b: &BTreeMap<usize, S>) -> bool {
    a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x == y))
}

/// keys whose non-zero coefficient the operation must cancel, in the target
fn must_vanish<S: Sc>(op: &Op<S>, models: &[Model<S>]) -> Vec<usize> {
    let (a, b, f): (usize, usize, Box<dyn Fn(&S, &S) -> (S, S)>) = match op {
        Op::AddTo(_, a, b, _) | Op::AddIn(a, b, _) => (*a, *b, Box::new(|x, y| (y.clone(), x.m_add(y)))),
        Op::SubTo(_, a, b, _) | Op::SubIn(a, b, _) => (*a, *b, Box::new(|x, y| (y.clone(), x.m_sub(y)))),
        Op::AddRMul(a, b, s) | Op::AddLMul(a, b, s) => (*a, *b, Box::new(move |x, y| (y.m_mul(s), x.m_add(&y.m_mul(s))))),
        Op::SubRMul(a, b, s) | Op::SubLMul(a, b, s) => (*a, *b, Box::new(move |x, y| (y.m_mul(s), x.m_sub(&y.m_mul(s))))),
        Op::AddRDiv(a, b, q) | Op::AddLDiv(a, b, q) => (*a, *b, Box::new(move |x, y| (y.m_div(q), x.m_add(&y.m_div(q))))),
        Op::SubRDiv(a, b, q) | Op::SubLDiv(a, b, q) => (*a, *b, Box::new(move |x, y| (y.m_div(q), x.m_sub(&y.m_div(q))))),
        _ => return vec![],
    };
    let n = models[a].len().min(models[b].len());
    (0..n)
        .filter(|&i| {
            let x = &models[a][i];
            if x.is_zero() {
                return false;
            }
            let (y, r) = f(x, &models[b][i]);
            !y.is_zero() && r.is_zero()
        })
        .collect()
}

/// an operation that cancels some terms on purpose
fn cancelling<S: Sc>(ctx: &mut Ctx, models: &[Model<S>], np: usize) -> Vec<Op<S>> {
    let a = ctx.rng.us(np);
    let b = ctx.rng.us(np);
    let mut l = vec![];
    for (i, x) in models[a].iter().enumerate() {
        if !x.is_zero() && ctx.rng.chance(1, 2) {
            l.push((i, x.clone()));
        }
    }
    if a == b {
        return vec![Op::SubIn(a, a, ctx.rng.chance(1, 2))];
    }
    let neg = ctx.rng.chance(1, 2);
    if neg {
        for e in l.iter_mut() {
            e.1 = e.1.m_neg();
        }
    }
    let o = ctx.rng.chance(1, 2);
    let d = ctx.rng.us(np);
    let second = match (neg, ctx.rng.below(4)) {
        (true, 0) => Op::AddTo(d, a, b, o),
        (true, 1) => Op::AddRMul(a, b, S::m_int(1)),
        (true, 2) => Op::SubLMul(a, b, S::m_int(-1)),
        (true, _) => Op::AddIn(a, b, o),
        (false, 0) => Op::SubTo(d, a, b, o),
        (false, 1) => Op::SubRMul(a, b, S::m_int(1)),
        (false, 2) => Op::SubRDiv(a, b, S::m_q(1)),
        (false, _) => Op::SubIn(a, b, o),
    };
    vec![Op::FromIter(b, l), second]
}

pub fn case<B, K, S>(ctx: &mut Ctx)
where
    B: Basis<KeyType = K> + 'static,
    K: SKey,
    S: Sc,
{
    let span = if ctx.small {
        6
    } else {
        match ctx.rng.below(100) {
            0 if K::NAME != "colliding" => 3000,
            1..=9 => 200,
            10..=30 => 40,
            _ => 10,
        }
    };
    let index: HashMap<K, usize> = (0..span).map(|i| (K::mk(i), i)).collect();
    let special = !S::EXACT && ctx.rng.chance(1, 4);
    let kg = KeyGen { span, marks: &[] };
    let cfg = GenCfg { special, zero_scalar: !special };
    let np = 3;
    let mut models: Vec<Model<S>> = vec![vec![]; np];
    let mut pool: Vec<Sv<B, S, K>> = (0..np).map(|_| Sv::<B, S, K>::new()).collect();
    ctx.note(|| format!("{}/{}", K::NAME, S::NAME));
    ctx.step(|| format!("sparse over {} keys, scalar {}, {} keys", K::NAME, S::NAME, span));
    // start with something in them
    let mut queue: Vec<Op<S>> = (0..np)
        .map(|i| {
            let most = if ctx.rng.chance(1, 20) { span.min(1500) } else { span.min(60) };
            let l = gen_list(&mut ctx.rng, &kg, &cfg, !special, most);
            if ctx.rng.chance(1, 2) { Op::FromIter(i, l) } else { Op::Insert(i, dedup(l)) }
        })
        .collect();
    queue.reverse();
    let n = 3 + if ctx.small { ctx.rng.us(4) } else { ctx.rng.us(25) };
    let mut done = 0;
    while done < n {
        let op = match queue.pop() {
            Some(op) => op,
            None => {
                done += 1;
                if ctx.rng.chance(1, 6) && !special {
                    queue = cancelling(ctx, &models, np);
                    queue.reverse();
                    continue;
                }
                let which = if ctx.rng.chance(1, 2) { *ctx.rng.pick(LINEAR) } else { *ctx.rng.pick(MAP) };
                gen_op(&mut ctx.rng, which, np, &kg, &cfg)
            }
        };
        ctx.step(|| format!("{:?}", op));
        ctx.ev(op.kind());
        let code = op.code();
        ctx.mixin(code);
        let vanish = must_vanish(&op, &models);
        let was = if let Op::GetMutSet(a, k, _, _) = &op { Vector::get(&pool[*a], &K::mk(*k)).is_some() } else { true };
        let ok = apply(&op, &mut pool, &|i| K::mk(i));
        ensure!(ctx, ok == was, "get_mut found={} although get found={} in {:?}", ok, was, op);
        apply_model(&op, &mut models, ok);
        let mut seen = vec![];
        for i in 0..np {
            let s = observe(ctx, &pool[i], &index, 40);
            compare(ctx, &s, &models[i], &|| format!("after {:?}, v{}", op, i));
            seen.push(s);
        }
        let d = op.target();
        for k in vanish {
            ctx.ev("cancelled terms");
            ctx.nontrivial = true;
            ensure!(ctx, !seen[d].contains_key(&k), "after {:?}: cancelled key #{} is still stored in v{}", op, k, d);
        }
        if seen.iter().any(|s| !s.is_empty()) {
            ctx.nontrivial = true;
        }
        // erased and cleared keys are gone
        match &op {
            Op::Erase(a, k, _) => ensure!(ctx, !seen[*a].contains_key(k), "erased key #{} still stored", k),
            Op::Clear(a) | Op::New(a) => ensure!(ctx, seen[*a].is_empty(), "vector not empty after clear"),
            _ => {}
        }
        // equality
        let (a, b) = (ctx.rng.us(np), ctx.rng.us(np));
        ctx.ev("equality");
        let want = stored_eq(&seen[a], &seen[b]);
        ensure!(ctx, (pool[a] == pool[b]) == want, "v{} == v{} gave {}: {:?} / {:?}", a, b, !want, seen[a], seen[b]);
        if ctx.rng.chance(1, 3) {
            near_equal(ctx, &pool[a], &seen[a], span);
        }
    }
}

fn dedup<S: Sc>(l: Vec<(usize, S)>) -> Vec<(usize, S)> {
    let mut out: Vec<(usize, S)> = vec![];
    for (k, s) in l {
        if !out.iter().any(|(j, _)| *j == k) {
            out.push((k, s));
        }
    }
    out
}

/// equality against a copy with one difference: changed value, missing key, extra key, renamed key
fn near_equal<B, K, S>(ctx: &mut Ctx, v: &Sv<B, S, K>, seen: &BTreeMap<usize, S>, span: usize)
where
    B: Basis<KeyType = K> + 'static,
    K: SKey,
    S: Sc,
{
    if seen.values().any(|x| x != x) {
        return;
    }
    let mut other = seen.clone();
    let keys: Vec<usize> = other.keys().cloned().collect();
    match ctx.rng.below(5) {
        0 => {}
        1 if !keys.is_empty() => {
            let k = *ctx.rng.pick(&keys);
            let d = S::gen(&mut ctx.rng, false);
            let x = other[&k].m_add(&d);
            other.insert(k, x);
        }
        2 if !keys.is_empty() => {
            other.remove(ctx.rng.pick(&keys));
        }
        3 if !keys.is_empty() => {
            let k = *ctx.rng.pick(&keys);
            let x = other.remove(&k).unwrap();
            other.insert(ctx.rng.us(span), x);
        }
        _ => {
            let k = ctx.rng.us(span);
            let x = S::gen(&mut ctx.rng, false);
            other.insert(k, x);
        }
    }
    let mut l: Vec<(usize, S)> = other.iter().map(|(k, s)| (*k, s.clone())).collect();
    ctx.rng.shuffle(&mut l);
    let w = Sv::<B, S, K>::from_iterator(l.iter().map(|(k, s)| (K::mk(*k), s.clone())));
    let index: HashMap<K, usize> = (0..span).map(|i| (K::mk(i), i)).collect();
    let ws = observe(ctx, &w, &index, 10);
    let want = stored_eq(seen, &ws);
    ctx.ev("near-equality");
    ensure!(ctx, (*v == w) == want && (w == *v) == want, "== gave {}/{} for {:?} and {:?}", *v == w, w == *v, seen, ws);
    ensure!(ctx, (*v != w) != want, "!= disagrees with ==");
}

/// the same history on a dense and a sparse vector over the same basis
pub fn with_dense<S: Sc>(ctx: &mut Ctx) {
    let span = if ctx.small { 6 } else { *ctx.rng.pick(&[5usize, 12, 40]) };
    let kg = KeyGen { span, marks: &[] };
    let cfg = GenCfg { special: false, zero_scalar: true };
    let np = 3;
    let mut sp: Vec<Sv<IntExact, S, Z>> = (0..np).map(|_| Sv::<IntExact, S, Z>::new()).collect();
    let mut de: Vec<Dv<'static, IntExact, S>> = (0..np).map(|_| Dv::<IntExact, S>::new()).collect();
    let index: HashMap<Z, usize> = (0..span).map(|i| (<Z as SKey>::mk(i), i)).collect();
    ctx.note(|| format!("dense differential/{}", S::NAME));
    let n = if ctx.small { 5 } else { 4 + ctx.rng.us(25) };
    for j in 0..n {
        let which = if j < 3 {
            25
        } else if ctx.rng.chance(1, 2) {
            *ctx.rng.pick(LINEAR)
        } else {
            *ctx.rng.pick(MAP)
        };
        if which == 30 {
            continue; // get_mut presence legitimately differs
        }
        let op: Op<S> = gen_op(&mut ctx.rng, which, np, &kg, &cfg);
        ctx.step(|| format!("dense/sparse {:?}", op));
        ctx.ev(op.kind());
        let code = op.code();
        ctx.mixin(code);
        apply(&op, &mut sp, &|i| <Z as SKey>::mk(i));
        apply(&op, &mut de, &|i| <Z as SKey>::mk(i));
        for i in 0..np {
            let s = observe(ctx, &sp[i], &index, 0);
            let mut m: Model<S> = vec![];
            for (k, x) in &s {
                put(&mut m, *k, x.clone());
            }
            if !s.is_empty() {
                ctx.nontrivial = true;
            }
            ctx.ev("dense/sparse comparisons");
            if let Some(k) = differ(slice(&de[i]), &m) {
                ctx.fail(format!(
                    "after {:?}, v{}: dense has {:?} at key #{}, sparse {:?}",
                    op,
                    i,
                    slice(&de[i]).get(k),
                    k,
                    at(&m, k)
                ));
            }
        }
    }
}
