//! Operation histories over a pool of vectors, as data: the same history can be applied to any
//! implementation of the vector trait and to the reference model.
use crate::rng::Rng;
use crate::scalar::Sc;
use rustyalgebra::vector::{Vector, VectorKeyExt};

#[derive(Debug)]
pub enum Op<S: Sc> {
    // linear
    UminusTo(usize, usize),
    UminusIn(usize),
    AddTo(usize, usize, usize, bool),
    AddIn(usize, usize, bool),
    SubTo(usize, usize, usize, bool),
    SubIn(usize, usize, bool),
    RMulTo(usize, usize, S),
    LMulTo(usize, usize, S),
    RMulIn(usize, S),
    LMulIn(usize, S),
    RDivTo(usize, usize, S::Q),
    LDivTo(usize, usize, S::Q),
    RDivIn(usize, S::Q),
    LDivIn(usize, S::Q),
    AddRMul(usize, usize, S),
    AddLMul(usize, usize, S),
    SubRMul(usize, usize, S),
    SubLMul(usize, usize, S),
    AddRDiv(usize, usize, S::Q),
    AddLDiv(usize, usize, S::Q),
    SubRDiv(usize, usize, S::Q),
    SubLDiv(usize, usize, S::Q),
    // map
    New(usize),
    FromKey(usize, usize),
    FromKeyScalar(usize, usize, S),
    FromIter(usize, Vec<(usize, S)>),
    Swap(usize, usize),
    SwapOwned(usize, usize),
    ToOwned(usize, usize),
    Clear(usize),
    GetMutSet(usize, usize, S, bool),
    InsertSingle(usize, usize, S),
    Insert(usize, Vec<(usize, S)>),
    Erase(usize, usize, bool),
    KAddMul(usize, usize, S, bool),
    KSubMul(usize, usize, S, bool),
    KAddDiv(usize, usize, S::Q, bool),
    KSubDiv(usize, usize, S::Q, bool),
}
use Op::*;

impl<S: Sc> Op<S> {
    pub fn kind(&self) -> &'static str {
        match self {
            UminusTo(..) => "uminus",
            UminusIn(..) => "uminus_inplace",
            AddTo(..) => "add",
            AddIn(..) => "add_inplace",
            SubTo(..) => "sub",
            SubIn(..) => "sub_inplace",
            RMulTo(..) => "scalar_rmultiply",
            LMulTo(..) => "scalar_lmultiply",
            RMulIn(..) => "scalar_rmultiply_inplace",
            LMulIn(..) => "scalar_lmultiply_inplace",
            RDivTo(..) => "scalar_rdivide",
            LDivTo(..) => "scalar_ldivide",
            RDivIn(..) => "scalar_rdivide_inplace",
            LDivIn(..) => "scalar_ldivide_inplace",
            AddRMul(..) => "add_scalar_rmultiply",
            AddLMul(..) => "add_scalar_lmultiply",
            SubRMul(..) => "sub_scalar_rmultiply",
            SubLMul(..) => "sub_scalar_lmultiply",
            AddRDiv(..) => "add_scalar_rdivide",
            AddLDiv(..) => "add_scalar_ldivide",
            SubRDiv(..) => "sub_scalar_rdivide",
            SubLDiv(..) => "sub_scalar_ldivide",
            New(..) => "new",
            FromKey(..) => "from_key",
            FromKeyScalar(..) => "from_key_scalar",
            FromIter(..) => "from_iterator",
            Swap(..) => "swap",
            SwapOwned(..) => "swap_owned",
            ToOwned(..) => "to_owned",
            Clear(..) => "clear",
            GetMutSet(..) => "get_mut",
            InsertSingle(..) => "insert_single",
            Insert(..) => "insert",
            Erase(..) => "erase",
            KAddMul(..) => "add_scalar_multiply",
            KSubMul(..) => "sub_scalar_multiply",
            KAddDiv(..) => "add_scalar_divide",
            KSubDiv(..) => "sub_scalar_divide",
        }
    }
    pub fn code(&self) -> u64 {
        let s = format!("{:?}", self);
        s.bytes().fold(7u64, |h, b| crate::rng::mix(h ^ b as u64))
    }
    /// the vector this operation writes
    pub fn target(&self) -> usize {
        match *self {
            UminusTo(d, _) | UminusIn(d) | AddTo(d, ..) | AddIn(d, ..) | SubTo(d, ..) | SubIn(d, ..) | New(d)
            | Swap(d, _) | SwapOwned(d, _) | ToOwned(d, _) | Clear(d) => d,
            RMulTo(d, ..) | LMulTo(d, ..) | RMulIn(d, _) | LMulIn(d, _) | AddRMul(d, ..) | AddLMul(d, ..)
            | SubRMul(d, ..) | SubLMul(d, ..) => d,
            RDivTo(d, ..) | LDivTo(d, ..) | RDivIn(d, _) | LDivIn(d, _) | AddRDiv(d, ..) | AddLDiv(d, ..)
            | SubRDiv(d, ..) | SubLDiv(d, ..) => d,
            FromKey(d, _) | FromKeyScalar(d, ..) | FromIter(d, _) | GetMutSet(d, ..) | InsertSingle(d, ..)
            | Insert(d, _) | Erase(d, ..) | KAddMul(d, ..) | KSubMul(d, ..) | KAddDiv(d, ..) | KSubDiv(d, ..) => d,
        }
    }
}

pub const LINEAR: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];
pub const MAP: &[usize] = &[22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37];

/// How an index (key) is chosen.
pub struct KeyGen<'a> {
    pub span: usize,
    pub marks: &'a [usize],
}
impl KeyGen<'_> {
    pub fn key(&self, r: &mut Rng) -> usize {
        match r.below(6) {
            0 => 0,
            1 if !self.marks.is_empty() => {
                let m = *r.pick(self.marks);
                (match r.below(3) {
                    0 => m,
                    1 => m.saturating_sub(1),
                    _ => m + 1,
                })
                .min(self.span - 1)
            }
            2 => r.us(self.span.min(4)),
            _ => r.us(self.span),
        }
    }
}

pub struct GenCfg {
    /// special floating-point entries
    pub special: bool,
    /// zero scalars allowed as multipliers
    pub zero_scalar: bool,
}

fn scal<S: Sc>(r: &mut Rng, g: &GenCfg) -> S {
    loop {
        let s = S::gen(r, false);
        if g.zero_scalar || !s.is_zero() {
            return s;
        }
    }
}

pub fn gen_list<S: Sc>(r: &mut Rng, kg: &KeyGen, g: &GenCfg, dups: bool, max: usize) -> Vec<(usize, S)> {
    // a long list may be spread over the whole span, and now and then be much longer still
    let spread = max >= 100 && r.chance(1, 2);
    let max = if spread && r.chance(1, 6) { (max * 12).min(3 * kg.span) } else { max };
    let n = match r.below(5) {
        0 => 0,
        1 => 1,
        _ => r.us(max + 1),
    };
    let mut v: Vec<(usize, S)> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        let k = if dups && !v.is_empty() && r.chance(1, 3) {
            v[r.us(v.len())].0
        } else if spread {
            r.us(kg.span)
        } else {
            kg.key(r)
        };
        if !seen.insert(k) && !dups {
            continue;
        }
        v.push((k, S::gen(r, g.special)));
    }
    match r.below(3) {
        0 => v.sort_by_key(|x| x.0),
        1 => v.sort_by_key(|x| std::cmp::Reverse(x.0)),
        _ => r.shuffle(&mut v),
    }
    v
}

pub fn gen_op<S: Sc>(r: &mut Rng, which: usize, pool: usize, kg: &KeyGen, g: &GenCfg) -> Op<S> {
    let d = r.us(pool);
    let a = r.us(pool);
    let b = r.us(pool);
    let o = r.chance(1, 2);
    match which {
        0 => UminusTo(d, a),
        1 => UminusIn(d),
        2 => AddTo(d, a, b, o),
        3 => AddIn(d, a, o),
        4 => SubTo(d, a, b, o),
        5 => SubIn(d, a, o),
        6 => RMulTo(d, a, scal(r, g)),
        7 => LMulTo(d, a, scal(r, g)),
        8 => RMulIn(d, scal(r, g)),
        9 => LMulIn(d, scal(r, g)),
        10 => RDivTo(d, a, S::gen_q(r)),
        11 => LDivTo(d, a, S::gen_q(r)),
        12 => RDivIn(d, S::gen_q(r)),
        13 => LDivIn(d, S::gen_q(r)),
        14 => AddRMul(d, a, scal(r, g)),
        15 => AddLMul(d, a, scal(r, g)),
        16 => SubRMul(d, a, scal(r, g)),
        17 => SubLMul(d, a, scal(r, g)),
        18 => AddRDiv(d, a, S::gen_q(r)),
        19 => AddLDiv(d, a, S::gen_q(r)),
        20 => SubRDiv(d, a, S::gen_q(r)),
        21 => SubLDiv(d, a, S::gen_q(r)),
        22 => New(d),
        23 => FromKey(d, kg.key(r)),
        24 => FromKeyScalar(d, kg.key(r), S::gen(r, g.special)),
        25 => {
            let n = if r.chance(1, 12) && kg.span > 20 { 150 } else { 12 };
            FromIter(d, gen_list(r, kg, g, !g.special, n))
        }
        26 => Swap(d, a),
        27 => SwapOwned(d, a),
        28 => ToOwned(d, a),
        29 => Clear(d),
        30 => GetMutSet(d, kg.key(r), S::gen(r, g.special), o),
        31 => InsertSingle(d, kg.key(r), S::gen(r, g.special)),
        32 => {
            let n = if r.chance(1, 12) && kg.span > 20 { 100 } else { 8 };
            Insert(d, gen_list(r, kg, g, false, n))
        }
        33 => Erase(d, kg.key(r), o),
        34 => KAddMul(d, kg.key(r), S::gen(r, g.special), o),
        35 => KSubMul(d, kg.key(r), S::gen(r, g.special), o),
        36 => KAddDiv(d, kg.key(r), S::gen_q(r), o),
        _ => KSubDiv(d, kg.key(r), S::gen_q(r), o),
    }
}

/// run f(&mut pool[a], &pool[b]); with a == b the right operand is an independent copy
fn with2<'v, V: Vector<'v>>(pool: &mut [V], a: usize, b: usize, f: impl FnOnce(&mut V, &V)) {
    if a == b {
        let c = Vector::to_owned(&pool[b]);
        f(&mut pool[a], &c);
    } else if a < b {
        let (x, y) = pool.split_at_mut(b);
        f(&mut x[a], &y[0]);
    } else {
        let (x, y) = pool.split_at_mut(a);
        f(&mut y[0], &x[b]);
    }
}

/// Apply an operation to real vectors. Returns whether a get_mut found its key.
pub fn apply<'v, V, S, K>(op: &Op<S>, pool: &mut [V], mk: &dyn Fn(usize) -> K) -> bool
where
    S: Sc,
    K: 'static + Clone,
    V: Vector<'v, KeyType = K, ScalarType = S, RationalType = <S as Sc>::Q>,
{
    match op {
        UminusTo(d, a) => pool[*d] = Vector::uminus(&pool[*a]),
        UminusIn(a) => {
            pool[*a].uminus_inplace();
        }
        AddTo(d, a, b, o) => {
            let r = if *o { let c = Vector::to_owned(&pool[*b]); Vector::add(&pool[*a], c) } else { Vector::add(&pool[*a], &pool[*b]) };
            pool[*d] = r;
        }
        SubTo(d, a, b, o) => {
            let r = if *o { let c = Vector::to_owned(&pool[*b]); Vector::sub(&pool[*a], c) } else { Vector::sub(&pool[*a], &pool[*b]) };
            pool[*d] = r;
        }
        AddIn(a, b, o) => with2(pool, *a, *b, |x, y| {
            if *o { x.add_inplace(Vector::to_owned(y)); } else { x.add_inplace(y); }
        }),
        SubIn(a, b, o) => with2(pool, *a, *b, |x, y| {
            if *o { x.sub_inplace(Vector::to_owned(y)); } else { x.sub_inplace(y); }
        }),
        RMulTo(d, a, s) => pool[*d] = pool[*a].scalar_rmultiply(s.clone()),
        LMulTo(d, a, s) => pool[*d] = pool[*a].scalar_lmultiply(s.clone()),
        RMulIn(a, s) => {
            pool[*a].scalar_rmultiply_inplace(s.clone());
        }
        LMulIn(a, s) => {
            pool[*a].scalar_lmultiply_inplace(s.clone());
        }
        RDivTo(d, a, q) => pool[*d] = pool[*a].scalar_rdivide(q.clone()),
        LDivTo(d, a, q) => pool[*d] = pool[*a].scalar_ldivide(q.clone()),
        RDivIn(a, q) => {
            pool[*a].scalar_rdivide_inplace(q.clone());
        }
        LDivIn(a, q) => {
            pool[*a].scalar_ldivide_inplace(q.clone());
        }
        AddRMul(a, b, s) => with2(pool, *a, *b, |x, y| { x.add_scalar_rmultiply(y, s.clone()); }),
        AddLMul(a, b, s) => with2(pool, *a, *b, |x, y| { x.add_scalar_lmultiply(y, s.clone()); }),
        SubRMul(a, b, s) => with2(pool, *a, *b, |x, y| { x.sub_scalar_rmultiply(y, s.clone()); }),
        SubLMul(a, b, s) => with2(pool, *a, *b, |x, y| { x.sub_scalar_lmultiply(y, s.clone()); }),
        AddRDiv(a, b, q) => with2(pool, *a, *b, |x, y| { x.add_scalar_rdivide(y, q.clone()); }),
        AddLDiv(a, b, q) => with2(pool, *a, *b, |x, y| { x.add_scalar_ldivide(y, q.clone()); }),
        SubRDiv(a, b, q) => with2(pool, *a, *b, |x, y| { x.sub_scalar_rdivide(y, q.clone()); }),
        SubLDiv(a, b, q) => with2(pool, *a, *b, |x, y| { x.sub_scalar_ldivide(y, q.clone()); }),
        New(d) => pool[*d] = V::new(),
        FromKey(d, k) => pool[*d] = V::from_key(mk(*k)),
        FromKeyScalar(d, k, s) => pool[*d] = V::from_key_scalar(mk(*k), s.clone()),
        FromIter(d, l) => pool[*d] = V::from_iterator(l.iter().map(|(k, s)| (mk(*k), s.clone()))),
        Swap(a, b) => {
            if a != b {
                let (x, y) = (*a.min(b), *a.max(b));
                let (p, q) = pool.split_at_mut(y);
                if a < b { Vector::swap(&mut p[x], &mut q[0]) } else { Vector::swap(&mut q[0], &mut p[x]) }
            }
        }
        SwapOwned(a, b) => {
            // swap with a temporary copy: a takes b's value
            let t = Vector::to_owned(&pool[*b]);
            Vector::swap(&mut pool[*a], t);
        }
        ToOwned(d, a) => pool[*d] = Vector::to_owned(&pool[*a]),
        Clear(a) => pool[*a].clear(),
        GetMutSet(a, k, s, o) => {
            let r = if *o { Vector::get_mut(&mut pool[*a], mk(*k)) } else { Vector::get_mut(&mut pool[*a], &mk(*k)) };
            match r {
                Some(v) => *v = s.clone(),
                None => return false,
            }
        }
        InsertSingle(a, k, s) => pool[*a].insert_single(&mk(*k), s.clone()),
        Insert(a, l) => pool[*a].insert(l.iter().map(|(k, s)| (mk(*k), s.clone())).collect::<Vec<_>>()),
        Erase(a, k, o) => if *o { pool[*a].erase(mk(*k)) } else { pool[*a].erase(&mk(*k)) },
        KAddMul(a, k, s, o) => { if *o { pool[*a].add_scalar_multiply(mk(*k), s.clone()); } else { pool[*a].add_scalar_multiply(&mk(*k), s.clone()); } }
        KSubMul(a, k, s, o) => { if *o { pool[*a].sub_scalar_multiply(mk(*k), s.clone()); } else { pool[*a].sub_scalar_multiply(&mk(*k), s.clone()); } }
        KAddDiv(a, k, q, o) => { if *o { pool[*a].add_scalar_divide(mk(*k), q.clone()); } else { pool[*a].add_scalar_divide(&mk(*k), q.clone()); } }
        KSubDiv(a, k, q, o) => { if *o { pool[*a].sub_scalar_divide(mk(*k), q.clone()); } else { pool[*a].sub_scalar_divide(&mk(*k), q.clone()); } }
    }
    true
}

// ---------------------------------------------------------------- reference model

/// Coefficients by index; beyond the end: zero.
pub type Model<S> = Vec<S>;

pub fn at<S: Sc>(m: &Model<S>, i: usize) -> S {
    m.get(i).cloned().unwrap_or_else(|| S::m_int(0))
}
pub fn put<S: Sc>(m: &mut Model<S>, i: usize, s: S) {
    while m.len() <= i {
        m.push(S::m_int(0));
    }
    m[i] = s;
}
fn zip<S: Sc>(a: &Model<S>, b: &Model<S>, f: impl Fn(&S, &S) -> S) -> Model<S> {
    (0..a.len().max(b.len())).map(|i| f(&at(a, i), &at(b, i))).collect()
}
fn map<S: Sc>(a: &Model<S>, f: impl Fn(&S) -> S) -> Model<S> {
    a.iter().map(f).collect()
}

pub fn apply_model<S: Sc>(op: &Op<S>, pool: &mut [Model<S>], written: bool) {
    match op {
        UminusTo(d, a) => pool[*d] = map(&pool[*a], |x| x.m_neg()),
        UminusIn(a) => pool[*a] = map(&pool[*a], |x| x.m_neg()),
        AddTo(d, a, b, _) => pool[*d] = zip(&pool[*a], &pool[*b], |x, y| x.m_add(y)),
        AddIn(a, b, _) => pool[*a] = zip(&pool[*a], &pool[*b], |x, y| x.m_add(y)),
        SubTo(d, a, b, _) => pool[*d] = zip(&pool[*a], &pool[*b], |x, y| x.m_sub(y)),
        SubIn(a, b, _) => pool[*a] = zip(&pool[*a], &pool[*b], |x, y| x.m_sub(y)),
        RMulTo(d, a, s) | LMulTo(d, a, s) => pool[*d] = map(&pool[*a], |x| x.m_mul(s)),
        RMulIn(a, s) | LMulIn(a, s) => pool[*a] = map(&pool[*a], |x| x.m_mul(s)),
        RDivTo(d, a, q) | LDivTo(d, a, q) => pool[*d] = map(&pool[*a], |x| x.m_div(q)),
        RDivIn(a, q) | LDivIn(a, q) => pool[*a] = map(&pool[*a], |x| x.m_div(q)),
        AddRMul(a, b, s) | AddLMul(a, b, s) => pool[*a] = zip(&pool[*a], &pool[*b], |x, y| x.m_add(&y.m_mul(s))),
        SubRMul(a, b, s) | SubLMul(a, b, s) => pool[*a] = zip(&pool[*a], &pool[*b], |x, y| x.m_sub(&y.m_mul(s))),
        AddRDiv(a, b, q) | AddLDiv(a, b, q) => pool[*a] = zip(&pool[*a], &pool[*b], |x, y| x.m_add(&y.m_div(q))),
        SubRDiv(a, b, q) | SubLDiv(a, b, q) => pool[*a] = zip(&pool[*a], &pool[*b], |x, y| x.m_sub(&y.m_div(q))),
        New(d) => pool[*d] = vec![],
        FromKey(d, k) => {
            pool[*d] = vec![];
            put(&mut pool[*d], *k, S::m_int(1));
        }
        FromKeyScalar(d, k, s) => {
            pool[*d] = vec![];
            put(&mut pool[*d], *k, s.clone());
        }
        FromIter(d, l) => {
            let mut m: Model<S> = vec![];
            for (k, s) in l {
                let v = at(&m, *k).m_add(s);
                put(&mut m, *k, v);
            }
            pool[*d] = m;
        }
        Swap(a, b) => pool.swap(*a, *b),
        SwapOwned(a, b) => pool[*a] = pool[*b].clone(),
        ToOwned(d, a) => pool[*d] = pool[*a].clone(),
        Clear(a) => pool[*a] = vec![],
        GetMutSet(a, k, s, _) => {
            if written {
                put(&mut pool[*a], *k, s.clone());
            }
        }
        InsertSingle(a, k, s) => put(&mut pool[*a], *k, s.clone()),
        Insert(a, l) => {
            for (k, s) in l {
                put(&mut pool[*a], *k, s.clone());
            }
        }
        Erase(a, k, _) => {
            if *k < pool[*a].len() {
                pool[*a][*k] = S::m_int(0);
            }
        }
        KAddMul(a, k, s, _) => {
            let v = at(&pool[*a], *k).m_add(s);
            put(&mut pool[*a], *k, v);
        }
        KSubMul(a, k, s, _) => {
            let v = at(&pool[*a], *k).m_sub(s);
            put(&mut pool[*a], *k, v);
        }
        KAddDiv(a, k, q, _) => {
            let v = at(&pool[*a], *k).m_add(&S::m_int(1).m_div(q));
            put(&mut pool[*a], *k, v);
        }
        KSubDiv(a, k, q, _) => {
            let v = at(&pool[*a], *k).m_sub(&S::m_int(1).m_div(q));
            put(&mut pool[*a], *k, v);
        }
    }
}
