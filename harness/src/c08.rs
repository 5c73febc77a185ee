//! C08: key enumeration: an online checker over the stream of keys.
use crate::ctx::Ctx;
use crate::ensure;
use crate::widths::pick_width;
use crate::words::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

pub fn run(ctx: &mut Ctx) {
    let n = pick_width(ctx, WIDTHS);
    by_width(ctx, n)
}
crate::all_widths!(case);

type It<const N: u32> = <TensorBasis<N> as OrderedBasis>::KeyIterator;

fn expect<const N: u32>(ctx: &mut Ctx, got: Option<TensorKey<N>>, want: Option<&[u32]>, at: u128) {
    ctx.ev("keys yielded");
    match (got, want) {
        (None, None) => ctx.ev("ends observed"),
        (Some(k), Some(w)) => {
            let e = TensorKey::<N>::from_letters(w);
            if k != e {
                ctx.fail(format!(
                    "width {}: enumeration yields {:?} (last letter first, length {}) at index {}, expected the word {:?}",
                    N,
                    k.to_letters(),
                    k.size(),
                    at,
                    w
                ));
            }
        }
        (Some(k), None) => ctx.fail(format!("width {}: enumeration continues with {:?} after the last word", N, k.to_letters())),
        (None, Some(w)) => ctx.fail(format!("width {}: enumeration ends before the word {:?} (index {})", N, w, at)),
    }
}

/// Follow the stream from `w` for at most `steps` keys, to the end if it is that near.
fn follow<const N: u32>(ctx: &mut Ctx, mut it: It<N>, w: Vec<u32>, steps: usize) {
    let max = TensorBasis::<N>::max_degree() as usize;
    let mut w = w;
    let mut i = rank(N, &w);
    for step in 0..steps {
        let (lo, hi) = it.size_hint();
        let left = start(N, max as u32 + 1) - i;
        if lo as u128 > left || hi.map_or(false, |h| (h as u128) < left) {
            ctx.fail(format!("width {}: size_hint ({}, {:?}) with {} keys left", N, lo, hi, left));
        }
        let got = it.next();
        if let (Some(k), true) = (&got, step % 16 == 0) {
            let idx = TensorBasis::<N>::key_to_index(k);
            ensure!(ctx, idx as u128 == i, "width {}: key number {} of the enumeration has index {}", N, i, idx);
        }
        expect::<N>(ctx, got, Some(&w), i);
        w = succ(N, &w);
        i += 1;
        if w.len() > max {
            for _ in 0..3 {
                let got = it.next();
                expect::<N>(ctx, got, None, i);
            }
            return;
        }
    }
}

fn case<const N: u32>(ctx: &mut Ctx) {
    let max = TensorBasis::<N>::max_degree();
    let total = start(N, max + 1);
    ctx.note(|| format!("width {} max length {}", N, max));
    ctx.nontrivial = true;
    let steps = if ctx.small { 12 } else { 120 };
    let mode = ctx.rng.below(8);
    match mode {
        0 => {
            let long = if ctx.small { 30 } else if ctx.thorough && ctx.rng.chance(1, 20) { 300_000 } else if ctx.rng.chance(1, 400) { 70_000 } else { 3_000 };
            ctx.step(|| format!("width {}: first {} keys", N, long));
            ctx.mixin(N as u64);
            ctx.ev("enumerations from the start");
            follow::<N>(ctx, TensorBasis::<N>::iter_keys(), vec![], long);
        }
        1 if ctx.rng.chance(1, 2) => {
            // adaptors over an enumeration that starts at a word, in several pieces
            let i = if ctx.rng.chance(1, 3) {
                total - 1 - (ctx.rng.below(60) as u128).min(total - 1)
            } else {
                let len = gen_len(&mut ctx.rng, max);
                rank(N, &gen_word(&mut ctx.rng, N, len))
            };
            let w = unrank(N, i);
            ctx.step(|| format!("width {}: pieces from {:?}", N, w));
            ctx.mixin(i as u64 ^ ((N as u64) << 32));
            ctx.ev("adaptors from a word");
            let mut it = It::<N>::starting_from(TensorKey::<N>::from_letters(&w));
            let mut at = i;
            for _ in 0..1 + ctx.rng.us(6) {
                let word = |i: u128| if i < total { Some(unrank(N, i)) } else { None };
                match ctx.rng.below(6) {
                    0 => {
                        let a = ctx.rng.us(if ctx.small { 8 } else { 70 });
                        let got = it.nth(a);
                        expect::<N>(ctx, got, word(at + a as u128).as_deref(), at + a as u128);
                        at = (at + a as u128 + 1).min(total);
                    }
                    1 => {
                        let b = 1 + ctx.rng.us(9);
                        let n = 1 + ctx.rng.us(5);
                        let got: Vec<_> = it.by_ref().step_by(b).take(n).collect();
                        let want: Vec<u128> = (0..n).map(|j| at + (j * b) as u128).filter(|i| *i < total).collect();
                        ensure!(ctx, got.len() == want.len(), "width {}: step_by({}) from index {} yields {} keys, expected {}", N, b, at, got.len(), want.len());
                        // a full take stops on its last key; a short one has run to the end
                        at = if got.len() == n { want[n - 1] + 1 } else { total };
                        for (k, i) in got.into_iter().zip(want) {
                            expect::<N>(ctx, Some(k), Some(&unrank(N, i)), i);
                        }
                    }
                    2 => {
                        let n = 1 + ctx.rng.us(20);
                        let mut j = at;
                        let mut bad = None;
                        it.by_ref().take(n).for_each(|k| {
                            if j >= total || k != TensorKey::<N>::from_letters(&unrank(N, j)) {
                                bad = bad.take().or(Some((k, j)));
                            }
                            j += 1;
                        });
                        if let Some((k, i)) = bad {
                            expect::<N>(ctx, Some(k), word(i).as_deref(), i);
                        }
                        let end = (at + n as u128).min(total);
                        ensure!(ctx, j == end, "width {}: take({}) from index {} stopped before index {}, expected {}", N, n, at, j, end);
                        at = end;
                    }
                    3 => {
                        let n = ctx.rng.us(12);
                        let target = at + n as u128;
                        let stop = word(target).map(|w| TensorKey::<N>::from_letters(&w));
                        if let Some(stop) = stop {
                            let got = it.position(|k| k == stop);
                            ensure!(ctx, got == Some(n), "width {}: position of index {} from index {} is {:?}, expected {}", N, target, at, got, n);
                            at = target + 1;
                        }
                    }
                    4 if total - at < 200 => {
                        let (n, last) = it.fold((0u128, None), |(n, _), k| (n + 1, Some(k)));
                        ensure!(ctx, n == total - at, "width {}: folding from index {} visits {} keys, expected {}", N, at, n, total - at);
                        if n > 0 {
                            expect::<N>(ctx, last, word(total - 1).as_deref(), total - 1);
                        }
                        return;
                    }
                    _ => {
                        let got = it.next();
                        expect::<N>(ctx, got, word(at).as_deref(), at);
                        at = (at + 1).min(total);
                    }
                }
            }
        }
        1 => {
            // adaptors over the enumeration from the start
            let a = ctx.rng.us(200);
            let b = 1 + ctx.rng.us(40);
            ctx.step(|| format!("width {}: skip({}).step_by({})", N, a, b));
            ctx.mixin(a as u64 * 64 + b as u64 + ((N as u64) << 32));
            ctx.ev("adaptors");
            let got: Vec<TensorKey<N>> = TensorBasis::<N>::iter_keys().skip(a).step_by(b).take(5).collect();
            let want: Vec<u128> = (0..5).map(|j| (a + j * b) as u128).filter(|i| *i < total).collect();
            ensure!(ctx, got.len() == want.len(), "width {}: skip/step_by yields {} keys, expected {}", N, got.len(), want.len());
            for (k, i) in got.into_iter().zip(want) {
                expect::<N>(ctx, Some(k), Some(&unrank(N, i)), i);
            }
            let got = TensorBasis::<N>::iter_keys().nth(a);
            let w = unrank(N, a as u128);
            expect::<N>(ctx, got, if (a as u128) < total { Some(&w) } else { None }, a as u128);
        }
        2 | 3 => {
            // near the very end
            let back = if ctx.rng.chance(1, 3) { ctx.rng.below(3) } else { ctx.rng.below(steps as u64) };
            let i = total - 1 - (back as u128).min(total - 1);
            let w = unrank(N, i);
            ctx.step(|| format!("width {}: from {:?} to the end", N, w));
            ctx.mixin(i as u64 ^ ((N as u64) << 32));
            ctx.ev("enumerations to the end");
            let n = (total - i) as usize;
            if ctx.rng.chance(1, 3) {
                let it = It::<N>::starting_from(TensorKey::<N>::from_letters(&w));
                let c = it.count();
                ensure!(ctx, c == n, "width {}: {} keys from {:?} to the end, expected {}", N, c, w, n);
                let l = It::<N>::starting_from(TensorKey::<N>::from_letters(&w)).last();
                let last = vec![N; max as usize];
                expect::<N>(ctx, l, Some(&last), total - 1);
            } else {
                let it = It::<N>::starting_from(TensorKey::<N>::from_letters(&w));
                follow::<N>(ctx, it, w, n + 2);
            }
        }
        4 | 5 => {
            // across a long carry or a degree boundary
            let len = if ctx.rng.chance(1, 2) { max as usize } else { gen_len(&mut ctx.rng, max) };
            let k = ctx.rng.us(len + 1);
            let w: Vec<u32> = (0..len).map(|j| if j < k { gen_letter(&mut ctx.rng, N) } else { N }).collect();
            let i = rank(N, &w);
            let i = i - (ctx.rng.below(4) as u128).min(i);
            let w = unrank(N, i);
            ctx.step(|| format!("width {}: from {:?}", N, w));
            ctx.mixin(i as u64 ^ ((N as u64) << 32));
            ctx.ev("enumerations across carries");
            let it = It::<N>::starting_from(TensorKey::<N>::from_letters(&w));
            follow::<N>(ctx, it, w, steps.min(30));
        }
        _ => {
            let len = gen_len(&mut ctx.rng, max);
            let w = gen_word(&mut ctx.rng, N, len);
            ctx.step(|| format!("width {}: from {:?}", N, w));
            let i = rank(N, &w);
            ctx.mixin(i as u64 ^ ((N as u64) << 32));
            ctx.ev("enumerations from a word");
            // long enough to pass a letter boundary of small alphabets several times
            let it = It::<N>::starting_from(TensorKey::<N>::from_letters(&w));
            follow::<N>(ctx, it, w, steps);
        }
    }
}
