//! C06: words, indices, degrees.
use crate::ctx::Ctx;
use crate::ensure;
use crate::widths::pick_width;
use crate::words::*;
use rustyalgebra::basis::{BasisWithDegree, OrderedBasis, OrderedBasisWithDegree};
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use std::cmp::Ordering;

pub fn run(ctx: &mut Ctx) {
    let n = pick_width(ctx, WIDTHS);
    by_width(ctx, n)
}
crate::all_widths!(case);

fn word<const N: u32>(ctx: &mut Ctx, w: &[u32]) -> usize {
    type T<const N: u32> = TensorBasis<N>;
    let max = T::<N>::max_degree();
    let want = rank(N, w);
    let idx = want as usize;
    let k = TensorKey::<N>::from_letters(w);
    ctx.ev("words");
    let got = T::<N>::key_to_index(&k);
    ensure!(ctx, got as u128 == want, "width {}: index of word {:?} is {}, expected {}", N, w, got, want);
    let back = T::<N>::index_to_key(idx);
    ensure!(
        ctx,
        back == k,
        "width {}: index {} maps to the word (last letter first) {:?} of length {}, expected {:?}",
        N,
        idx,
        back.to_letters(),
        back.size(),
        w
    );
    ensure!(ctx, back.size() as usize == w.len(), "width {}: index {} maps to a word of length {}, expected {}", N, idx, back.size(), w.len());
    let rl: Vec<u32> = w.iter().rev().cloned().collect();
    ensure!(ctx, back.to_letters() == rl, "width {}: index {} maps to letters (last first) {:?}, expected {:?}", N, idx, back.to_letters(), rl);
    let again = T::<N>::key_to_index(&back);
    ensure!(ctx, again == idx, "width {}: index {} -> word -> index {}", N, idx, again);
    let d = w.len() as u32;
    ensure!(ctx, T::<N>::degree(&k) == d, "width {}: degree of {:?} is {}", N, w, T::<N>::degree(&k));
    let di = <T<N> as OrderedBasisWithDegree>::index_to_degree(idx);
    ensure!(ctx, di == d, "width {}: degree of index {} is {}, expected {}", N, idx, di, d);
    let (s, e) = (start(N, d), start(N, d + 1));
    let gs = <T<N> as OrderedBasisWithDegree>::start_of_degree(d);
    let ge = <T<N> as OrderedBasisWithDegree>::start_of_degree(d + 1);
    ensure!(ctx, gs as u128 == s, "width {}: start of degree {} is {}, expected {}", N, d, gs, s);
    ensure!(ctx, ge as u128 == e, "width {}: start of degree {} is {}, expected {}", N, d + 1, ge, e);
    ensure!(ctx, s <= want && want < e, "oracle");
    let dk = T::<N>::vector_dimension_for_key(&k);
    ensure!(ctx, dk as u128 == e, "width {}: dimension for word {:?} is {}, expected {}", N, w, dk, e);
    let di = T::<N>::vector_dimension_for_index(idx);
    ensure!(ctx, di as u128 == e, "width {}: dimension for index {} is {}, expected {}", N, idx, di, e);
    ensure!(ctx, T::<N>::compare(&k, &back) == Ordering::Equal, "width {}: {:?} does not compare Equal to itself", N, w);
    let _ = max;
    idx
}

fn shortlex(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}

fn pair<const N: u32>(ctx: &mut Ctx, a: &[u32], b: &[u32]) {
    let (ka, kb) = (TensorKey::<N>::from_letters(a), TensorKey::<N>::from_letters(b));
    let want = shortlex(a, b);
    ctx.ev("comparisons");
    let got = TensorBasis::<N>::compare(&ka, &kb);
    ensure!(ctx, got == want, "width {}: compare({:?}, {:?}) = {:?}, expected {:?}", N, a, b, got, want);
    let rev = TensorBasis::<N>::compare(&kb, &ka);
    ensure!(ctx, rev == want.reverse(), "width {}: compare({:?}, {:?}) = {:?}, expected {:?}", N, b, a, rev, want.reverse());
    let (ia, ib) = (TensorBasis::<N>::key_to_index(&ka), TensorBasis::<N>::key_to_index(&kb));
    ensure!(ctx, ia.cmp(&ib) == want, "width {}: indices {} and {} of {:?} and {:?} are not in shortlex order", N, ia, ib, a, b);
}

fn case<const N: u32>(ctx: &mut Ctx) {
    let max = TensorBasis::<N>::max_degree();
    ctx.note(|| format!("width {} max length {}", N, max));
    ctx.nontrivial = true;
    match ctx.rng.below(10) {
        0 => {
            // a run of consecutive indices from the start or around a degree boundary
            let d = ctx.rng.below(max as u64 + 1) as u32;
            let lo = if ctx.rng.chance(1, 3) { 0 } else { start(N, d).saturating_sub(ctx.rng.below(20) as u128) };
            let top = start(N, max + 1);
            let len = if ctx.small { 6 } else { 60 };
            ctx.step(|| format!("width {}: indices {}..{}", N, lo, lo + len));
            ctx.mixin(lo as u64 ^ ((N as u64) << 32));
            let mut prev: Option<Vec<u32>> = None;
            for i in lo..(lo + len).min(top) {
                let w = unrank(N, i);
                let idx = word::<N>(ctx, &w);
                ensure!(ctx, idx as u128 == i, "oracle");
                if let Some(p) = prev {
                    pair::<N>(ctx, &p, &w);
                }
                prev = Some(w);
            }
            ctx.ev("index runs");
        }
        1 => {
            // starts of all degrees
            ctx.step(|| format!("width {}: all degree starts", N));
            ctx.mixin(N as u64);
            for d in 0..=max + 1 {
                let g = <TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(d);
                ensure!(ctx, g as u128 == start(N, d), "width {}: start of degree {} is {}, expected {}", N, d, g, start(N, d));
                if d <= max {
                    for i in [start(N, d), start(N, d + 1) - 1] {
                        let g = <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i as usize);
                        ensure!(ctx, g == d, "width {}: degree of index {} is {}, expected {}", N, i, g, d);
                        ctx.ev("degree boundaries");
                        word::<N>(ctx, &unrank(N, i));
                    }
                }
            }
        }
        2 => {
            // random index
            let top = start(N, max + 1);
            let i = match ctx.rng.below(4) {
                0 => top - 1 - (ctx.rng.below(1000) as u128).min(top - 1),
                1 => ctx.rng.below(5000) as u128 % top,
                _ => (((ctx.rng.u64() as u128) << 64) | ctx.rng.u64() as u128) % top,
            };
            ctx.step(|| format!("width {}: index {}", N, i));
            ctx.mixin(i as u64 ^ ((N as u64) << 32));
            word::<N>(ctx, &unrank(N, i));
        }
        _ => {
            let la = gen_len(&mut ctx.rng, max);
            let a = gen_word(&mut ctx.rng, N, la);
            // related word: same, one letter changed, prefix, extension, independent
            let b = match ctx.rng.below(6) {
                0 => a.clone(),
                1 if la > 0 => {
                    let mut b = a.clone();
                    let p = ctx.rng.us(la);
                    b[p] = gen_letter(&mut ctx.rng, N);
                    b
                }
                2 if la > 0 => a[..ctx.rng.us(la)].to_vec(),
                3 if la > 0 => a[ctx.rng.us(la)..].to_vec(),
                4 if la < max as usize => {
                    let mut b = a.clone();
                    b.insert(ctx.rng.us(la + 1), gen_letter(&mut ctx.rng, N));
                    b
                }
                _ => {
                    let lb = gen_len(&mut ctx.rng, max);
                    gen_word(&mut ctx.rng, N, lb)
                }
            };
            ctx.step(|| format!("width {}: words {:?} and {:?}", N, a, b));
            for &l in a.iter().chain(&b) {
                ctx.mixin(l as u64);
            }
            ctx.mixin(((la as u64) << 32) ^ N as u64);
            word::<N>(ctx, &a);
            word::<N>(ctx, &b);
            pair::<N>(ctx, &a, &b);
        }
    }
}
