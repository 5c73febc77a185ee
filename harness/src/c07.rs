//! C07: packed words against letter sequences.
use crate::ctx::{quietly, Ctx};
use crate::ensure;
use crate::widths::pick_width;
use crate::words::*;
use rustyalgebra::basis::OrderedBasis;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

pub fn run(ctx: &mut Ctx) {
    let n = pick_width(ctx, WIDTHS);
    by_width(ctx, n)
}
crate::all_widths!(case);

/// Everything the word says about its letters.
fn check<const N: u32>(ctx: &mut Ctx, k: &TensorKey<N>, w: &[u32], how: &str) {
    ctx.ev("words read back");
    ensure!(ctx, k.size() as usize == w.len(), "width {}: {} gave length {}, expected word {:?}", N, how, k.size(), w);
    // position 0 is the last letter
    for i in 0..w.len() {
        let l = k.get_letter(i as u32);
        let e = w[w.len() - 1 - i];
        ensure!(ctx, l == e, "width {}: {} gave letter {} at position {} from the end, expected {} in {:?}", N, how, l, i, e, w);
    }
    let ls = k.to_letters();
    let rl: Vec<u32> = w.iter().rev().cloned().collect();
    ensure!(ctx, ls == rl, "width {}: {} lists letters {:?} (last first), expected {:?}", N, how, ls, rl);
    #[cfg(verif_hooks)]
    {
        let it: Vec<u32> = rustyalgebra::free_tensor::TensorKeyIterator::<N>::verif_new(k).collect();
        ensure!(ctx, it == w, "width {}: {} iterates letters {:?}, expected {:?}", N, how, it, w);
        ctx.ev("letter iterations");
    }
    let direct = TensorKey::<N>::from_letters(w);
    ensure!(ctx, *k == direct, "width {}: {} is not equal to the word built from {:?}", N, how, w);
    ensure!(ctx, k.clone() == *k && k.as_ref() == k, "width {}: copy of {:?} differs", N, w);
}

fn mixw(ctx: &mut Ctx, n: u32, w: &[u32]) {
    ctx.mixin(n as u64 ^ ((w.len() as u64) << 32));
    for &l in w {
        ctx.mixin(l as u64);
    }
}

fn case<const N: u32>(ctx: &mut Ctx) {
    let max = TensorKey::<N>::max_depth();
    ctx.note(|| format!("width {} max length {}", N, max));
    let la = gen_len(&mut ctx.rng, max);
    let a = gen_word(&mut ctx.rng, N, la);
    ctx.nontrivial = true;
    let ka = TensorKey::<N>::from_letters(&a);
    mixw(ctx, N, &a);
    ctx.step(|| format!("width {} word {:?}", N, a));
    check::<N>(ctx, &ka, &a, "from_letters");
    match ctx.rng.below(8) {
        0 => {
            // letter by letter from the back
            let mut k = TensorKey::<N>::new();
            ensure!(ctx, k.size() == 0 && k.to_letters().is_empty(), "new() is not the empty word");
            let mut w: Vec<u32> = vec![];
            for &l in a.iter().rev() {
                k.push_front(l);
                w.insert(0, l);
                if w.len() < 4 || w.len() + 2 > a.len() {
                    check::<N>(ctx, &k, &w, "push_front");
                }
                ctx.ev("push_front");
            }
            if !a.is_empty() {
                let l = a[0];
                check::<N>(ctx, &TensorKey::<N>::from_letter(l), &[l], "from_letter");
            }
        }
        1 => {
            // push onto an existing word, chained
            if la < max as usize {
                let l = gen_letter(&mut ctx.rng, N);
                let mut k = ka.clone();
                k.push_front(l);
                let mut w = vec![l];
                w.extend(&a);
                ctx.ev("push_front");
                check::<N>(ctx, &k, &w, "push_front");
                if w.len() < max as usize {
                    let l2 = gen_letter(&mut ctx.rng, N);
                    k.push_front(l2);
                    w.insert(0, l2);
                    check::<N>(ctx, &k, &w, "push_front twice");
                }
                check::<N>(ctx, &ka, &a, "original after pushing onto a copy");
            }
        }
        2 | 3 | 4 => {
            // concatenation
            let room = max as usize - la;
            let lb = match ctx.rng.below(4) {
                0 => room,
                _ => gen_len(&mut ctx.rng, room as u32),
            };
            let b = gen_word(&mut ctx.rng, N, lb);
            let kb = TensorKey::<N>::from_letters(&b);
            mixw(ctx, N, &b);
            ctx.step(|| format!("concatenate with {:?}", b));
            let w: Vec<u32> = a.iter().chain(&b).cloned().collect();
            let k = ka.concatenate(&kb);
            ctx.ev("concatenations");
            check::<N>(ctx, &k, &w, "concatenate");
            check::<N>(ctx, &ka, &a, "left operand after concatenate");
            check::<N>(ctx, &kb, &b, "right operand after concatenate");
            let e = TensorKey::<N>::new();
            ensure!(ctx, ka.concatenate(&e) == ka && e.concatenate(&ka) == ka, "width {}: empty word is not a unit for {:?}", N, a);
            // associativity
            let room = max as usize - w.len();
            let lc = gen_len(&mut ctx.rng, room as u32);
            let c = gen_word(&mut ctx.rng, N, lc);
            let kc = TensorKey::<N>::from_letters(&c);
            let l = k.concatenate(&kc);
            let r = ka.concatenate(&kb.concatenate(&kc));
            ensure!(ctx, l == r, "width {}: concatenation of {:?} {:?} {:?} is not associative", N, a, b, c);
            let w2: Vec<u32> = w.iter().chain(&c).cloned().collect();
            check::<N>(ctx, &l, &w2, "concatenate three");
        }
        5 => {
            // equality exactly for equal letter sequences
            let b = match ctx.rng.below(5) {
                0 if la > 0 => {
                    let mut b = a.clone();
                    let p = ctx.rng.us(la);
                    b[p] = gen_letter(&mut ctx.rng, N);
                    b
                }
                1 if la < max as usize => {
                    // leading first letters only change the length
                    let mut b = vec![1; 1 + ctx.rng.us(max as usize - la)];
                    b.extend(&a);
                    b
                }
                2 if la < max as usize => {
                    let mut b = a.clone();
                    b.push(1);
                    b
                }
                3 => a.clone(),
                _ => {
                    let lb = gen_len(&mut ctx.rng, max);
                    gen_word(&mut ctx.rng, N, lb)
                }
            };
            mixw(ctx, N, &b);
            ctx.step(|| format!("compare with {:?}", b));
            let kb = TensorKey::<N>::from_letters(&b);
            ctx.ev("equality");
            ensure!(ctx, (ka == kb) == (a == b) && (kb == ka) == (a == b), "width {}: {:?} == {:?} gave {}", N, a, b, ka == kb);
            ensure!(ctx, (ka != kb) == (a != b), "width {}: {:?} != {:?} gave {}", N, a, b, ka != kb);
        }
        6 => {
            // too long: must be refused
            let extra = 1 + ctx.rng.us(4);
            let w = gen_word(&mut ctx.rng, N, max as usize + extra);
            ctx.step(|| format!("from_letters with {} letters", w.len()));
            ctx.ev("overlong words");
            let r = quietly(|| TensorKey::<N>::from_letters(&w));
            ensure!(ctx, r.is_err(), "width {}: from_letters accepted {} letters, maximum {}", N, w.len(), max);
        }
        _ => {
            // total too long: must be refused
            if la > 0 {
                let min = max as usize - la + 1;
                let lb = if ctx.rng.chance(1, 2) { min } else { min + ctx.rng.us(max as usize - min + 1) };
                let b = gen_word(&mut ctx.rng, N, lb);
                let kb = TensorKey::<N>::from_letters(&b);
                mixw(ctx, N, &b);
                ctx.step(|| format!("concatenate {:?} (too long)", b));
                ctx.ev("overlong concatenations");
                let r = quietly(|| ka.concatenate(&kb));
                ensure!(ctx, r.is_err(), "width {}: concatenating lengths {} and {} (maximum {}) was not refused", N, la, lb, max);
            }
            // words from indices are the same words
            let i = rank(N, &a) as usize;
            check::<N>(ctx, &TensorBasis::<N>::index_to_key(i), &a, "index_to_key");
        }
    }
}
