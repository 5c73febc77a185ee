//! C16: text output.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::dense::*;
use crate::ensure;
use crate::scalar::*;
use crate::widths::pick_width;
use crate::words::*;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};

pub fn run(ctx: &mut Ctx) {
    match ctx.rng.below(3) {
        0 => vectors(ctx),
        _ => {
            let n = pick_width(ctx, WIDTHS);
            by_width(ctx, n)
        }
    }
}
crate::all_widths!(words_case);

/// all digit runs of a text
fn numbers(s: &str) -> Vec<u64> {
    let mut v = vec![];
    let mut cur: Option<u64> = None;
    for c in s.chars() {
        match c.to_digit(10) {
            Some(d) => cur = Some(cur.unwrap_or(0).saturating_mul(10).saturating_add(d as u64)),
            None => v.extend(cur.take()),
        }
    }
    v.extend(cur);
    v
}

fn words_case<const N: u32>(ctx: &mut Ctx) {
    let max = TensorKey::<N>::max_depth();
    let la = gen_len(&mut ctx.rng, max);
    let a = gen_word(&mut ctx.rng, N, la);
    let k = TensorKey::<N>::from_letters(&a);
    ctx.note(|| format!("width {}", N));
    ctx.mixin(N as u64);
    for &l in &a {
        ctx.mixin(l as u64);
    }
    ctx.nontrivial = true;
    ctx.step(|| format!("width {} word {:?}", N, a));
    let want: Vec<u64> = k.to_letters().iter().map(|l| *l as u64).collect();
    let (plain, debug) = (format!("{}", k), format!("{:?}", k));
    ctx.evn("words printed", 2);
    ensure!(ctx, numbers(&plain) == want, "width {}: {:?} (letters {:?}) prints as {:?}", N, a, want, plain);
    ensure!(ctx, numbers(&debug) == want, "width {}: {:?} (letters {:?}) debug-prints as {:?}", N, a, want, debug);
    ensure!(ctx, k.to_string() == plain, "to_string differs from formatting");
    // a different word prints differently
    let mut b = a.clone();
    match ctx.rng.below(4) {
        0 if la > 0 => {
            let p = ctx.rng.us(la);
            b[p] = gen_letter(&mut ctx.rng, N);
        }
        1 if la < max as usize => b.push(gen_letter(&mut ctx.rng, N)),
        2 if la > 0 => {
            b.pop();
        }
        _ => b.reverse(),
    }
    let kb = TensorKey::<N>::from_letters(&b);
    ctx.ev("pairs printed");
    let (pb, db) = (format!("{}", kb), format!("{:?}", kb));
    ensure!(ctx, (a == b) == (plain == pb), "width {}: {:?} and {:?} print as {:?} and {:?}", N, a, b, plain, pb);
    ensure!(ctx, (a == b) == (debug == db), "width {}: {:?} and {:?} debug-print as {:?} and {:?}", N, a, b, debug, db);
}

fn vectors(ctx: &mut Ctx) {
    match ctx.rng.below(8) {
        0 => vec_case::<TensorBasis<2>, f64>(ctx),
        1 => vec_case::<TensorBasis<3>, f32>(ctx),
        2 => vec_case::<TensorBasis<3>, Fp<0>>(ctx),
        3 => vec_case::<TensorBasis<12>, Hs>(ctx),
        4 => vec_case::<TensorBasis<1>, f64>(ctx),
        5 => vec_case::<IntExact, Fp<0>>(ctx),
        6 => vec_case::<ZigBlock, f64>(ctx),
        _ => vec_case::<TensorBasis<5>, f64>(ctx),
    }
}

/// separators an implementation may put between terms or between a coefficient and its key
fn skip(s: &str) -> &str {
    s.trim_start_matches(|c: char| c.is_whitespace() || matches!(c, '+' | ',' | ';' | '*' | '·' | '{' | '}' | '[' | ']'))
}

fn vec_case<B: TBasis, S: Sc + std::fmt::Display>(ctx: &mut Ctx) {
    let most = if ctx.small {
        12
    } else if ctx.rng.chance(1, 150) {
        9000
    } else {
        *ctx.rng.pick(&[8usize, 40, 400])
    };
    let max = span_for::<B>(most);
    let marks = B::marks(max);
    let n = gen_size(&mut ctx.rng, &marks, max);
    let m: Vec<S> = gen_coeffs(&mut ctx.rng, n, !S::EXACT);
    let v = build::<B, S>(&m);
    ctx.note(|| format!("vector {}/{}", B::name(), S::NAME));
    let h = format!("{:?}", m).bytes().fold(3u64, |h, c| crate::rng::mix(h ^ c as u64));
    ctx.mixin(h);
    ctx.nontrivial = n > 0;
    ctx.step(|| format!("print vector {:?} over {}", m, B::name()));
    let text = format!("{}", v);
    ctx.ev("vectors printed");
    ctx.evn("terms printed", n as u64);
    let mut rest = text.as_str();
    for (i, c) in m.iter().enumerate() {
        for part in [format!("{}", c), format!("{}", B::mk(i))] {
            rest = skip(rest);
            match rest.strip_prefix(part.as_str()) {
                Some(r) => rest = r,
                None => {
                    ctx.fail(format!("vector {:?} prints as {:?}: expected {:?} for index {} at {:?}", m, text, part, i, rest));
                    return;
                }
            }
        }
    }
    ensure!(ctx, skip(rest).is_empty(), "vector {:?} prints as {:?}: {:?} is left over", m, text, rest);
}
