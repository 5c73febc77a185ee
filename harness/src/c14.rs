//! C14: Lie basis dimensions.
use crate::ctx::Ctx;
use crate::ensure;
use rustyalgebra::lie::verif_hooks::DegreeRangeMap;

pub fn run(ctx: &mut Ctx) {
    let n = if ctx.rng.chance(1, 2) { *ctx.rng.pick(&WIDTHS[..8]) } else { *ctx.rng.pick(WIDTHS) };
    by_width(ctx, n)
}
crate::width_table!(case; 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 20, 25, 26, 32, 50, 64, 100, 128, 255, 256,
    1000, 1024, 4096, 10000, 65535, 65536, 1000000, 16777216, 1073741823, 2147483648, 4294967295);

/// Moebius function by factorisation
fn moebius(mut n: u64) -> i128 {
    let mut m = 1;
    let mut p = 2;
    while p * p <= n {
        if n % p == 0 {
            n /= p;
            if n % p == 0 {
                return 0;
            }
            m = -m;
        }
        p += 1;
    }
    if n > 1 {
        m = -m;
    }
    m
}
/// number of Lyndon words of length l over w letters
fn witt(w: u32, l: u32) -> i128 {
    let mut s: i128 = 0;
    for d in 1..=l {
        if l % d == 0 {
            s += moebius(d as u64) * (w as i128).pow(l / d);
        }
    }
    assert!(s % l as i128 == 0);
    s / l as i128
}
/// largest degree whose powers fit comfortably
fn top(w: u32) -> u32 {
    if w == 1 {
        return 120;
    }
    let mut l = 0;
    let mut p: u128 = 1;
    while p * (w as u128) < 1 << 62 {
        p *= w as u128;
        l += 1;
    }
    l
}

fn case<const N: u32>(ctx: &mut Ctx) {
    // with one letter the degrees go beyond the first product of four primes now and then
    let t = if N == 1 && !ctx.small && ctx.rng.chance(1, 60) { 480 } else { top(N) };
    let cum: Vec<u64> = {
        let mut v = vec![0u64];
        for l in 1..=t {
            v.push(v[l as usize - 1] + witt(N, l) as u64);
        }
        v
    };
    let n0 = match ctx.rng.below(4) {
        0 => 0,
        1 => 1,
        2 => t + 1,
        _ => ctx.rng.below(t as u64 + 2) as u32,
    };
    ctx.note(|| format!("width {} up to degree {}", N, t));
    ctx.mixin(N as u64 ^ ((n0 as u64) << 32));
    ctx.nontrivial = true;
    ctx.step(|| format!("width {}: map with {} degrees", N, n0));
    let mut m = DegreeRangeMap::<N>::new(n0);
    let mut len = n0;
    check::<N>(ctx, &m, len, &cum);
    for _ in 0..ctx.rng.us(5) {
        let r = match ctx.rng.below(4) {
            0 => len.min(t),
            1 => (len + 1).min(t),
            _ => ctx.rng.below(t as u64 + 1) as u32,
        };
        ctx.step(|| format!("grow to {}", r));
        ctx.ev("grow");
        ctx.mixin(r as u64);
        ensure!(ctx, m.grow(r).is_ok(), "width {}: growing from {} degrees to {} failed", N, len, r);
        len = len.max(r + 1);
        check::<N>(ctx, &m, len, &cum);
    }
}

fn check<const N: u32>(ctx: &mut Ctx, m: &DegreeRangeMap<N>, len: u32, cum: &[u64]) {
    for d in 0..len {
        let g = m.get(d);
        ctx.ev("dimensions compared");
        match g {
            Ok(v) => ensure!(ctx, v as u64 == cum[d as usize], "width {}: {} elements of degree at most {}, expected {}", N, v, d, cum[d as usize]),
            Err(e) => ctx.fail(format!("width {}: degree {} of {} recorded is an error: {}", N, d, len, e)),
        }
    }
    for d in [len, len + 1, len + 100, u32::MAX] {
        ctx.ev("degrees out of range");
        let g = m.get(d);
        ensure!(ctx, g.is_err(), "width {}: degree {} beyond the {} recorded gives {:?}", N, d, len, g);
    }
    let last = if len == 0 { 0 } else { cum[len as usize - 1] };
    // elements: ends of each degree and random ones
    let mut ks: Vec<u64> = vec![];
    for d in 1..len as usize {
        if ctx.small && d > 3 {
            break;
        }
        let (lo, hi) = (cum[d - 1] + 1, cum[d]);
        if lo <= hi {
            ks.extend([lo, hi, lo + ctx.rng.below(hi - lo + 1)]);
            if hi > lo {
                ks.extend([lo + 1, hi - 1]);
            }
        }
    }
    for k in ks {
        let want = (0..len).find(|&d| cum[d as usize] >= k).unwrap();
        ctx.ev("element degrees compared");
        match m.find_deg(k) {
            Ok(d) => ensure!(ctx, d == want, "width {}: element {} has degree {}, expected {}", N, k, d, want),
            Err(e) => ctx.fail(format!("width {}: element {} of {} is an error: {}", N, k, last, e)),
        }
    }
    for k in [last + 1, last + 2, last + 1 + ctx.rng.below(1 << 40), u64::MAX] {
        ctx.ev("elements out of range");
        let g = m.find_deg(k);
        ensure!(ctx, g.is_err(), "width {}: element {} beyond the {} recorded gives degree {:?}", N, k, last, g);
    }
}
