//! C17: letters as Hall keys, and what the shared Hall set says about element numbers.
use crate::ctx::Ctx;
use crate::ensure;
use rustyalgebra::lie::verif_hooks::{get_hall_set, HallKey, HallSet};

pub fn run(ctx: &mut Ctx) {
    let n = if ctx.rng.chance(1, 3) { *ctx.rng.pick(&WIDTHS[..12]) } else { *ctx.rng.pick(WIDTHS) };
    by_width(ctx, n)
}
// a key has 18 bits for a letter
crate::width_table!(case; 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256,
    257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131071, 131072,
    131073, 200000, 262142, 262143);

/// a letter: the ends, powers of two and their neighbours, or any
fn letter(ctx: &mut Ctx, n: u32) -> u32 {
    let l = match ctx.rng.below(6) {
        0 => 1,
        1 => n,
        2 => n - 1,
        3 => {
            let b = ctx.rng.below(18);
            (1u32 << b) - 1 + ctx.rng.below(3) as u32
        }
        _ => 1 + ctx.rng.below(n as u64) as u32,
    };
    l.clamp(1, n)
}

/// all digit runs of a text
fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).filter_map(|t| t.parse().ok()).collect()
}

fn check<const N: u32>(ctx: &mut Ctx, k: &HallKey<N>, l: u32) {
    ctx.ev("letter keys read back");
    ensure!(ctx, k.is_valid(), "width {}: the key of letter {} is not valid", N, l);
    ensure!(ctx, k.is_letter(), "width {}: the key of letter {} is not a letter", N, l);
    ensure!(ctx, k.size() == 1, "width {}: the key of letter {} has size {}", N, l, k.size());
    ensure!(ctx, k.get_lparent() == 0, "width {}: the key of letter {} has left parent {}", N, l, k.get_lparent());
    ensure!(ctx, k.get_rparent() == l, "width {}: the key of letter {} has right parent {}", N, l, k.get_rparent());
    ensure!(ctx, k.to_index() == l as usize - 1, "width {}: the key of letter {} has index {}", N, l, k.to_index());
    let s = format!("{}", k);
    ensure!(ctx, s.trim() == l.to_string(), "width {}: the key of letter {} prints as {:?}", N, l, s);
    let d = numbers(&format!("{:?}", k));
    ensure!(ctx, d == [l as u64, 0, l as u64, 1], "width {}: the debug text of letter {} is {:?}", N, l, format!("{:?}", k));
    ctx.evn("texts compared", 2);
}

fn case<const N: u32>(ctx: &mut Ctx) {
    ctx.note(|| format!("width {}", N));
    ctx.nontrivial = true;
    ctx.mixin(N as u64);
    let e = HallKey::<N>::new();
    ctx.ev("empty keys");
    ensure!(ctx, !e.is_valid() && !e.is_letter() && e.size() == 0, "width {}: the empty key is valid, a letter or of size {}", N, e.size());
    ensure!(ctx, e.get_lparent() == 0 && e.get_rparent() == 0, "width {}: the empty key has parents", N);
    for _ in 0..4 {
        let l = letter(ctx, N);
        ctx.mixin(l as u64);
        ctx.step(|| format!("width {} letter {}", N, l));
        let k = HallKey::<N>::from_letter(l);
        check(ctx, &k, l);
        let m = letter(ctx, N);
        let k2 = HallKey::<N>::from_letter(m);
        check(ctx, &k2, m);
        check(ctx, &k, l);
    }
    // the shared set
    let pre = if ctx.rng.chance(1, 2) { None } else { Some(ctx.rng.below(5) as u32) };
    ctx.step(|| format!("Hall set of width {}, {:?}", N, pre));
    let hs = get_hall_set::<N>(pre);
    for _ in 0..6 {
        let k = match ctx.rng.below(6) {
            0 => 0,
            1 => N as u64,
            2 => N as u64 + 1,
            3 => ctx.rng.below(2 * N as u64 + 2),
            4 => (N as u64) + ((1 + ctx.rng.below(1 << 20)) << 32),
            _ => ctx.rng.u64() >> ctx.rng.below(64),
        };
        ctx.mixin(k);
        ctx.ev("is_letter asked");
        let want = 1 <= k && k <= N as u64;
        let got = hs.is_letter(k).ok();
        ensure!(ctx, got == Some(want), "width {}: is_letter({}) is {:?}, expected {}", N, k, got, want);
        // Growing is unfinished upstream: an element may be unknown, but what is told about it must fit the key asked for.
        if let Ok((key, l, r, d)) = hs.key_details(k) {
            ctx.ev("details told");
            ensure!(ctx, key == k, "width {}: key_details({}) speaks of {}", N, k, key);
            if k == 0 {
                ensure!(ctx, (l, r, d) == (0, 0, 0), "width {}: the empty element has parents {}, {} and degree {}", N, l, r, d);
            }
            if want {
                ensure!(ctx, (l, r, d) == (0, k, 1), "width {}: letter {} has parents {}, {} and degree {}", N, k, l, r, d);
            }
        } else {
            ctx.ev("details refused");
        }
        let (l, r) = (hs.lparent_details(k).is_ok(), hs.rparent_details(k).is_ok());
        if k >= 1 << 40 {
            // more elements than a set can hold
            ctx.ev("unknown elements");
            ensure!(ctx, !l && !r && hs.key_details(k).is_err(), "width {}: details are told of element {}", N, k);
        }
    }
    ranges::<N>(ctx, &hs);
}

/// cumulative numbers of elements, by Moebius inversion of the number of words
fn cumulative(w: u32, up_to: usize) -> Vec<u128> {
    let mut prim: Vec<u128> = vec![0; up_to + 1];
    let mut cum = vec![0u128];
    for l in 1..=up_to {
        // words of length l that are not powers of shorter ones
        let mut p = (w as u128).checked_pow(l as u32).unwrap();
        for d in 1..l {
            if l % d == 0 {
                p -= prim[d];
            }
        }
        prim[l] = p;
        cum.push(cum[l - 1] + p / l as u128);
    }
    cum
}

fn ranges<const N: u32>(ctx: &mut Ctx, hs: &impl HallSet) {
    let mut top = 1;
    while top < 31 && (N as u128).pow(top as u32 + 1) < 1 << 62 {
        top += 1;
    }
    let cum = cumulative(N, top);
    let mut last: Option<usize> = None;
    // each range holds exactly one degree; whether the numbering of degrees starts with the letters or with nothing
    // is the same for all of them
    let mut from_letters = true;
    let mut from_nothing = true;
    for d in 0..top as u32 {
        match hs.degree_range(d) {
            Ok((a, b)) => {
                ctx.ev("degree ranges compared");
                let known = |x: usize| cum.contains(&(x as u128));
                ensure!(ctx, a <= b && known(a) && known(b), "width {}: the range {}..{} of degree {} is not bounded by the dimensions {:?}", N, a, b, d, cum);
                if let Some(e) = last {
                    ensure!(ctx, e == a, "width {}: the range of degree {} starts at {}, the one before ends at {}", N, d, a, e);
                }
                last = Some(b);
                let one = (a as u128, b as u128);
                from_letters &= one == (cum[d as usize], cum[d as usize + 1]);
                from_nothing &= one == if d == 0 { (0, 0) } else { (cum[d as usize - 1], cum[d as usize]) };
                ensure!(ctx, from_letters || from_nothing, "width {}: the range {}..{} of degree {} does not hold one degree of {:?}", N, a, b, d, cum);
            }
            Err(_) => break,
        }
    }
    // all or nothing beyond what is recorded
    for d in [1000u32, u32::MAX - 1] {
        ensure!(ctx, hs.degree_range(d).is_err(), "width {}: degree {} has a range", N, d);
    }
}
