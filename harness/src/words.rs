//! Independent word arithmetic: words are Vec<u32> with letters 1..=n, first letter first.
use crate::rng::Rng;

/// number of words of length < d  (1 + n + ... + n^(d-1)), saturating at u128::MAX/4
pub fn start(n: u32, d: u32) -> u128 {
    let mut total: u128 = 0;
    let mut pow: u128 = 1;
    for _ in 0..d {
        total = total.saturating_add(pow);
        pow = pow.saturating_mul(n as u128);
        if total > u128::MAX / 8 {
            return u128::MAX / 4;
        }
    }
    total
}

/// shortlex rank
pub fn rank(n: u32, w: &[u32]) -> u128 {
    let mut off: u128 = 0;
    for &l in w {
        assert!(l >= 1 && l <= n);
        off = off * n as u128 + (l - 1) as u128;
    }
    start(n, w.len() as u32) + off
}

pub fn degree_of(n: u32, idx: u128) -> u32 {
    let mut d = 0;
    while start(n, d + 1) <= idx {
        d += 1;
    }
    d
}

pub fn unrank(n: u32, idx: u128) -> Vec<u32> {
    let d = degree_of(n, idx);
    let mut off = idx - start(n, d);
    let mut w = vec![0u32; d as usize];
    for p in (0..d as usize).rev() {
        w[p] = (off % n as u128) as u32 + 1;
        off /= n as u128;
    }
    w
}

/// successor in shortlex order
pub fn succ(n: u32, w: &[u32]) -> Vec<u32> {
    let mut v = w.to_vec();
    let mut i = v.len();
    while i > 0 {
        i -= 1;
        if v[i] < n {
            v[i] += 1;
            return v;
        }
        v[i] = 1;
    }
    vec![1; w.len() + 1]
}

pub fn gen_letter(r: &mut Rng, n: u32) -> u32 {
    match r.below(6) {
        0 => 1,
        1 => n,
        2 => n - (r.below(2).min(n as u64 - 1)) as u32,
        _ => r.range(1, n as u64) as u32,
    }
}

/// random word of exactly len letters, biased to boundary shapes
pub fn gen_word(r: &mut Rng, n: u32, len: usize) -> Vec<u32> {
    match r.below(8) {
        0 => vec![1; len],
        1 => vec![n; len],
        2 => {
            // prefix, then a run of the last letter (long carries)
            let k = r.us(len + 1);
            (0..len).map(|i| if i < k { gen_letter(r, n) } else { n }).collect()
        }
        3 => {
            // run of ones, then random (leading zeros of the packed form)
            let k = r.us(len + 1);
            (0..len).map(|i| if i < k { 1 } else { gen_letter(r, n) }).collect()
        }
        4 => {
            let mut w = vec![*r.pick(&[1, n]); len];
            if len > 0 {
                let p = r.us(len);
                w[p] = gen_letter(r, n);
            }
            w
        }
        _ => (0..len).map(|_| gen_letter(r, n)).collect(),
    }
}

/// random length up to max, biased to 0, 1, max-1, max
pub fn gen_len(r: &mut Rng, max: u32) -> usize {
    let m = max as u64;
    (match r.below(10) {
        0 => 0,
        1 => 1.min(m),
        2 => m,
        3 => m.saturating_sub(1),
        4..=6 => r.below(m.min(5) + 1),
        _ => r.below(m + 1),
    }) as usize
}
