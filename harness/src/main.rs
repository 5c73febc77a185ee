//! Runtime monitor for rustyalgebra: one worker process running numbered cases of one property.
//!
//!   monitor PROP --seed S --start A --stride B --count N [--thorough] [--small] [--verbose]
//!           [--progress FILE] [--out FILE] [--fps FILE]
//!
//! Case k of a property depends on (PROP, S, k) only. Exit 0: nothing found; 1: violation.
#![allow(dead_code)]
mod bases;
#[cfg(feature = "c01")]
mod c01;
#[cfg(any(feature = "c02", feature = "c03"))]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(any(feature = "c04", feature = "c05"))]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(all(verif_hooks, feature = "c13"))]
mod c13;
#[cfg(all(verif_hooks, feature = "c14"))]
mod c14;
#[cfg(all(verif_hooks, feature = "c15"))]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(all(verif_hooks, feature = "c17"))]
mod c17;
mod ctx;
mod dense;
mod memory;
mod ops;
mod rng;
mod scalar;
mod tensor;
mod widths;
mod words;

use ctx::{Ctx, Violation, LAST_PANIC};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::OnceLock;

struct Args {
    prop: String,
    seed: u64,
    start: u64,
    stride: u64,
    count: u64,
    thorough: bool,
    small: bool,
    verbose: bool,
    progress: Option<String>,
    out: Option<String>,
    fps: Option<String>,
}
static ARGS: OnceLock<Args> = OnceLock::new();

fn parse() -> Args {
    let mut a = Args {
        prop: String::new(),
        seed: 1,
        start: 0,
        stride: 1,
        count: 1,
        thorough: false,
        small: false,
        verbose: false,
        progress: None,
        out: None,
        fps: None,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("value");
        match x.as_str() {
            "--seed" => a.seed = val().parse().unwrap(),
            "--start" => a.start = val().parse().unwrap(),
            "--stride" => a.stride = val().parse().unwrap(),
            "--count" => a.count = val().parse().unwrap(),
            "--progress" => a.progress = Some(val()),
            "--out" => a.out = Some(val()),
            "--fps" => a.fps = Some(val()),
            "--thorough" => a.thorough = true,
            "--small" => a.small = true,
            "--verbose" => a.verbose = true,
            p => a.prop = p.to_string(),
        }
    }
    a
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{} ...", &s[..e])
    }
}

/// Report a violation that cannot be unwound from.
pub fn fatal_violation(msg: String) -> ! {
    println!("FOUND {}", msg);
    std::process::exit(1)
}

fn main() {
    let args = ARGS.get_or_init(parse);
    // deep but legitimate recursion is not at issue: use a fixed, roomy stack
    if cfg!(miri) {
        real_main(args)
    } else {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || real_main(args)).unwrap();
        if h.join().is_err() {
            std::process::exit(3);
        }
    }
}

fn real_main(args: &'static Args) {
    ctx::install_panic_hook();
    let run: fn(&mut Ctx) = match args.prop.as_str() {
        #[cfg(feature = "c01")]
        "C01" => c01::run,
        #[cfg(feature = "c02")]
        "C02" => c02::run,
        #[cfg(feature = "c03")]
        "C03" => c03::run,
        #[cfg(feature = "c04")]
        "C04" => c04::run,
        #[cfg(feature = "c05")]
        "C05" => c05::run,
        #[cfg(feature = "c06")]
        "C06" => c06::run,
        #[cfg(feature = "c07")]
        "C07" => c07::run,
        #[cfg(feature = "c08")]
        "C08" => c08::run,
        #[cfg(feature = "c09")]
        "C09" => c09::run,
        #[cfg(feature = "c10")]
        "C10" => c10::run,
        #[cfg(feature = "c11")]
        "C11" => c11::run,
        #[cfg(feature = "c12")]
        "C12" => c12::run,
        #[cfg(all(verif_hooks, feature = "c13"))]
        "C13" => c13::run,
        #[cfg(all(verif_hooks, feature = "c14"))]
        "C14" => c14::run,
        #[cfg(all(verif_hooks, feature = "c15"))]
        "C15" => c15::run,
        #[cfg(feature = "c16")]
        "C16" => c16::run,
        #[cfg(all(verif_hooks, feature = "c17"))]
        "C17" => c17::run,
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(3)
        }
    };
    let mut ctx = Ctx::new(args.small, args.thorough);
    ctx.verbose = args.verbose;
    let prog = args.progress.as_ref().map(|p| std::fs::File::create(p).expect("progress file"));
    let mut fps: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut done = 0u64;
    let mut found: Option<(u64, String)> = None;
    for j in 0..args.count {
        let case = args.start + j * args.stride;
        if let Some(f) = &prog {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:020}", case).as_bytes(), 0);
        }
        if cfg!(miri) {
            eprintln!("CASE {}", case);
        }
        ctx.begin(&args.prop, args.seed, case);
        ctx.judge = true;
        ctx.want_desc = samples.len() < 3 && j % 7 == 3 || args.count <= 3;
        let r = ctx::quietly(|| run(&mut ctx));
        done += 1;
        if ctx.nontrivial {
            fps.insert(ctx.fp);
        }
        if !ctx.describe.is_empty() && samples.len() < 3 {
            samples.push(format!("case {}: {}", case, short(&ctx.describe.join(" | "), 600)));
        }
        if let Err(e) = r {
            let msg = match e.downcast_ref::<Violation>() {
                Some(v) => v.0.clone(),
                None => format!("unexpected panic: {}", LAST_PANIC.with(|c| c.borrow().clone())),
            };
            found = Some((case, short(&msg, 4000)));
            break;
        }
    }
    if let Some(p) = &args.fps {
        let mut b = Vec::with_capacity(fps.len() * 8);
        for f in &fps {
            b.extend_from_slice(&f.to_le_bytes());
        }
        std::fs::write(p, b).expect("fps file");
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"cases\": {}, \"distinct\": {}, ", done, fps.len());
    o.push_str("\"events\": {");
    for (i, (k, v)) in ctx.events.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    o.push_str("}, \"notes\": [");
    for (i, n) in ctx.notes.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, esc(n));
    }
    o.push_str("], \"samples\": [");
    for (i, n) in samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, esc(n));
    }
    o.push_str("], \"violation\": ");
    match &found {
        Some((c, m)) => {
            let _ = write!(o, "{{\"case\": {}, \"message\": {}}}", c, esc(m));
        }
        None => o.push_str("null"),
    }
    o.push('}');
    match &args.out {
        Some(p) => std::fs::write(p, &o).expect("out file"),
        None => println!("REPORT {}", o),
    }
    if let Some((c, m)) = found {
        println!("FOUND case {}: {}", c, m);
        std::process::exit(1);
    }
}
