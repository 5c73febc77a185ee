//! C15: the process-wide Hall set cache under concurrent requests.
use crate::ctx::{Ctx, Violation};
use crate::rng::{mix, Rng};
use rustyalgebra::lie::verif_hooks::{get_hall_set, HallSet, HallSetObject};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

type Get = fn(Option<u32>) -> HallSetObject;
macro_rules! table {
    ($($n:literal),* $(,)?) => { const TABLE: &[(u32, Get)] = &[$(($n, get_hall_set::<$n> as Get)),*]; };
}
table!(
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
    32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60,
    61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89,
    90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114,
    115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513,
    1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 65538, 1000000
);

/// One request and everything the client saw.
struct Rec {
    thread: usize,
    width: u32,
    call: u64,
    ret: u64,
    id: usize,
    answers: String,
    /// kept so that an address cannot be reused within the history
    _handle: HallSetObject,
}

struct AbortOnPanic(Arc<AtomicBool>);
impl Drop for AbortOnPanic {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.0.store(true, Ordering::SeqCst);
        }
    }
}

/// What a client asks of a set; growth is not finished in the library and not asked for.
fn query(h: &HallSetObject, width: u32) -> String {
    let mut s = String::new();
    for k in [0u64, 1, width as u64 / 2, width as u64, width as u64 + 1, u64::MAX >> 1] {
        s += &format!("L{}:{:?};", k, h.is_letter(k).ok());
    }
    for d in 0..3 {
        s += &format!("R{}:{:?};", d, h.degree_range(d).ok());
    }
    for k in [0u64, width as u64 * 1000 + 5000] {
        s += &format!("K{}:{:?};", k, h.key_details(k).ok());
    }
    s
}

/// Runs once per process: every width of the case is requested for the first time here.
pub fn run(ctx: &mut Ctx) {
    let threads = if ctx.small { 2 + ctx.rng.us(3) } else { *ctx.rng.pick(&[2usize, 3, 4, 8, 8, 16]) };
    let nw = if ctx.small { 3 } else { *ctx.rng.pick(&[8usize, 40, 40, 40, 140]) };
    // Miri: widths with small initial tables
    let mut all: Vec<usize> = (0..TABLE.len()).filter(|&i| !ctx.small || TABLE[i].0 > 10).collect();
    ctx.rng.shuffle(&mut all);
    let mut widths = all.clone();
    widths.truncate(nw);
    let spare: Vec<usize> = all[nw..].iter().take(if ctx.small { 1 } else { 4 }).cloned().collect();
    let jitter = if ctx.small { 0 } else { *ctx.rng.pick(&[0u64, 0, 20, 200, 2000]) };
    let mode = ctx.rng.below(4);
    let case_seed = ctx.rng.u64();
    ctx.step(|| format!("{} threads, widths {:?}, jitter {}, mode {}", threads, widths.iter().map(|&i| TABLE[i].0).collect::<Vec<_>>(), jitter, mode));
    ctx.mixin(case_seed);

    let clock = Arc::new(AtomicU64::new(0));
    let log: Arc<Mutex<Vec<Rec>>> = Arc::new(Mutex::new(vec![]));
    let progress: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let tids: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let gate: Arc<Vec<AtomicUsize>> = Arc::new((0..widths.len()).map(|_| AtomicUsize::new(0)).collect());
    let finished = Arc::new(AtomicUsize::new(0));
    // a thread waiting at a rendezvous of this monitor, not in the library
    let waiting: Arc<Vec<AtomicBool>> = Arc::new((0..threads).map(|_| AtomicBool::new(false)).collect());
    let abort = Arc::new(AtomicBool::new(false));
    let widths = Arc::new(widths);
    let mut handles = vec![];
    for t in 0..threads {
        let (waiting, abort) = (waiting.clone(), abort.clone());
        let (clock, log, progress, tids, gate, finished, widths) =
            (clock.clone(), log.clone(), progress.clone(), tids.clone(), gate.clone(), finished.clone(), widths.clone());
        handles.push(std::thread::spawn(move || {
            tids[t].store(gettid(), Ordering::SeqCst);
            let _guard = AbortOnPanic(abort.clone());
            let mut r = Rng::new(mix(case_seed ^ t as u64));
            let mut mine: Vec<Rec> = vec![];
            let request = |w: usize, r: &mut Rng, mine: &mut Vec<Rec>| {
                let pre = match r.below(3) {
                    0 if r.chance(1, 20) => Some(r.below(2000) as u32),
                    0 => Some(r.below(4) as u32),
                    _ => None,
                };
                let call = clock.fetch_add(1, Ordering::SeqCst);
                let h = TABLE[w].1(pre);
                let ret = clock.fetch_add(1, Ordering::SeqCst);
                let answers = query(&h, TABLE[w].0);
                mine.push(Rec { thread: t, width: TABLE[w].0, call, ret, id: h.verif_identity(), answers, _handle: h });
                progress[t].fetch_add(1, Ordering::SeqCst);
            };
            for i in 0..widths.len() {
                // mode 0, 1: all threads at the same fresh width; 2: rotated; 3: random mixture
                let w = match mode {
                    2 => widths[(i + t) % widths.len()],
                    3 => widths[r.us(widths.len())],
                    _ => widths[i],
                };
                // rendezvous (spinning, so that a blocked thread can only be blocked in the library)
                gate[i].fetch_add(1, Ordering::SeqCst);
                if mode < 3 {
                    waiting[t].store(true, Ordering::SeqCst);
                    while !abort.load(Ordering::SeqCst) && gate[i].load(Ordering::SeqCst) < threads {
                        std::hint::spin_loop();
                        if cfg!(miri) {
                            std::thread::yield_now();
                        } else if r.chance(1, 64) {
                            std::thread::yield_now();
                        }
                    }
                    waiting[t].store(false, Ordering::SeqCst);
                }
                for _ in 0..r.below(jitter + 1) {
                    std::hint::spin_loop();
                }
                request(w, &mut r, &mut mine);
                if r.chance(1, 3) {
                    // another width, seen before or not, while others are still at their first
                    let w = widths[r.us(widths.len())];
                    request(w, &mut r, &mut mine);
                }
            }
            log.lock().unwrap().extend(mine);
            finished.fetch_add(1, Ordering::SeqCst);
        }));
    }
    if !cfg!(miri) {
        watch(&progress, &tids, &waiting, &finished, threads);
    }
    let mut panicked = None;
    for h in handles {
        if let Err(e) = h.join() {
            panicked = Some(
                e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            );
        }
    }
    if let Some(m) = panicked {
        std::panic::panic_any(Violation(format!("a request or query panicked: {}", m)));
    }
    let mut log = std::mem::take(&mut *log.lock().unwrap());
    // later requests from this thread and a new one
    for &w in widths.iter() {
        let call = clock.fetch_add(1, Ordering::SeqCst);
        let h = TABLE[w].1(None);
        let ret = clock.fetch_add(1, Ordering::SeqCst);
        let answers = query(&h, TABLE[w].0);
        log.push(Rec { thread: threads, width: TABLE[w].0, call, ret, id: h.verif_identity(), answers, _handle: h });
    }
    let mut filler: Vec<Vec<u8>> = vec![];
    for &w in &spare {
        forgotten(ctx, w, &mut filler);
    }
    judge(ctx, &mut log, threads);
}

/// A set nobody holds on to is still the set of its width. Its address must not be handed out again in between, so other
/// allocations of all sizes are made first.
fn forgotten(ctx: &mut Ctx, w: usize, filler: &mut Vec<Vec<u8>>) {
    let first = {
        let h = TABLE[w].1(None);
        h.verif_identity()
    };
    let reps = if ctx.small { 1 } else { 4 };
    for size in (8..1200).step_by(8) {
        for _ in 0..reps {
            filler.push(Vec::with_capacity(size));
        }
    }
    let again = TABLE[w].1(None).verif_identity();
    ctx.ev("requests after all handles were dropped");
    if again != first {
        ctx.fail(format!("width {}: got set {:#x}, and after dropping it another set {:#x}", TABLE[w].0, first, again));
    }
}

/// offline check of the recorded history
fn judge(ctx: &mut Ctx, log: &mut Vec<Rec>, threads: usize) {
    log.sort_by_key(|r| r.call);
    ctx.evn("requests recorded", log.len() as u64);
    ctx.evn("queries recorded", log.len() as u64 * 11);
    ctx.evn("threads run", threads as u64);
    let mut by_width: HashMap<u32, Vec<usize>> = HashMap::new();
    let mut owner: HashMap<usize, u32> = HashMap::new();
    for (i, r) in log.iter().enumerate() {
        by_width.entry(r.width).or_default().push(i);
    }
    let mut widths: Vec<u32> = by_width.keys().cloned().collect();
    widths.sort();
    for w in widths {
        let rs = &by_width[&w];
        let first = &log[rs[0]];
        for &i in rs {
            let r = &log[i];
            if r.id != first.id {
                ctx.fail(format!(
                    "width {}: thread {} (call {}, return {}) got set {:#x}, thread {} (call {}, return {}) got another set {:#x}",
                    w, first.thread, first.call, first.ret, first.id, r.thread, r.call, r.ret, r.id
                ));
            }
            if r.answers != first.answers {
                ctx.fail(format!("width {}: answers differ: {} / {}", w, first.answers, r.answers));
            }
        }
        if let Some(o) = owner.insert(first.id, w) {
            ctx.fail(format!("widths {} and {} share the set {:#x}", o, w, first.id));
        }
        // the set is the one of this width
        for (k, want) in [(0u64, false), (1, true), (w as u64, true), (w as u64 + 1, false)] {
            let text = format!("L{}:{:?};", k, Some(want));
            if !first.answers.contains(&text) {
                ctx.fail(format!("width {}: the set does not answer {} to is_letter({}): {}", w, want, k, first.answers));
            }
        }
        // what interleaving was seen: requests that began before the first one returned
        let first_ret = rs.iter().map(|&i| log[i].ret).min().unwrap();
        let over = rs.iter().filter(|&&i| log[i].call < first_ret).count();
        ctx.ev("first requests");
        if over > 1 {
            ctx.ev("contended first requests");
            ctx.nontrivial = true;
        }
        let mut h = over as u64;
        let mut order: Vec<usize> = rs.iter().filter(|&&i| log[i].call < first_ret).cloned().collect();
        order.sort_by_key(|&i| log[i].ret);
        for i in order {
            h = mix(h ^ log[i].thread as u64);
        }
        ctx.note(|| format!("overlap {} order {:x}", over, h & 0xffff_ffff));
        ctx.mixin(h);
    }
}

#[cfg(not(miri))]
fn gettid() -> u64 {
    // /proc/thread-self is a symlink to <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}
#[cfg(miri)]
fn gettid() -> u64 {
    0
}

/// Deadlock detector: every thread that is in a request asleep, all others waiting for it, nobody progressing, no CPU time used, over
/// many samples. A thread waiting for the CPU is runnable, not asleep, so load cannot trigger it.
fn watch(progress: &[AtomicU64], tids: &[AtomicU64], waiting: &[AtomicBool], finished: &AtomicUsize, threads: usize) {
    let mut last: Vec<String> = vec![];
    let mut same = 0;
    loop {
        if finished.load(Ordering::SeqCst) == threads {
            return;
        }
        std::thread::sleep(std::time::Duration::from_micros(if same == 0 && last.is_empty() { 300 } else { 20_000 }));
        let mut snap = vec![];
        let mut asleep = true;
        let mut alive = 0;
        let mut in_library = 0;
        for t in 0..threads {
            let id = tids[t].load(Ordering::SeqCst);
            let p = progress[t].load(Ordering::SeqCst);
            if id == 0 {
                asleep = false;
                continue;
            }
            match std::fs::read_to_string(format!("/proc/self/task/{}/stat", id)) {
                Ok(s) => {
                    alive += 1;
                    let rest = s.rsplit(')').next().unwrap_or("").trim().to_string();
                    let f: Vec<&str> = rest.split_whitespace().collect();
                    if waiting[t].load(Ordering::SeqCst) {
                        snap.push(format!("{} {} waiting", id, p));
                        continue;
                    }
                    in_library += 1;
                    if f.first() != Some(&"S") {
                        asleep = false;
                    }
                    snap.push(format!("{} {} {} {}", id, p, f.get(11).unwrap_or(&""), f.get(12).unwrap_or(&"")));
                }
                Err(_) => snap.push(format!("{} gone {}", id, p)), // finished or panicked
            }
        }
        if alive == 0 {
            return;
        }
        if asleep && in_library > 0 && snap == last {
            same += 1;
        } else {
            same = 0;
        }
        last = snap;
        if same >= 250 {
            crate::fatal_violation(format!(
                "deadlock: the {} threads inside requests are all asleep and have made no progress over {} samples; (thread, requests completed): {:?}",
                in_library,
                same,
                (0..threads).map(|t| (t, progress[t].load(Ordering::SeqCst))).collect::<Vec<_>>()
            ));
        }
    }
}
