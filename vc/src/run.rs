//! Native runner of the obligations: replay, search, sweeps.
//!
//!   vc list
//!   vc replay ENTRY HEX            values in the order drawn
//!   vc search ENTRY SEED MILLIS    random concrete values
//!   vc sweep ENTRY                 bounded stand-in
//!
//! Exit 0: held. Exit 1: violated ("FAIL ..." line with the values). Exit 3: precondition not met.
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use vc::sym::watermark::LARGEST;
use vc::sym::{Rejected, Source, COVERED, SOURCE, TAKEN};

/// Allocator that checks layouts, double frees and writes outside of an allocation.
struct Guard;

const PAD: usize = 64;
const LIVE: u64 = 0x5afe_5afe_5afe_5afe;
const DEAD: u64 = 0xdead_dead_dead_dead;
static BROKEN: AtomicBool = AtomicBool::new(false);

unsafe fn outer(l: Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + 2 * PAD, l.align().max(16))
}

unsafe fn check(p: *mut u8, l: Layout) -> *mut u8 {
    let base = p.sub(PAD);
    let head = base as *mut u64;
    let mut ok = *head == LIVE && *head.add(1) == l.size() as u64 && *head.add(2) == l.align() as u64;
    for i in 24..PAD {
        ok &= *base.add(i) == 0xc3;
    }
    if ok {
        for i in 0..PAD {
            ok &= *p.add(l.size() + i) == 0xc3;
        }
    }
    if !ok {
        BROKEN.store(true, SeqCst);
    }
    base
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), SeqCst);
        if l.align() > PAD {
            return System.alloc(l);
        }
        let base = System.alloc(outer(l));
        if base.is_null() {
            return base;
        }
        self.dress(base, l);
        let p = base.add(PAD);
        if l.size() < 1 << 20 {
            p.write_bytes(0xa5, l.size());
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), SeqCst);
        if l.align() > PAD {
            return System.alloc_zeroed(l);
        }
        let base = System.alloc_zeroed(outer(l));
        if base.is_null() {
            return base;
        }
        self.dress(base, l);
        base.add(PAD)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > PAD {
            return System.dealloc(p, l);
        }
        let base = check(p, l);
        if BROKEN.load(SeqCst) {
            return; // leak: the heap cannot be trusted
        }
        *(base as *mut u64) = DEAD;
        if l.size() < 1 << 20 {
            p.write_bytes(0xdd, l.size());
        }
        System.dealloc(base, outer(l))
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let new = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(new);
        if !q.is_null() {
            q.copy_from_nonoverlapping(p, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

impl Guard {
    unsafe fn dress(&self, base: *mut u8, l: Layout) {
        base.write_bytes(0xc3, PAD);
        *(base as *mut u64) = LIVE;
        *(base as *mut u64).add(1) = l.size() as u64;
        *(base as *mut u64).add(2) = l.align() as u64;
        base.add(PAD + l.size()).write_bytes(0xc3, PAD);
    }
}

#[global_allocator]
static G: Guard = Guard;

static STARTED: AtomicU64 = AtomicU64::new(0);
static ROUND: AtomicU64 = AtomicU64::new(0);

enum Outcome {
    Held,
    Rejected,
    Failed(String),
}

fn run(f: fn(), src: Source) -> Outcome {
    SOURCE.with(|s| *s.borrow_mut() = src);
    TAKEN.with(|t| t.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(f));
    if BROKEN.load(SeqCst) {
        return Outcome::Failed("memory used outside its allocation, freed twice or freed with a wrong size".into());
    }
    match r {
        Ok(()) => Outcome::Held,
        Err(p) => {
            if p.is::<Rejected>() {
                Outcome::Rejected
            } else {
                let m = LAST.lock().map(|m| m.clone()).unwrap_or_default();
                Outcome::Failed(m)
            }
        }
    }
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}

fn fail(entry: &str, why: &str, extra: &str) -> ! {
    let v = TAKEN.with(|t| hex(&t.borrow()));
    println!("FAIL entry={} values={} {} why={}", entry, v, extra, why.replace('\n', " | "));
    std::process::exit(1)
}

fn mix(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) | 1
}

pub fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Rejected>() {
            if let Ok(mut m) = LAST.lock() {
                *m = format!("{}", i);
            }
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let find = |name: &str| -> fn() {
        for (n, f, _) in vc::registry().into_iter().chain(vc::sweeps()) {
            if n == format!("vc::{}", name) {
                return f;
            }
        }
        eprintln!("no entry {}", name);
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _, need) in vc::registry() {
                println!("obligation {} {}", &n[4..], need);
            }
            for (n, _, _) in vc::sweeps() {
                println!("sweep {}", &n[4..]);
            }
        }
        Some("replay") => {
            let f = find(&args[2]);
            let h = args.get(3).cloned().unwrap_or_default();
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            watchdog(args[2].clone(), 60);
            match run(f, Source::Replay(b.into())) {
                Outcome::Held => println!("held"),
                Outcome::Rejected => {
                    println!("precondition not met");
                    std::process::exit(3)
                }
                Outcome::Failed(m) => fail(&args[2], &m, ""),
            }
        }
        Some("search") => {
            let f = find(&args[2]);
            let seed: u64 = args[3].parse().unwrap();
            let ms: u64 = args[4].parse().unwrap();
            watchdog(args[2].clone(), 20);
            let end = Instant::now() + Duration::from_millis(ms);
            let (mut held, mut rejected, mut i) = (0u64, 0u64, 0u64);
            let only: Option<u64> = args.get(5).map(|s| s.parse().unwrap());
            if let Some(k) = only {
                i = k;
            }
            // deterministic stages: the number of rounds is checked against the clock in blocks
            loop {
                ROUND.store(i, SeqCst);
                STARTED.store(now(), SeqCst);
                match run(f, Source::Random(mix(seed, i))) {
                    Outcome::Held => held += 1,
                    Outcome::Rejected => rejected += 1,
                    Outcome::Failed(m) => fail(&args[2], &m, &format!("round={}", i)),
                }
                i += 1;
                if only.is_some() || (i % 16 == 0 && Instant::now() > end) {
                    break;
                }
            }
            let cov = COVERED.with(|c| c.get());
            println!("held entry={} runs={} rejected={} covered={}", args[2], held, rejected, cov);
        }
        Some("sweep") => {
            let f = find(&args[2]);
            watchdog(args[2].clone(), 300);
            STARTED.store(now(), SeqCst);
            match run(f, Source::Random(1)) {
                Outcome::Held => println!("held entry={} cases={}", args[2], COVERED.with(|c| c.get())),
                Outcome::Rejected => fail(&args[2], "precondition not met in a sweep", ""),
                Outcome::Failed(m) => fail(&args[2], &m, ""),
            }
        }
        _ => std::process::exit(2),
    }
}

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// A run that does not end within `secs` is reported as a failure: it loops.
fn watchdog(entry: String, secs: u64) {
    STARTED.store(now(), SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if now() > STARTED.load(SeqCst) + secs * 1000 {
            println!("FAIL entry={} values= round={} why=does not end within {} s", entry, ROUND.load(SeqCst), secs);
            std::process::exit(1);
        }
    });
}
