//! Runs one check over many seeded cases, in parallel, and prints one JSON line.
use crate::rng::Rng;
use std::{
    collections::HashSet,
    hash::{DefaultHasher, Hash, Hasher},
    os::unix::fs::FileExt,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    time::{Duration, Instant},
};

pub struct Opts {
    pub check: String,
    pub seed: u64,
    pub secs: f64,
    pub threads: usize,
    pub case: Option<u64>,
    pub skip: HashSet<u64>,
    pub dir: String,
    pub max_cases: u64,
    pub hang_secs: u64,
    pub bin: String,
    pub arg: String,
}

/// what one case reports besides passing or failing
#[derive(Default)]
pub struct Case {
    pub index: u64,
    pub nontrivial: bool,
    pub fp: DefaultHasher,
    pub note: String,
    pub dir: String,
    pub bin: String,
    pub verbose: bool,
}
impl Case {
    pub fn mark<T: Hash>(&mut self, t: T) {
        t.hash(&mut self.fp);
    }
}

pub type CaseFn = fn(&mut Rng, &mut Case) -> Result<(), String>;

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

thread_local! { static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn one(f: CaseFn, seed: u64, index: u64, dir: &str, bin: &str, verbose: bool) -> (Result<(), String>, Case) {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(index));
    let mut c = Case { index, dir: dir.to_string(), bin: bin.to_string(), verbose, ..Case::default() };
    let res = catch_unwind(AssertUnwindSafe(|| f(&mut r, &mut c)));
    let res = match res {
        Ok(x) => x,
        Err(_) => Err(format!("panic: {} (input so far: {})", PANIC.with(|p| p.borrow().clone()), c.note)),
    };
    (res, c)
}

/// keeps the real stdout for our own report; what the solver prints goes nowhere
pub fn quiet_stdout() -> std::fs::File {
    use std::os::fd::{AsFd, AsRawFd};
    unsafe extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    let keep = std::io::stdout().as_fd().try_clone_to_owned().unwrap();
    let null = std::fs::File::create("/dev/null").unwrap();
    unsafe {
        dup2(null.as_raw_fd(), 1);
        dup2(null.as_raw_fd(), 2);
    }
    keep.into()
}

pub fn run(o: &Opts, f: CaseFn) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
    let mut out = quiet_stdout();
    if let Some(i) = o.case {
        let (res, c) = one(f, o.seed, i, &o.dir, &o.bin, true);
        match res {
            Ok(()) => writeln!(out, "{{\"case\":{i},\"ok\":true,\"note\":\"{}\"}}", esc(&c.note)).unwrap(),
            Err(e) => writeln!(out, "{{\"case\":{i},\"ok\":false,\"message\":\"{}\",\"note\":\"{}\"}}", esc(&e), esc(&c.note)).unwrap(),
        }
        return;
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let start = Instant::now();
    let fails: Mutex<Vec<(u64, String, String)>> = Mutex::new(Vec::new());
    let fps: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let evals = AtomicU64::new(0);
    let running: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let started: Vec<AtomicU64> = (0..o.threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (next, stop, fails, fps, samples, evals, running, started, done) = (&next, &stop, &fails, &fps, &samples, &evals, &running, &started, &done);
            let dir = format!("{}/t{t}", o.dir);
            let _ = std::fs::create_dir_all(&dir);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let prog = std::fs::File::create(format!("{}/progress.{t}", o.dir)).unwrap();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= o.max_cases || stop.load(Ordering::Relaxed) || start.elapsed().as_secs_f64() > o.secs {
                            break;
                        }
                        if o.skip.contains(&i) {
                            continue;
                        }
                        let _ = prog.write_all_at(&(i + 1).to_le_bytes(), 0);
                        started[t].store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        running[t].store(i, Ordering::Relaxed);
                        let (res, c) = one(f, o.seed, i, &dir, &o.bin, false);
                        running[t].store(u64::MAX, Ordering::Relaxed);
                        evals.fetch_add(1, Ordering::Relaxed);
                        if c.nontrivial {
                            let h = c.fp.finish();
                            let mut g = fps.lock().unwrap();
                            let new = g.insert(h);
                            let n = g.len();
                            drop(g);
                            if new && (n <= 2 || n == 50) {
                                let mut x = c.note.clone();
                                x.truncate(600);
                                samples.lock().unwrap().push(x);
                            }
                        }
                        if let Err(e) = res {
                            let mut g = fails.lock().unwrap();
                            g.push((i, e, c.note.clone()));
                            if g.len() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    let _ = prog.write_all_at(&0u64.to_le_bytes(), 0);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // watchdog: a case that does not end is reported to the driver, which re-runs it alone
        s.spawn(|| {
            while done.load(Ordering::Relaxed) < o.threads as u64 {
                std::thread::sleep(Duration::from_millis(20));
                let now = start.elapsed().as_millis() as u64;
                for t in 0..o.threads {
                    let i = running[t].load(Ordering::Relaxed);
                    if i != u64::MAX && now.saturating_sub(started[t].load(Ordering::Relaxed)) > o.hang_secs * 1000 && running[t].load(Ordering::Relaxed) == i {
                        let mut out = std::fs::File::create(format!("{}/hang", o.dir)).unwrap();
                        writeln!(out, "{i}").unwrap();
                        report(&mut out_dup(), o, &evals, &fps, &samples, &fails, start);
                        std::process::exit(4);
                    }
                }
            }
        });
    });
    report(&mut out, o, &evals, &fps, &samples, &fails, start);
}

fn out_dup() -> std::fs::File {
    std::fs::File::create("/dev/null").unwrap()
}

#[allow(clippy::too_many_arguments)]
fn report(out: &mut std::fs::File, o: &Opts, evals: &AtomicU64, fps: &Mutex<HashSet<u64>>, samples: &Mutex<Vec<String>>, fails: &Mutex<Vec<(u64, String, String)>>, start: Instant) {
    use std::io::Write;
    let s: Vec<String> = samples.lock().unwrap().iter().map(|x| format!("\"{}\"", esc(x))).collect();
    let mut g = fails.lock().unwrap();
    g.sort();
    let fl: Vec<String> = g.iter().map(|(i, e, n)| format!("{{\"case\":{i},\"message\":\"{}\",\"note\":\"{}\"}}", esc(e), esc(n))).collect();
    let _ = writeln!(
        out,
        "{{\"check\":\"{}\",\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failures\":[{}],\"secs\":{:.2}}}",
        o.check,
        evals.load(Ordering::Relaxed),
        fps.lock().unwrap().len(),
        s.join(","),
        fl.join(","),
        start.elapsed().as_secs_f64()
    );
}
