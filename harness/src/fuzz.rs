//! Coverage-guided search: the random choices behind a case are the input that is mutated, so
//! every case is one the generator of the property can make. Needs a build in which the crate
//! is instrumented (see run.sh): edge counters, and the operands of comparisons, for which
//! getting closer to equality counts as progress.
use crate::driver::{one, Acc, Failure, Prop};
use crate::data::Mix;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

const VP: usize = 1 << 17;
struct Shared<T>(UnsafeCell<T>);
// only touched by the one thread that runs cases, see ON
unsafe impl<T> Sync for Shared<T> {}
static NEAR: Shared<[u8; VP]> = Shared(UnsafeCell::new([0; VP]));
static ON: AtomicBool = AtomicBool::new(false);
static EDGES: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    EDGES[0].store(start as usize, Ordering::SeqCst);
    EDGES[1].store(stop as usize, Ordering::SeqCst);
}
#[inline(always)]
fn near(site: usize, a: u64, b: u64) {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let d = 64 - a.abs_diff(b).leading_zeros() as usize;
    let base = __sanitizer_cov_8bit_counters_init as usize;
    let i = (site.wrapping_sub(base).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 30).wrapping_mul(67).wrapping_add(d) % VP;
    unsafe { (*NEAR.0.get())[i] = 1 }
}
macro_rules! cmp {
    ($($n:ident $t:ty)*) => {
        $(
            #[no_mangle]
            extern "C" fn $n(a: $t, b: $t) {
                let site: usize;
                // the return address, this is built with frame pointers
                unsafe { std::arch::asm!("mov {}, [rbp+8]", out(reg) site, options(nostack, readonly, preserves_flags)) }
                near(site, a as u64, b as u64);
            }
        )*
    };
}
cmp! { __sanitizer_cov_trace_cmp1 u8 __sanitizer_cov_trace_cmp2 u16 __sanitizer_cov_trace_cmp4 u32 __sanitizer_cov_trace_cmp8 u64
__sanitizer_cov_trace_const_cmp1 u8 __sanitizer_cov_trace_const_cmp2 u16 __sanitizer_cov_trace_const_cmp4 u32 __sanitizer_cov_trace_const_cmp8 u64 }
#[no_mangle]
extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let n = unsafe { *cases } as usize;
    for i in 0..n {
        near(cases as usize + i, v, unsafe { *cases.add(2 + i) });
    }
}
fn edges() -> &'static mut [u8] {
    let (a, b) = (EDGES[0].load(Ordering::SeqCst), EDGES[1].load(Ordering::SeqCst));
    if a == 0 {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

struct Entry {
    input: Vec<u8>,
    cost: f64,
    picked: u32,
}
struct Map {
    edge: Vec<u8>,
    near: Vec<bool>,
    features: u64,
}
impl Map {
    /// features that were new
    fn update(&mut self) -> u64 {
        let mut new = 0;
        for (e, n) in edges().iter_mut().zip(self.edge.iter_mut()) {
            let bit = match *e {
                0 => continue,
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128,
            };
            *e = 0;
            if *n & bit == 0 {
                *n |= bit;
                new += 1;
            }
        }
        let near = unsafe { &mut *NEAR.0.get() };
        for (i, x) in near.iter_mut().enumerate() {
            if *x != 0 {
                *x = 0;
                if !self.near[i] {
                    self.near[i] = true;
                    new += 1;
                }
            }
        }
        self.features += new;
        new
    }
}
fn mutate(m: &mut Mix, v: &mut Vec<u8>, other: &[u8]) {
    for _ in 0..1 + m.below(5) {
        let n = v.len();
        match m.below(9) {
            _ if n < 16 => (0..64).for_each(|_| v.push(m.next() as u8)),
            0 => v[m.below(n)] = m.next() as u8,
            1 => {
                let i = m.below(n);
                v[i] ^= 1 << m.below(8);
            }
            // a choice, small or large or a little different
            2 | 3 => {
                let w = [4, 8][m.below(2)];
                let i = m.below(n - w) / 4 * 4;
                let k = m.below(4);
                for (j, x) in v[i..i + w].iter_mut().enumerate() {
                    *x = match k {
                        0 => 0,
                        1 => 255,
                        2 => m.next() as u8,
                        _ if j + 2 < w => *x,
                        _ => x.wrapping_add([1, 255, 16, 0][m.below(4)]),
                    }
                }
            }
            4 => v.truncate(16.max(m.below(n))),
            5 => {
                // a block from elsewhere
                let l = 4 * (1 + m.below(16));
                let i = m.below(n) / 4 * 4;
                let j = m.below(other.len().max(1)) / 4 * 4;
                let b: Vec<u8> = other[j.min(other.len())..].iter().copied().take(l).collect();
                if m.below(2) == 0 {
                    v.splice(i..i, b);
                } else {
                    let e = (i + b.len()).min(n);
                    v.splice(i..e, b);
                }
            }
            6 => {
                let i = m.below(n) / 4 * 4;
                let e = (i + 4 * (1 + m.below(8))).min(n);
                v.drain(i..e);
            }
            // another rest
            7 => {
                v.truncate(16.max(m.below(n)));
                let k = 64 + m.below(512);
                (0..k).for_each(|_| v.push(m.next() as u8));
            }
            _ => {
                let k = m.below(n);
                v.truncate(16.max(k));
                v.extend(other.iter().skip(k));
            }
        }
    }
    v.truncate(1 << 14);
}
fn tree<T>(s: &BoxedStrategy<T>, input: &[u8]) -> Option<Box<dyn ValueTree<Value = T>>>
where
    T: std::fmt::Debug,
{
    // after the input the choices are random, but always the same
    static REST: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let rest = REST.get_or_init(|| {
        let mut m = Mix(77);
        (0..1 << 16).map(|_| m.next() as u8).collect()
    });
    let mut all = input.to_vec();
    all.extend(rest);
    let rng = TestRng::from_seed(RngAlgorithm::PassThrough, &all);
    let cfg = Config { failure_persistence: None, max_local_rejects: 100, ..Config::default() };
    s.new_tree(&mut TestRunner::new_with_rng(cfg, rng)).ok()
}
/// one worker: result is a line of JSON in `out`
pub fn worker<P: Prop>(p: &P, out: &str, seconds: u64, seed: u64) -> i32 {
    *crate::driver::JOURNAL.lock().unwrap() = std::env::var("RCVERIF_JOURNAL").ok();
    crate::driver::watch(P::ID, std::env::var("RCVERIF_OUT").unwrap_or(".".into()), P::CASE_CPU);
    let s = p.strategy();
    let mut m = Mix(seed);
    let mut map = Map { edge: vec![0; edges().len()], near: vec![false; VP], features: 0 };
    let mut corpus: Vec<Entry> = Vec::new();
    let mut acc = Acc::default();
    let mut cost = 0.0;
    let t0 = Instant::now();
    let mut execs = 0u64;
    let mut failure = None;
    while t0.elapsed() < Duration::from_secs(seconds) {
        let input = if corpus.len() < 20 || m.below(12) == 0 {
            (0..64 + m.below(3000)).map(|_| m.next() as u8).collect()
        } else {
            // what came last, is cheap or was seldom used is preferred
            let avg = cost / execs as f64;
            let mut k = m.below(corpus.len());
            for _ in 0..4 {
                let late = 1 + m.below(corpus.len());
                let j = corpus.len() - 1 - m.below(late);
                let w = |e: &Entry| (e.cost / avg).max(0.2) * (1.0 + e.picked as f64);
                if w(&corpus[j]) < w(&corpus[k]) {
                    k = j;
                }
            }
            corpus[k].picked += 1;
            let other = corpus[m.below(corpus.len())].input.clone();
            let mut v = corpus[k].input.clone();
            mutate(&mut m, &mut v, &other);
            v
        };
        let Some(t) = tree(&s, &input) else { continue };
        let case = t.current();
        let t1 = Instant::now();
        edges().fill(0);
        ON.store(true, Ordering::SeqCst);
        let r = one(p, &case, &mut acc, 0);
        ON.store(false, Ordering::SeqCst);
        let took = t1.elapsed().as_secs_f64();
        execs += 1;
        cost += took;
        if let Err(msg) = r {
            failure = Some((t, msg));
            break;
        }
        if map.update() > 0 {
            corpus.push(Entry { input, cost: took, picked: 0 });
        }
    }
    let mut res = serde_json::json!({
        "execs": execs, "corpus": corpus.len(), "features": map.features, "edges_hit": map.edge.iter().filter(|x| **x != 0).count(), "edges": map.edge.len(),
        "distinct_nontrivial": acc.distinct.len(),
    });
    if let Some((mut t, mut msg)) = failure {
        // shrink as proptest does
        let mut case = t.current();
        let t1 = Instant::now();
        let mut more = t.simplify();
        while more && t1.elapsed() < Duration::from_secs(40) {
            match one(p, &t.current(), &mut acc, 0) {
                Err(e) => {
                    msg = e;
                    case = t.current();
                    more = t.simplify();
                }
                Ok(()) => more = t.complicate(),
            }
        }
        res["message"] = msg.into();
        res["case"] = serde_json::to_value(&case).unwrap();
    }
    std::fs::write(out, res.to_string()).expect("write result");
    0
}
/// all workers, the result joins the evidence
pub fn run<P: Prop>(_: &P, out_dir: &str, seconds: u64, seed: u64) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let scratch = std::env::var("RCVERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let mut procs = Vec::new();
    for i in 0..n {
        let out = format!("{scratch}/fuzz{i}.json");
        let journal = format!("{scratch}/fuzz-journal{i}");
        std::fs::create_dir_all(&journal).expect("journal");
        // what the watchdog of a worker reports goes to a folder of its own
        let p = std::process::Command::new("/bin/sh")
            .args(["-c", "ulimit -c 0; ulimit -v 12000000; exec \"$0\" fuzz-worker \"$1\" \"$2\" \"$3\" \"$4\""])
            .arg(&exe)
            .args([P::ID, &out, &seconds.to_string(), &(seed * 1000 + i as u64).to_string()])
            .env("RCVERIF_JOURNAL", &journal)
            .env("RCVERIF_OUT", &journal)
            .env("RCVERIF_SCRATCH", &journal)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("start worker");
        procs.push((p, out, journal));
    }
    let mut sum = std::collections::BTreeMap::new();
    let mut fail = None;
    for (mut p, out, journal) in procs {
        let st = p.wait().expect("worker");
        let read = |f: &str| std::fs::read_to_string(f).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok());
        match read(&out) {
            Some(v) => {
                for k in ["execs", "corpus", "features", "edges_hit", "edges", "distinct_nontrivial"] {
                    let x = v[k].as_u64().unwrap_or(0);
                    let e = sum.entry(k).or_insert(0u64);
                    // what is found by several workers cannot be added up
                    *e = if ["execs", "distinct_nontrivial"].contains(&k) { *e + x } else { x.max(*e) };
                }
                if let Some(msg) = v["message"].as_str() {
                    fail = Some((v["case"].clone(), msg.to_string()));
                }
            }
            None => {
                // it was ended by a case that crashes or hangs: confirm that
                let path = format!("{journal}/0.json");
                let Some(v) = read(&path) else {
                    eprintln!("a worker ended with {st} and left nothing");
                    return 3;
                };
                let again = std::process::Command::new("/bin/sh")
                    .args(["-c", "ulimit -c 0; ulimit -v 12000000; exec \"$0\" replay \"$1\" > /dev/null 2>&1"])
                    .arg(&exe)
                    .arg(&path)
                    .env("RCVERIF_OUT", &journal)
                    .env("RCVERIF_SCRATCH", &journal)
                    .status()
                    .expect("run the case");
                if again.success() {
                    eprintln!("a worker ended with {st}, but its case holds");
                    return 3;
                }
                fail = Some((v["case"].clone(), format!("the process running the case ended with {st}")));
            }
        }
    }
    let path = format!("{out_dir}/evidence/{}.json", P::ID);
    if let Some(mut ev) = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
        ev["coverage"]["guided"] = serde_json::json!({ "workers": n, "seconds": seconds, "sums_and_maxima": sum });
        ev["coverage"]["evaluations"] = (ev["coverage"]["evaluations"].as_u64().unwrap_or(0) + sum.get("execs").unwrap_or(&0)).into();
        if fail.is_some() {
            ev["violations"] = 1.into();
        }
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
    }
    if let Some((case, msg)) = fail {
        crate::driver::report(P::ID, out_dir, &Failure { shard: 0, case, msg });
        return 1;
    }
    println!("{}: held on {} more cases of a coverage-guided search ({} of {} edges, corpus up to {})", P::ID, sum["execs"], sum["edges_hit"], sum["edges"], sum["corpus"]);
    0
}
