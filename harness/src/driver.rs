//! Runs a property: generated cases in fixed shards, shrinking, replay, evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// work done in this case beyond one evaluation (comparisons, runs of the library)
    pub runs: u64,
}
impl Obs {
    pub fn label<S: Into<String>>(&mut self, s: S) {
        self.labels.push(s.into());
    }
}
pub type Chk = Result<(), String>;

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send + Sync + 'static;
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    /// number of generated cases in the quick tier
    const QUICK: u32;
    /// thorough tier multiplies by this
    const THOROUGH: u32 = 20;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// seconds of processor time that one case may take, many times what it needs
    const CASE_CPU: u64 = 90;
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    fn fixed(&self) -> Vec<Self::Case> {
        vec![]
    }
    fn check(&self, c: &Self::Case, o: &mut Obs) -> Chk;
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        PANIC_MSG.with(|m| *m.borrow_mut() = s);
    }));
}
/// run something that must not panic
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what}: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

struct Slot {
    since: Instant,
    /// processor time used before the case began
    cpu: u64,
    /// where to read the processor time of the thread that runs the case
    stat: String,
    case: String,
}
/// cases in progress, for the watchdog
static SLOTS: Mutex<BTreeMap<usize, Slot>> = Mutex::new(BTreeMap::new());
/// time after which a case that uses no processor time counts as stuck
const CASE_WALL: Duration = Duration::from_secs(600);
/// processor seconds a thread has used, from the fields utime and stime in ticks of 10 ms
pub fn cpu_seconds(stat: &str) -> Option<u64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let f: Vec<u64> = s[s.rfind(')')? + 1..].split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    Some(f.iter().sum::<u64>() / 100)
}
thread_local! {
    static STAT: String = {
        let l = std::fs::read_link("/proc/thread-self").unwrap_or_default();
        format!("/proc/{}/stat", l.display())
    };
}
/// where the case in progress of each shard is noted, if it is
pub static JOURNAL: Mutex<Option<String>> = Mutex::new(None);
pub fn watch(id: &'static str, out_dir: String, case_cpu: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let s = SLOTS.lock().unwrap();
        for (shard, x) in s.iter() {
            // once a case has failed there is no point in a long wait for another
            let limit = if FIRST.lock().unwrap().is_some() { 15.min(case_cpu) } else { case_cpu };
            if x.since.elapsed().as_secs() < limit {
                continue;
            }
            let hung = cpu_seconds(&x.stat).map_or(false, |c| c >= x.cpu + limit);
            if !hung && x.since.elapsed() < CASE_WALL {
                continue;
            }
            // shrinking may have run into it: the case first seen to fail is the better answer
            if let Some(f) = FIRST.lock().unwrap().as_ref() {
                bare_evidence(id, &out_dir);
                report(id, &out_dir, f);
                std::process::exit(1);
            }
            if hung {
                let case = serde_json::from_str(&x.case).unwrap();
                let msg = format!("does not come to an end: {case_cpu} s of processor time spent on one case");
                bare_evidence(id, &out_dir);
                report(id, &out_dir, &Failure { shard: *shard, case, msg });
                std::process::exit(1);
            }
            eprintln!("WATCHDOG: no answer within {CASE_WALL:?} for case {}", clip(&x.case, 4000));
            std::process::exit(3);
        }
    });
}
/// evidence of a run that was cut short by a failure
fn bare_evidence(id: &str, out_dir: &str) {
    let ev = serde_json::json!({
        "property": id, "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()), "level": "exploration",
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended early, at a case that crashes or hangs", "samples": []},
        "assumptions": [], "wall_s": 0.0, "violations": 1,
    });
    let dir = format!("{out_dir}/evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n").ok();
}
/// Runs the check in a process of its own. If that dies (stack overflow, failed allocation),
/// runs it again with a journal, then every case that was in progress in a process of its own.
pub fn supervise(id: &str, out_dir: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("own path");
    let scratch = std::env::var("RCVERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    let journal = format!("{scratch}/journal");
    for again in [false, true] {
        // with a limit on memory, so that a case that takes all of it ends by itself
        let mut c = Command::new("/bin/sh");
        c.args(["-c", "ulimit -c 0; ulimit -v 12000000; exec \"$0\" check \"$1\""]).arg(&exe).arg(id).env("RCVERIF_CHILD", "1");
        if again {
            std::fs::create_dir_all(&journal).expect("journal");
            c.env("RCVERIF_JOURNAL", &journal);
        }
        let st = c.status().expect("run the check");
        if let Some(code) = st.code() {
            return code;
        }
        eprintln!("the check ended by signal {}", st.signal().unwrap_or(0));
    }
    let mut names: Vec<_> = std::fs::read_dir(&journal).expect("journal").filter_map(|e| e.ok()).map(|e| e.path()).collect();
    names.sort();
    for n in names {
        let Ok(text) = std::fs::read_to_string(&n) else { continue };
        let Ok(v) = serde_json::from_str::<serde_json::Value>(&text) else { continue };
        let o = Command::new("/bin/sh")
            .args(["-c", "ulimit -c 0; ulimit -v 12000000; ulimit -t 200; exec \"$0\" replay \"$1\""])
            .arg(&exe)
            .arg(&n)
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .output()
            .expect("run the case");
        let msg = match (o.status.code(), o.status.signal()) {
            (None, s) => format!("the process running the case ended by signal {}", s.unwrap_or(0)),
            (Some(1), _) => String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").to_string(),
            _ => continue,
        };
        bare_evidence(id, out_dir);
        report(id, out_dir, &Failure { shard: 0, case: v["case"].clone(), msg });
        return 1;
    }
    eprintln!("no case ends this way by itself");
    3
}
/// the first failing case as generated, reported if shrinking does not come to an end
static FIRST: Mutex<Option<Failure>> = Mutex::new(None);

/// whether a case has failed already
pub fn failed() -> bool {
    FIRST.lock().unwrap().is_some()
}

#[derive(Default)]
pub struct Acc {
    evaluations: u64,
    runs: u64,
    /// most processor time taken by one case, in seconds
    slowest: u64,
    pub distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}
fn hash(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} chars)", &s[..e], s.len())
}

pub fn one<P: Prop>(p: &P, c: &P::Case, acc: &mut Acc, shard: usize) -> Chk {
    let js = serde_json::to_string(c).unwrap_or_default();
    let stat = STAT.with(|s| s.clone());
    let cpu = cpu_seconds(&stat).unwrap_or(0);
    if let Some(j) = JOURNAL.lock().unwrap().as_ref() {
        std::fs::write(format!("{j}/{shard}.json"), format!("{{\"property\":\"{}\",\"case\":{js}}}", P::ID)).ok();
    }
    SLOTS.lock().unwrap().insert(shard, Slot { since: Instant::now(), cpu, stat, case: js.clone() });
    let mut o = Obs::default();
    let r = match catch_unwind(AssertUnwindSafe(|| p.check(c, &mut o))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    };
    SLOTS.lock().unwrap().remove(&shard);
    acc.slowest = acc.slowest.max(cpu_seconds(&STAT.with(|s| s.clone())).unwrap_or(0).saturating_sub(cpu));
    acc.evaluations += 1;
    acc.runs += o.runs;
    for l in o.labels {
        *acc.labels.entry(l).or_insert(0) += 1;
    }
    if let Err(msg) = &r {
        let mut f = FIRST.lock().unwrap();
        if f.as_ref().map_or(true, |f| shard < f.shard) {
            *f = Some(Failure { shard, case: serde_json::to_value(c).unwrap(), msg: msg.clone() });
        }
    }
    if o.nontrivial {
        let fresh = acc.distinct.insert(hash(&js));
        if fresh && acc.samples.len() < 4 && acc.evaluations % 37 == 1 {
            acc.samples.push(serde_json::Value::String(clip(&js, 400)));
        }
    }
    r
}

pub struct Failure {
    pub shard: usize,
    pub case: serde_json::Value,
    pub msg: String,
}

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out_dir: String,
    pub scale: f64,
}

const SHARDS: usize = 32;

pub fn report(id: &str, out_dir: &str, f: &Failure) {
    let rdir = format!("{out_dir}/replays");
    std::fs::create_dir_all(&rdir).ok();
    let path = format!("{rdir}/{id}-{:016x}.json", hash(&f.case.to_string()));
    let rep = serde_json::json!({"property": id, "message": f.msg, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n").expect("write replay");
    println!("property {id} broken: {}", clip(&f.msg, 2000));
    println!("case: {}", clip(&f.case.to_string(), 2000));
    println!("VIOLATION property={id} replay={path}");
}

pub fn run<P: Prop>(p: &P, a: &Args) -> i32 {
    let t0 = Instant::now();
    *JOURNAL.lock().unwrap() = std::env::var("RCVERIF_JOURNAL").ok();
    watch(P::ID, a.out_dir.clone(), P::CASE_CPU);
    let fixed = p.fixed();
    let mult = if a.thorough { P::THOROUGH as f64 } else { 1.0 } * a.scale;
    let total = (P::QUICK as f64 * mult).max(1.0) as u64;
    let next = AtomicUsize::new(0);
    let total_acc: Mutex<Acc> = Mutex::new(Acc::default());
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..threads {
            let work = || loop {
                let shard = next.fetch_add(1, Ordering::SeqCst);
                if shard >= 2 * SHARDS {
                    return;
                }
                // all shards before the first failing one are always finished
                if !failures.lock().unwrap().is_empty() {
                    return;
                }
                let mut acc = Acc::default();
                let fail = if shard < SHARDS {
                    let mut f = None;
                    for c in fixed.iter().skip(shard).step_by(SHARDS) {
                        if let Err(msg) = one(p, c, &mut acc, shard) {
                            f = Some(Failure { shard, case: serde_json::to_value(c).unwrap(), msg });
                            break;
                        }
                    }
                    f
                } else {
                    generated(p, a, shard, total, &mut acc)
                };
                let mut t = total_acc.lock().unwrap();
                t.evaluations += acc.evaluations;
                t.runs += acc.runs;
                t.slowest = t.slowest.max(acc.slowest);
                t.distinct.extend(acc.distinct);
                for (k, v) in acc.labels {
                    *t.labels.entry(k).or_insert(0) += v;
                }
                t.samples.extend(acc.samples);
                drop(t);
                if let Some(f) = fail {
                    failures.lock().unwrap().push(f);
                }
            };
            // the stack is as large as that of a main thread
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, work).expect("thread");
        }
    });
    let acc = total_acc.into_inner().unwrap();
    let mut fails = failures.into_inner().unwrap();
    fails.sort_by_key(|f| f.shard);
    let n_viol = fails.len().min(1);
    // a few samples from different shards
    let stride = (acc.samples.len() / 6).max(1);
    let samples: Vec<_> = acc.samples.iter().step_by(stride).take(6).cloned().collect();
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if a.thorough {"thorough"} else {"quick"},
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": acc.evaluations,
            "distinct_nontrivial": acc.distinct.len(),
            "rule": P::RULE,
            "fixed_cases": fixed.len(),
            "library_runs": acc.runs,
            "slowest_case_cpu_s": acc.slowest,
            "classes": acc.labels,
            "samples": samples,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": n_viol,
    });
    let dir = format!("{}/evidence", a.out_dir);
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(format!("{dir}/{}.json", P::ID), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    if let Some(f) = fails.first() {
        report(P::ID, &a.out_dir, f);
        return 1;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial, {} fixed) in {:.1}s",
        P::ID,
        acc.evaluations,
        acc.distinct.len(),
        fixed.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

fn generated<P: Prop>(p: &P, a: &Args, shard: usize, total: u64, acc: &mut Acc) -> Option<Failure> {
    let i = (shard - SHARDS) as u64;
    let n = total / SHARDS as u64 + ((i < total % SHARDS as u64) as u64);
    if n == 0 {
        return None;
    }
    let mut key = [0u8; 32];
    key[..8].copy_from_slice(&a.seed.to_le_bytes());
    key[8..16].copy_from_slice(&i.to_le_bytes());
    key[16..24].copy_from_slice(&hash(P::ID).to_le_bytes());
    let cfg = Config {
        cases: n as u32,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_shrink_time: 30_000,
        source_file: None,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
    let acc = RefCell::new(acc);
    let r = runner.run(&p.strategy(), |c| {
        one(p, &c, &mut acc.borrow_mut(), shard).map_err(TestCaseError::fail)
    });
    match r {
        Ok(()) => None,
        Err(TestError::Fail(_, c)) => {
            // the message belonging to the shrunk case
            let mut o = Obs::default();
            let msg = match catch_unwind(AssertUnwindSafe(|| p.check(&c, &mut o))) {
                Ok(Err(m)) => m,
                Ok(Ok(())) => "did not fail again".to_string(),
                Err(_) => format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())),
            };
            Some(Failure { shard, case: serde_json::to_value(&c).unwrap(), msg })
        }
        Err(TestError::Abort(r)) => {
            eprintln!("generator gave up: {r}");
            std::process::exit(4);
        }
    }
}

pub fn replay<P: Prop>(p: &P, path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("json");
    let c: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    watch(P::ID, std::env::var("RCVERIF_OUT").unwrap_or(".".into()), P::CASE_CPU);
    let r = one(p, &c, &mut Acc::default(), 0);
    match r {
        Ok(()) => {
            println!("{}: case holds", P::ID);
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={path}", P::ID);
            1
        }
    }
}
