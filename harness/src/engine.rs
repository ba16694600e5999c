//! Generated-input search: cases are vectors of choices drawn by proptest, decoded into
//! structured inputs by a check, shrunk by proptest, and saved as a replay file.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Decodes a case from its choices. An exhausted source yields zeros, the simplest choices.
pub struct Gen<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Gen<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Gen { data, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    /// A value in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// A value in `lo..=hi`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + ((self.raw() as u128 * (hi - lo + 1) as u128) >> 32) as i64
    }
    /// True with the given probability in percent; zero choices give false.
    pub fn chance(&mut self, percent: u32) -> bool {
        (self.raw() as u64 * 100) >> 32 >= (100 - percent) as u64
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }
    pub fn u64(&mut self) -> u64 {
        (self.raw() as u64) << 32 | self.raw() as u64
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// A length, biased towards the small ones.
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        let x = self.raw() as f64 / 4294967296.0;
        lo + ((hi - lo + 1) as f64 * x * x) as usize
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }
}

/// What a case that did not fail covered.
pub struct Done {
    pub desc: String,
    pub nontrivial: bool,
    pub class: &'static str,
}

pub struct Fail {
    pub desc: String,
    pub msg: String,
}

pub type Out = Result<Done, Fail>;

pub fn ok(desc: impl Into<String>, nontrivial: bool, class: &'static str) -> Out {
    Ok(Done { desc: desc.into(), nontrivial, class })
}

pub fn fail(desc: impl Into<String>, msg: impl Into<String>) -> Out {
    Err(Fail { desc: desc.into(), msg: msg.into() })
}

/// Nothing was evaluated for this case.
pub fn discard() -> Out {
    Ok(Done { desc: String::new(), nontrivial: false, class: "discarded" })
}

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) {
            PANIC.with(|p| *p.borrow_mut() = info.to_string());
        } else {
            default(info);
            std::process::exit(2);
        }
    }));
}

/// Runs code under test, a panic of it is `Err`. Anything else that panics is an error of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARDED.with(|g| g.replace(true));
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(before));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub type CheckFn = Box<dyn FnMut(&mut Gen) -> Out>;

pub struct Sub {
    pub name: &'static str,
    /// Cases of the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// The maximum number of choices of a case.
    pub choices: usize,
    pub make: Box<dyn Fn() -> CheckFn + Send + Sync>,
    /// Worker threads, 0 for all.
    pub threads: usize,
}

pub fn sub(
    name: &'static str,
    quick: u64,
    choices: usize,
    make: impl Fn() -> CheckFn + Send + Sync + 'static,
) -> Sub {
    Sub { name, quick, thorough: quick * 12, choices, make: Box::new(make), threads: 0 }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub only: Option<String>,
    pub scale: f64,
}

fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x9E37_79B9_7F4A_7C15u64;
    for p in parts {
        h ^= p.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
        h = (h ^ (h >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        h ^= h >> 31;
    }
    h
}

fn hash_str(s: &str) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    s.hash(&mut h);
    h.finish()
}

struct Failure {
    sub: &'static str,
    index: u64,
    choices: Vec<u32>,
    desc: String,
    msg: String,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

const CASE_LIMIT_S: u64 = 120;

fn case_tree(base: &[u64; 3], index: u64, choices: usize) -> impl ValueTree<Value = Vec<u32>> {
    let mut seed = [0u8; 32];
    for (i, b) in seed.chunks_mut(8).enumerate() {
        b.copy_from_slice(&mix(&[base[0], base[1], base[2], index, i as u64]).to_le_bytes());
    }
    let config = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    proptest::collection::vec(proptest::num::u32::ANY, 0..=choices).new_tree(&mut runner).unwrap()
}

/// CPU time of this process.
fn cpu_s() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64
}

/// A case takes far less than a second: one that runs for minutes does not end, unless the machine is stuck.
fn hung(p: &Property, o: &Opts, sub: &'static str, index: u64, choices: Vec<u32>, root: &std::path::Path) -> i32 {
    let before = cpu_s();
    std::thread::sleep(std::time::Duration::from_secs(10));
    if cpu_s() < before + 5 {
        println!("ERROR: a case of {}/{} did not end in {} s", p.id, sub, CASE_LIMIT_S);
        return 3;
    }
    let msg = format!("did not end in {} s (or a reduction of it did not)", CASE_LIMIT_S);
    report(p, o, &Failure { sub, index, choices, desc: format!("case {} of seed {}", index, o.seed), msg }, root);
    1
}

fn run_sub(p: &Property, s: &Sub, o: &Opts, root: &std::path::Path) -> (Stats, Option<Failure>) {
    let total = if o.tier == "thorough" { s.thorough } else { s.quick };
    let total = ((total as f64 * o.scale) as u64).max(1);
    let threads = if s.threads == 0 { 8 } else { s.threads };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    // Progress of each worker: start of its current case, in seconds + 1, 0 if idle, and its index
    let started = Instant::now();
    let current: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let base = [o.seed, hash_str(p.id), hash_str(s.name)];

    std::thread::scope(|scope| {
        let mut handles = Vec::new();
        for t in 0..threads {
            let (next, stop, stats, failure, current) = (&next, &stop, &stats, &failure, &current);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            handles.push(
                b.spawn_scoped(scope, move || {
                    let mut check = (s.make)();
                    let mut local = Stats::default();
                    let mut local_class: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let chunk = (total / 256).clamp(1, 256);
                    'work: while !stop.load(Ordering::Relaxed) {
                        let from = next.fetch_add(chunk, Ordering::Relaxed);
                        if from >= total {
                            break;
                        }
                        for index in from..(from + chunk).min(total) {
                            current[t].1.store(index, Ordering::Relaxed);
                            note(t, s.name, index);
                            current[t].0.store(started.elapsed().as_secs() + 1, Ordering::Relaxed);
                            let mut tree = case_tree(&base, index, s.choices);
                            local.evaluations += 1;
                            match check(&mut Gen::new(&tree.current())) {
                                Ok(d) => {
                                    *local_class.entry(d.class).or_insert(0) += 1;
                                    if d.nontrivial {
                                        let fresh = local.distinct.insert(hash_str(&d.desc));
                                        if fresh && index < 4096 && local.samples.len() < 6 {
                                            local.samples.push(d.desc);
                                        }
                                    }
                                }
                                Err(f) => {
                                    let (mut desc, mut msg) = (f.desc, f.msg);
                                    let mut best = tree.current();
                                    let mut budget = 4000;
                                    let from = Instant::now();
                                    let mut more = tree.simplify();
                                    while more && budget > 0 && from.elapsed().as_secs() < 60 {
                                        budget -= 1;
                                        current[t].0.store(
                                            started.elapsed().as_secs() + 1,
                                            Ordering::Relaxed,
                                        );
                                        let value = tree.current();
                                        more = match check(&mut Gen::new(&value)) {
                                            Err(f) => {
                                                desc = f.desc;
                                                msg = f.msg;
                                                best = value;
                                                tree.simplify()
                                            }
                                            Ok(_) => tree.complicate(),
                                        };
                                    }
                                    let mut slot = failure.lock().unwrap();
                                    if slot.as_ref().map_or(true, |f| index < f.index) {
                                        *slot = Some(Failure {
                                            sub: s.name,
                                            index,
                                            choices: best,
                                            desc,
                                            msg,
                                        });
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    break 'work;
                                }
                            }
                        }
                    }
                    current[t].0.store(0, Ordering::Relaxed);
                    forget(t);
                    let mut all = stats.lock().unwrap();
                    all.evaluations += local.evaluations;
                    all.distinct.extend(local.distinct);
                    for (k, v) in local_class {
                        *all.classes.entry(format!("{}:{}", s.name, k)).or_insert(0) += v;
                    }
                    all.samples.extend(local.samples);
                })
                .unwrap(),
            );
        }
        let (finished, current) = (&finished, &current);
        let watch = scope.spawn(move || {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = started.elapsed().as_secs();
                for (c, index) in current {
                    let at = c.load(Ordering::Relaxed);
                    if at > 0 && now + 1 > at + CASE_LIMIT_S {
                        let index = index.load(Ordering::Relaxed);
                        let choices = case_tree(&base, index, s.choices).current();
                        std::process::exit(hung(p, o, s.name, index, choices, root));
                    }
                }
            }
        });
        for h in handles {
            h.join().unwrap();
        }
        finished.store(true, Ordering::Relaxed);
        watch.join().unwrap();
    });
    let mut stats = stats.into_inner().unwrap();
    stats.samples.sort();
    (stats, failure.into_inner().unwrap())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

/// Runs a property, writes its evidence and returns the exit code.
pub fn run(p: &Property, o: &Opts, root: &std::path::Path) -> i32 {
    let start = Instant::now();
    let mut all = Stats::default();
    let mut failure = None;
    for s in &p.subs {
        if o.only.as_deref().map_or(false, |n| n != s.name) {
            continue;
        }
        let at = Instant::now();
        let (st, f) = run_sub(p, s, o, root);
        println!(
            "{}/{}: {} cases, {} distinct non-trivial, {:.1} s",
            p.id,
            s.name,
            st.evaluations,
            st.distinct.len(),
            at.elapsed().as_secs_f64()
        );
        for (k, v) in &st.classes {
            println!("    {} {}", k, v);
        }
        all.evaluations += st.evaluations;
        // The same text may be a case of two sub-checks
        let salt = hash_str(s.name);
        all.distinct.extend(st.distinct.iter().map(|h| mix(&[salt, *h])));
        all.classes.extend(st.classes);
        let step = (st.samples.len() / 3).max(1);
        for x in st.samples.iter().step_by(step).take(3) {
            all.samples.push(format!("{}: {}", s.name, clip(x, 300)));
        }
        if f.is_some() {
            failure = f;
            break;
        }
    }
    let violations = failure.is_some() as i32;
    let classes: Vec<String> =
        all.classes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let samples: Vec<String> = all.samples.iter().map(|s| json_str(s)).collect();
    let evidence = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id), json_str(&o.tier), o.seed, all.evaluations, all.distinct.len(),
        json_str(p.rule), classes.join(", "), samples.join(", "),
        start.elapsed().as_secs_f64(), violations
    );
    std::fs::create_dir_all(root.join("evidence")).unwrap();
    std::fs::write(root.join(format!("evidence/{}.json", p.id)), evidence).unwrap();

    match failure {
        None => {
            println!("{}: held on {} cases", p.id, all.evaluations);
            0
        }
        Some(f) => {
            report(p, o, &f, root);
            1
        }
    }
}

//////////////////// Crashes ////////////////////

const MOST_THREADS: usize = 64;

/// The cases the workers are at, in memory shared with the parent: hash of the sub-check and index.
static SHARED: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

fn shared() -> Option<&'static [AtomicU64]> {
    let p = SHARED.load(Ordering::Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { std::slice::from_raw_parts(p, 2 * MOST_THREADS) })
    }
}

fn note(t: usize, sub: &str, index: u64) {
    if let Some(all) = shared() {
        all[2 * t].store(hash_str(sub), Ordering::Relaxed);
        all[2 * t + 1].store(index, Ordering::Relaxed);
    }
}

fn forget(t: usize) {
    if let Some(all) = shared() {
        all[2 * t].store(0, Ordering::Relaxed);
    }
}

fn in_child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let code = f();
            std::process::exit(code);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        status
    }
}

/// The signal of a crash of the process itself.
fn crash(status: i32) -> Option<&'static str> {
    if !libc::WIFSIGNALED(status) {
        return None;
    }
    Some(match libc::WTERMSIG(status) {
        libc::SIGSEGV => "SIGSEGV",
        libc::SIGABRT => "SIGABRT",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => return None,
    })
}

/// How a case ends in a process of its own: 0 if it holds, 1 if it fails.
fn apart(s: &Sub, choices: Vec<u32>) -> i32 {
    in_child(|| unsafe {
        let limit = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &limit);
        libc::alarm(60);
        // No reports of crashes
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        std::thread::scope(|scope| {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            let h = b.spawn_scoped(scope, || (s.make)()(&mut Gen::new(&choices)).is_err() as i32);
            h.unwrap().join().unwrap()
        })
    })
}

/// Runs a property in a child, so that a crash of it (an exhausted stack or memory, say) is a violation too.
pub fn supervise(p: &Property, o: &Opts, root: &std::path::Path) -> i32 {
    unsafe {
        let size = 2 * MOST_THREADS * 8;
        let (prot, flags) = (libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS);
        let m = libc::mmap(std::ptr::null_mut(), size, prot, flags, -1, 0);
        assert!(m != libc::MAP_FAILED);
        SHARED.store(m as *mut AtomicU64, Ordering::Relaxed);
    }
    let status = in_child(|| run(p, o, root));
    if libc::WIFEXITED(status) {
        return libc::WEXITSTATUS(status);
    }
    let all = shared().unwrap();
    if crash(status).is_some() {
        for t in 0..MOST_THREADS {
            let (name, index) = (all[2 * t].load(Ordering::Relaxed), all[2 * t + 1].load(Ordering::Relaxed));
            let s = match p.subs.iter().find(|s| hash_str(s.name) == name) {
                Some(s) => s,
                None => continue,
            };
            let base = [o.seed, hash_str(p.id), name];
            let mut tree = case_tree(&base, index, s.choices);
            let signal = match crash(apart(s, tree.current())) {
                Some(signal) => signal,
                None => continue,
            };
            let mut best = tree.current();
            let from = Instant::now();
            let mut more = tree.simplify();
            while more && from.elapsed().as_secs() < 45 {
                let value = tree.current();
                more = if crash(apart(s, value.clone())).is_some() {
                    best = value;
                    tree.simplify()
                } else {
                    tree.complicate()
                };
            }
            let desc = format!("case {} of seed {}, reduced", index, o.seed);
            let msg = format!("crashed: {}", signal);
            report(p, o, &Failure { sub: s.name, index, choices: best, desc, msg }, root);
            return 1;
        }
    }
    println!("ERROR: the check ended with status {}", status);
    5
}

/// Saves and shows a failure.
fn report(p: &Property, o: &Opts, f: &Failure, root: &std::path::Path) {
    std::fs::create_dir_all(root.join("replays")).unwrap();
    let path = root.join(format!("replays/{}-{}.json", p.id, f.sub));
    let choices: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"seed\": {},\n \"index\": {},\n \"input\": {},\n \"message\": {},\n \"replay\": {},\n \"choices\": [{}]\n}}\n",
        json_str(p.id), json_str(f.sub), o.seed, f.index, json_str(&f.desc), json_str(&f.msg),
        json_str(&format!("cd /verif && ./run.sh {} --replay {}", p.id, path.display())),
        choices.join(",")
    );
    std::fs::write(&path, text).unwrap();
    println!("{}/{} failed on case {}:\n  input: {}\n  {}", p.id, f.sub, f.index, clip(&f.desc, 2000), clip(&f.msg, 2000));
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

/// Runs only the case of a replay file.
pub fn replay(p: &Property, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("cannot read the replay file");
    let field = |k: &str| {
        let at = text.find(&format!("\"{}\": ", k)).expect("malformed replay file") + k.len() + 4;
        text[at..].lines().next().unwrap().to_string()
    };
    let name = field("sub").trim_matches(|c| c == '"' || c == ',').to_string();
    let choices: Vec<u32> = field("choices")
        .trim_matches(|c| c == '[' || c == ']')
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    let s = p.subs.iter().find(|s| s.name == name).expect("no such sub-check");
    let status = apart(s, choices.clone());
    if let Some(signal) = crash(status) {
        println!("{}/{} failed: crashed: {}", p.id, name, signal);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    let (id, at, file) = (p.id, name.clone(), path.to_string());
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(CASE_LIMIT_S));
        println!("{}/{} failed: did not end in {} s", id, at, CASE_LIMIT_S);
        println!("VIOLATION property={} replay={}", id, file);
        std::process::exit(1);
    });
    match (s.make)()(&mut Gen::new(&choices)) {
        Ok(d) => {
            println!("{}/{}: held on {}", p.id, name, d.desc);
            0
        }
        Err(f) => {
            println!("{}/{} failed:\n  input: {}\n  {}", p.id, name, f.desc, f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
    }
}
