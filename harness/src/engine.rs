//! Case loop, shrinking, replay files, evidence, crash and hang handling.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

/// Requests above this are served by an anonymous NORESERVE mapping (never touched memory costs
/// nothing), so that a hostile count is seen as a number instead of killing the process.
const BIG: usize = 64 << 20;
const MAX_LIVE: usize = 1 << 30;

thread_local! {
    static MAX_REQ: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

pub struct Tracking;

fn note(size: usize) -> bool {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(size)));
    let _ = MAX_REQ.try_with(|m| {
        if size > m.get() {
            m.set(size)
        }
    });
    if size < BIG {
        return LIVE
            .try_with(|l| {
                l.set(l.get() + size as isize);
                l.get() < MAX_LIVE as isize
            })
            .unwrap_or(true);
    }
    true
}

fn unnote(size: usize) {
    if size < BIG {
        let _ = LIVE.try_with(|l| l.set(l.get() - size as isize));
    }
}

unsafe fn big(size: usize) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        size,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    if p == libc::MAP_FAILED {
        std::ptr::null_mut()
    } else {
        p as *mut u8
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        if l.size() >= BIG {
            return big(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        if l.size() >= BIG {
            return big(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unnote(l.size());
        if l.size() >= BIG {
            libc::munmap(p as *mut libc::c_void, l.size());
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.size() < BIG && new < BIG {
            if !note(new) {
                return std::ptr::null_mut();
            }
            unnote(l.size());
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Largest single allocation request made by `f` on this thread.
pub fn max_request<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let old = MAX_REQ.with(|m| m.replace(0));
    let r = f();
    let got = MAX_REQ.with(|m| m.get());
    MAX_REQ.with(|m| m.set(old.max(got)));
    (r, got)
}

/// Sum of all allocation requests made by `f` on this thread.
pub fn all_requests<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let old = TOTAL.with(|m| m.get());
    let r = f();
    (r, TOTAL.with(|m| m.get()).wrapping_sub(old))
}

// ---------------------------------------------------------------- context

pub struct Cx {
    pub dir: PathBuf,
    n: u64,
    pub labels: BTreeMap<&'static str, u64>,
    cur_labels: Vec<&'static str>,
    nontrivial: bool,
    pub extra_evals: u64,
}

impl Cx {
    pub fn new(dir: PathBuf) -> Cx {
        std::fs::create_dir_all(&dir).unwrap();
        Cx { dir, n: 0, labels: BTreeMap::new(), cur_labels: vec![], nontrivial: false, extra_evals: 0 }
    }
    /// A fresh path in the scratch directory.
    pub fn path(&mut self) -> PathBuf {
        self.n += 1;
        self.dir.join(format!("f{}.nc", self.n))
    }
    pub fn label(&mut self, l: &'static str) {
        self.cur_labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.cur_labels.push(l);
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    /// Inner executions of one case (cut points, fault positions, ...).
    pub fn evals(&mut self, n: u64) {
        self.extra_evals += n;
    }
    pub fn cleanup(&mut self) {
        if let Ok(rd) = std::fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                let p = e.path();
                let is_dir = e.file_type().map(|t| t.is_dir()).unwrap_or(false);
                if is_dir {
                    let _ = std::fs::remove_dir_all(&p);
                } else {
                    let _ = std::fs::remove_file(&p);
                }
            }
        }
    }
}

pub struct Prop<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub strategy: fn(thorough: bool) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Cx) -> Result<(), String>,
    /// deterministic cases run before the random ones
    pub fixed: fn(thorough: bool) -> Vec<C>,
    pub quick: u64,
    pub thorough: u64,
    pub workers: usize,
    /// seconds after which a single case counts as not terminating
    pub case_timeout: u64,
    pub level: &'static str,
    /// for coverage-guided fuzzing of plain bytes: case from bytes, bytes of a case
    pub raw: Option<(fn(&[u8]) -> C, fn(&C) -> Vec<u8>)>,
    pub exhaustive_note: &'static str,
}

pub fn no_fixed<C>(_: bool) -> Vec<C> {
    vec![]
}

pub struct Env {
    pub verif: PathBuf,
    pub scratch: PathBuf,
    pub seed: u64,
    pub thorough: bool,
}

// current case of each worker, for crash and hang reports
struct Slot {
    tid: AtomicUsize,
    since_ms: AtomicU64,
    /// processor time of the worker when the case began
    cpu_ms: AtomicU64,
    text: Mutex<String>,
    ptr: AtomicUsize,
    len: AtomicUsize,
}

static SLOTS: [Slot; 64] = {
    const S: Slot = Slot {
        tid: AtomicUsize::new(0),
        since_ms: AtomicU64::new(0),
        cpu_ms: AtomicU64::new(0),
        text: Mutex::new(String::new()),
        ptr: AtomicUsize::new(0),
        len: AtomicUsize::new(0),
    };
    [S; 64]
};
static mut CRASH_PATH: [u8; 512] = [0; 512];
static mut CRASH_LINE: [u8; 1024] = [0; 1024];
static mut SCRATCH: [u8; 512] = [0; 512];
static REPORTED: AtomicBool = AtomicBool::new(false);

/// A case that uses less processor time than its limit is only reported after this many times
/// the limit: a busy machine is not a hang.
const WALL_FACTOR: u64 = 5;

/// Processor time a thread of this process has used.
fn cpu_ms(tid: usize) -> u64 {
    std::fs::read_to_string(format!("/proc/self/task/{}/schedstat", tid))
        .ok()
        .and_then(|t| t.split_whitespace().next().and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |n| n / 1_000_000)
}

fn own_cpu_ms() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn gettid() -> usize {
    unsafe { libc::syscall(libc::SYS_gettid) as usize }
}

const MAX_RSS: u64 = 8 << 30;

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|t| t.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |p| p * 4096)
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64 + 1
}

extern "C" fn on_crash(sig: libc::c_int) {
    unsafe {
        if REPORTED.swap(true, Ordering::SeqCst) {
            loop {
                libc::pause();
            }
        }
        let tid = gettid();
        let mut which = None;
        for s in SLOTS.iter() {
            if s.tid.load(Ordering::SeqCst) == tid && s.since_ms.load(Ordering::SeqCst) != 0 {
                which = Some(s);
            }
        }
        let (p, n): (*const u8, usize) = match which {
            Some(s) => (s.ptr.load(Ordering::SeqCst) as *const u8, s.len.load(Ordering::SeqCst)),
            None => {
                // not in a case: a harness problem
                let m = b"harness crashed outside of a case\n";
                libc::write(2, m.as_ptr() as *const _, m.len());
                libc::_exit(3);
            }
        };
        let fd = libc::open(
            std::ptr::addr_of!(CRASH_PATH) as *const libc::c_char,
            libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
            0o644,
        );
        if fd >= 0 {
            let mut off = 0usize;
            while off < n {
                let k = libc::write(fd, p.add(off) as *const _, n - off);
                if k <= 0 {
                    break;
                }
                off += k as usize;
            }
            libc::close(fd);
        }
        let m: &[u8] = match sig {
            libc::SIGABRT => b"the process aborted (allocation failure or abort) while running a case\n",
            libc::SIGSEGV => b"segmentation fault or stack overflow while running a case\n",
            _ => b"fatal signal while running a case\n",
        };
        libc::write(1, m.as_ptr() as *const _, m.len());
        let l = std::ptr::addr_of!(CRASH_LINE) as *const libc::c_char;
        libc::write(1, l as *const _, libc::strlen(l));
        // scratch files are removed by the caller script (path is under /dev/shm)
        libc::_exit(1);
    }
}

fn set_cstr(dst: *mut u8, cap: usize, s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(cap - 1);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), dst, n);
        *dst.add(n) = 0;
    }
}

fn install_crash(id: &str, path: &Path, scratch: &Path) {
    set_cstr(std::ptr::addr_of_mut!(CRASH_PATH) as *mut u8, 512, path.to_str().unwrap());
    set_cstr(
        std::ptr::addr_of_mut!(CRASH_LINE) as *mut u8,
        1024,
        &format!("VIOLATION property={} replay={}\n", id, path.display()),
    );
    set_cstr(std::ptr::addr_of_mut!(SCRATCH) as *mut u8, 512, scratch.to_str().unwrap());
    unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_crash as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = loc);
    }));
}

fn run_one<C>(p: &Prop<C>, c: &C, cx: &mut Cx) -> Result<(), String> {
    cx.cur_labels.clear();
    cx.nontrivial = false;
    let r = catch_unwind(AssertUnwindSafe(|| (p.check)(c, cx)));
    cx.cleanup();
    match r {
        Ok(r) => r,
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let at = PANIC_AT.with(|p| p.borrow().clone());
            Err(format!("panicked at {}: {}", at, msg))
        }
    }
}

fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

struct WorkerOut {
    evals: u64,
    inner: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    fail: Option<(String, String)>, // (json, message)
    elapsed_stop: bool,
}

fn set_slot(w: usize, t0: Instant, js: &str) {
    let s = &SLOTS[w];
    s.since_ms.store(0, Ordering::SeqCst);
    {
        let mut t = s.text.lock().unwrap();
        t.clear();
        t.push_str(js);
        s.ptr.store(t.as_ptr() as usize, Ordering::SeqCst);
        s.len.store(t.len(), Ordering::SeqCst);
    }
    s.tid.store(gettid(), Ordering::SeqCst);
    s.cpu_ms.store(own_cpu_ms(), Ordering::SeqCst);
    s.since_ms.store(now_ms(t0), Ordering::SeqCst);
}

fn clear_slot(w: usize) {
    SLOTS[w].since_ms.store(0, Ordering::SeqCst);
}

/// Looks for a smaller case that fails too.
fn shrink<C: Serialize + Clone + std::fmt::Debug>(
    p: &Prop<C>,
    tree: &mut dyn ValueTree<Value = C>,
    mut best: (C, String),
    w: usize,
    cx: &mut Cx,
    t0: Instant,
) -> (C, String) {
    let start = Instant::now();
    let mut steps = 0;
    while steps < 4000 && start.elapsed() < Duration::from_secs(40) {
        steps += 1;
        if !tree.simplify() {
            break;
        }
        loop {
            let c = tree.current();
            let js = serde_json::to_string(&c).unwrap();
            set_slot(w, t0, &js);
            let r = run_one(p, &c, cx);
            clear_slot(w);
            match r {
                Err(m) => {
                    best = (c, m);
                    break;
                }
                Ok(()) => {
                    if start.elapsed() > Duration::from_secs(40) || !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    best
}

fn worker<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static>(
    p: &Prop<C>,
    env: &Env,
    w: usize,
    fixed: Vec<C>,
    count: u64,
    stop: &AtomicBool,
    t0: Instant,
    deadline: Duration,
) -> WorkerOut {
    let mut cx = Cx::new(env.scratch.join(format!("w{}", w)));
    let mut out = WorkerOut {
        evals: 0,
        inner: 0,
        nontrivial: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
        fail: None,
        elapsed_stop: false,
    };
    let mut seed = [0u8; 32];
    let mut s = env.seed ^ fnv(p.id.as_bytes()) ^ ((w as u64 + 1) << 40);
    for k in 0..4 {
        seed[k * 8..k * 8 + 8].copy_from_slice(&crate::model::splitmix(&mut s).to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let strat = (p.strategy)(env.thorough);

    let record = |out: &mut WorkerOut, cx: &Cx, js: &str| {
        out.evals += 1;
        for l in cx.cur_labels.iter() {
            *out.labels.entry(*l).or_insert(0) += 1;
        }
        if cx.nontrivial {
            let fresh = out.nontrivial.insert(fnv(js.as_bytes()));
            if fresh && out.samples.len() < 2 && js.len() < 4000 {
                out.samples.push(js.to_string());
            }
        }
    };

    for c in fixed {
        if stop.load(Ordering::Relaxed) {
            return out;
        }
        let js = serde_json::to_string(&c).unwrap();
        set_slot(w, t0, &js);
        let r = run_one(p, &c, &mut cx);
        clear_slot(w);
        record(&mut out, &cx, &js);
        if let Err(m) = r {
            stop.store(true, Ordering::SeqCst);
            out.fail = Some((js, m));
            return out;
        }
    }
    for _ in 0..count {
        if stop.load(Ordering::Relaxed) {
            break;
        }
        if t0.elapsed() > deadline {
            out.elapsed_stop = true;
            break;
        }
        let mut tree = match strat.new_tree(&mut runner) {
            Ok(t) => t,
            Err(e) => panic!("generator rejected: {}", e),
        };
        let c = tree.current();
        let js = serde_json::to_string(&c).unwrap();
        set_slot(w, t0, &js);
        let r = run_one(p, &c, &mut cx);
        clear_slot(w);
        record(&mut out, &cx, &js);
        if let Err(m) = r {
            stop.store(true, Ordering::SeqCst);
            let best = shrink(p, &mut *tree, (c, m), w, &mut cx, t0);
            out.fail = Some((serde_json::to_string_pretty(&best.0).unwrap(), best.1));
            break;
        }
    }
    out.inner = cx.extra_evals;
    let _ = std::fs::remove_dir_all(&cx.dir);
    out
}

fn load_regress<C: DeserializeOwned>(env: &Env, id: &str) -> Vec<C> {
    let d = env.verif.join("regress").join(id);
    let mut v: Vec<PathBuf> = match std::fs::read_dir(&d) {
        Ok(r) => r.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "json")).collect(),
        Err(_) => vec![],
    };
    v.sort();
    let mut out = vec![];
    for p in v {
        let t = std::fs::read_to_string(&p).unwrap();
        match serde_json::from_str::<C>(&t) {
            Ok(c) => out.push(c),
            Err(e) => {
                eprintln!("bad regression file {}: {}", p.display(), e);
                std::process::exit(3);
            }
        }
    }
    out
}

pub fn run<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static>(p: &Prop<C>, env: &Env) -> i32 {
    let t0 = Instant::now();
    let rdir = env.verif.join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    let rpath = rdir.join(format!("{}.json", p.id));
    let _ = std::fs::remove_file(&rpath);
    install_crash(p.id, &rpath, &env.scratch);
    quiet_panics();

    let regress: Vec<C> = load_regress(env, p.id);
    let nreg = regress.len();
    let mut fixed: Vec<C> = regress;
    fixed.extend((p.fixed)(env.thorough));
    let nfixed = fixed.len() - nreg;
    let total = if env.thorough { p.thorough } else { p.quick };
    // for trials only: fewer random cases
    let total = match std::env::var("NCHECK_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(f) => ((total as f64 * f) as u64).max(8),
        None => total,
    };
    let nw = p.workers;
    let mut parts: Vec<Vec<C>> = (0..nw).map(|_| vec![]).collect();
    for (i, c) in fixed.into_iter().enumerate() {
        parts[i % nw].push(c);
    }
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let cov_bin = if env.thorough { std::env::var("NCHECK_FUZZ_BIN").ok() } else { None };
    let deadline = Duration::from_secs(match (env.thorough, &cov_bin) {
        (false, _) => 400,
        (true, None) => 700,
        (true, Some(_)) => 400,
    });
    let mut outs: Vec<WorkerOut> = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (w, part) in parts.into_iter().enumerate() {
            let count = total / nw as u64 + if (w as u64) < total % nw as u64 { 1 } else { 0 };
            let (stop, done) = (&stop, &done);
            hs.push(
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        let o = worker(p, env, w, part, count, stop, t0, deadline);
                        done.fetch_add(1, Ordering::SeqCst);
                        o
                    })
                    .unwrap(),
            );
        }
        // watchdog
        while done.load(Ordering::SeqCst) < nw && !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            let now = now_ms(t0);
            if rss_bytes() > MAX_RSS {
                // the case that has been running for the longest time is the one that fills the memory
                let w = (0..nw)
                    .filter(|w| SLOTS[*w].since_ms.load(Ordering::SeqCst) != 0)
                    .min_by_key(|w| SLOTS[*w].since_ms.load(Ordering::SeqCst));
                if let Some(w) = w {
                    if !REPORTED.swap(true, Ordering::SeqCst) {
                        let js = SLOTS[w].text.lock().unwrap().clone();
                        std::fs::write(&rpath, &js).unwrap();
                        println!("a case filled {} bytes of memory", MAX_RSS);
                        println!("VIOLATION property={} replay={}", p.id, rpath.display());
                        let _ = std::fs::remove_dir_all(&env.scratch);
                        std::process::exit(1);
                    }
                }
            }
            for w in 0..nw {
                let s = SLOTS[w].since_ms.load(Ordering::SeqCst);
                if s != 0 && now > s + p.case_timeout * 1000 {
                    let limit = p.case_timeout * 1000;
                    let used = cpu_ms(SLOTS[w].tid.load(Ordering::SeqCst)).saturating_sub(SLOTS[w].cpu_ms.load(Ordering::SeqCst));
                    if used < limit && now < s + WALL_FACTOR * limit {
                        continue;
                    }
                    if REPORTED.swap(true, Ordering::SeqCst) {
                        continue;
                    }
                    let js = SLOTS[w].text.lock().unwrap().clone();
                    std::fs::write(&rpath, &js).unwrap();
                    println!("a case did not terminate within {} s", p.case_timeout);
                    println!("VIOLATION property={} replay={}", p.id, rpath.display());
                    let _ = std::fs::remove_dir_all(&env.scratch);
                    std::process::exit(1);
                }
            }
        }
        for h in hs {
            match h.join() {
                Ok(o) => outs.push(o),
                Err(_) => {
                    let at = PANIC_AT.with(|p| p.borrow().clone());
                    eprintln!("harness worker panicked {}", at);
                    std::process::exit(3);
                }
            }
        }
    });
    let mut cov_stats = None;
    if let Some(bin) = cov_bin {
        if outs.iter().all(|o| o.fail.is_none()) {
            let (st, fail) = campaign(p, env, &bin, t0);
            cov_stats = Some(st);
            outs[0].fail = fail;
        }
    }
    let _ = std::fs::remove_dir_all(&env.scratch);

    let evals: u64 = outs.iter().map(|o| o.evals).sum();
    let inner: u64 = outs.iter().map(|o| o.inner).sum();
    let mut nt: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = vec![];
    for o in outs.iter() {
        nt.extend(o.nontrivial.iter());
        for (k, v) in o.labels.iter() {
            *labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples.iter() {
            if samples.len() < 3 {
                samples.push(serde_json::from_str::<serde_json::Value>(s).unwrap());
            }
        }
    }
    let fail = outs.iter().filter_map(|o| o.fail.as_ref()).min_by_key(|f| f.0.len());
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = json!({
        "evaluations": evals,
        "distinct_nontrivial": nt.len(),
        "rule": p.rule,
        "samples": samples,
        "labels": labels,
        "fixed_cases": nfixed,
        "regression_cases": nreg,
        "stopped_by_deadline": outs.iter().any(|o| o.elapsed_stop),
    });
    if inner > 0 {
        cov["inner_executions"] = json!(inner);
    }
    if let Some(st) = cov_stats {
        cov["coverage_guided"] = st;
    }
    if !p.exhaustive_note.is_empty() {
        cov["enumerated"] = json!(p.exhaustive_note);
    }
    let ev = json!({
        "property": p.id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": p.level,
        "coverage": cov,
        "assumptions": ["reference model, encoder and decoder in /verif/harness/src are right", "the operating system's files behave like regular POSIX files"],
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": if fail.is_some() { 1 } else { 0 },
    });
    let edir = env.verif.join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    match fail {
        Some((js, m)) => {
            std::fs::write(&rpath, js).unwrap();
            println!("{}: {}", p.id, m);
            println!("VIOLATION property={} replay={}", p.id, rpath.display());
            1
        }
        None => {
            println!(
                "{}: ok, {} cases ({} distinct non-trivial, {} inner executions) in {:.1} s",
                p.id,
                evals,
                nt.len(),
                inner,
                wall
            );
            if nt.len() < 2 {
                eprintln!("{}: vacuous run, no non-trivial case", p.id);
                return 3;
            }
            0
        }
    }
}

// ---------------------------------------------------------------- coverage-guided fuzzing
//
// libFuzzer (crate /verif/fuzz, netcdf3 compiled with coverage counters) produces byte strings.
// They stand for the random choices of the property's own generator, or, where the property is
// about file contents, for the file itself. The check is the same as in the random phase.

fn case_from_choices<C: std::fmt::Debug>(
    strat: &BoxedStrategy<C>,
    data: &[u8],
) -> Option<Box<dyn ValueTree<Value = C>>> {
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, data));
    strat.new_tree(&mut r).ok()
}

/// Runs `f` in a thread of its own; None: it did not end in time (the thread is left behind).
fn within<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            let _ = tx.send(f());
        })
        .ok()?;
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

/// The function libFuzzer calls; false: the bytes do not make a case.
pub fn fuzz_target<C: Serialize + Clone + std::fmt::Debug + 'static>(
    p: Prop<C>,
    scratch: &Path,
    raw: bool,
) -> Box<dyn FnMut(&[u8]) -> bool> {
    let strat = (p.strategy)(true);
    let mut cx = Cx::new(scratch.to_path_buf());
    // where the case of an artifact is written, as it is and then shrunk
    let dump = std::env::var("NCHECK_FUZZ_DUMP").ok();
    Box::new(move |data: &[u8]| {
        let mut tree = None;
        let c = match (raw, &p.raw) {
            (true, Some((f, _))) => f(data),
            _ => match case_from_choices(&strat, data) {
                Some(t) => {
                    let c = t.current();
                    tree = Some(t);
                    c
                }
                None => return false,
            },
        };
        if let Some(f) = &dump {
            std::fs::write(f, serde_json::to_string_pretty(&c).unwrap()).unwrap();
        }
        if let Err(m) = run_one(&p, &c, &mut cx) {
            eprintln!("{}: {}", p.id, m);
            if let Some(f) = &dump {
                let best = match tree {
                    Some(mut t) => shrink(&p, &mut *t, (c, m), 0, &mut cx, Instant::now()),
                    None => (c, m),
                };
                std::fs::write(f, serde_json::to_string_pretty(&best.0).unwrap()).unwrap();
            }
            std::process::abort();
        }
        true
    })
}

fn stat(text: &str, key: &str) -> u64 {
    text.lines()
        .filter_map(|l| l.strip_prefix("stat::"))
        .filter_map(|l| l.strip_prefix(key))
        .filter_map(|l| l.trim_start_matches(':').trim().parse::<u64>().ok())
        .last()
        .unwrap_or(0)
}

fn campaign<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static>(
    p: &Prop<C>,
    env: &Env,
    bin: &str,
    t0: Instant,
) -> (serde_json::Value, Option<(String, String)>) {
    let secs: u64 = std::env::var("NCHECK_FUZZ_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(240);
    let base = env.scratch.join("cov");
    let dirs = [base.join("choices"), base.join("raw")];
    let arts = base.join("art");
    for d in dirs.iter().chain([&arts]) {
        std::fs::create_dir_all(d).unwrap();
    }
    // first inputs: the choices of some generated cases, and their bytes
    let strat = (p.strategy)(true);
    let mut seed = [0u8; 32];
    let mut s = env.seed ^ fnv(p.id.as_bytes()) ^ 0x5eed;
    for n in 0..200 {
        for k in 0..4 {
            seed[k * 8..k * 8 + 8].copy_from_slice(&crate::model::splitmix(&mut s).to_le_bytes());
        }
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::Recorder, &seed));
        if let Ok(t) = strat.new_tree(&mut r) {
            let b = r.bytes_used();
            if b.len() <= 1 << 14 {
                std::fs::write(dirs[0].join(format!("s{}", n)), b).unwrap();
            }
            if let Some((_, f)) = p.raw {
                let b = f(&t.current());
                if b.len() <= 4096 {
                    std::fs::write(dirs[1].join(format!("s{}", n)), b).unwrap();
                }
            }
        }
    }
    let mut kids = vec![];
    for k in 0..p.workers {
        let raw = p.raw.is_some() && k % 2 == 1;
        let log = std::fs::File::create(base.join(format!("log{}", k))).unwrap();
        let kid = std::process::Command::new(bin)
            .arg(&dirs[raw as usize])
            .arg(format!("-seed={}", (env.seed.wrapping_mul(64) + k as u64) % 0x7fff_0000 + 1))
            .arg(format!("-max_total_time={}", secs))
            .arg(format!("-max_len={}", if raw { 2048 } else { 1 << 14 }))
            .arg(format!("-timeout={}", p.case_timeout * WALL_FACTOR))
            .arg("-rss_limit_mb=6000")
            .arg("-malloc_limit_mb=0")
            .arg("-print_final_stats=1")
            .arg("-use_value_profile=1")
            .arg(format!("-artifact_prefix={}/{}_", arts.display(), if raw { "raw" } else { "choices" }))
            .env("NCHECK_FUZZ_ID", p.id)
            .env("NCHECK_FUZZ_RAW", if raw { "1" } else { "0" })
            .env("NCHECK_SCRATCH", base.join(format!("s{}", k)))
            .stdout(std::process::Stdio::null())
            .stderr(log)
            .spawn();
        match kid {
            Ok(c) => kids.push(c),
            Err(e) => {
                eprintln!("coverage-guided phase not run: {}", e);
                return (json!({"not_run": e.to_string()}), None);
            }
        }
    }
    // a failure in one process ends all of them
    let end = Instant::now() + Duration::from_secs(secs + 60 + p.case_timeout);
    loop {
        std::thread::sleep(Duration::from_millis(200));
        let mut running = 0;
        for k in kids.iter_mut() {
            if let Ok(None) = k.try_wait() {
                running += 1;
            }
        }
        let found = std::fs::read_dir(&arts)
            .map(|r| r.flatten().any(|e| !e.file_name().to_string_lossy().contains("slow-unit")))
            .unwrap_or(false);
        if running == 0 || found || Instant::now() > end {
            std::thread::sleep(Duration::from_millis(500));
            for k in kids.iter_mut() {
                let _ = k.kill();
                let _ = k.wait();
            }
            break;
        }
    }
    let mut runs = 0;
    let mut fresh = 0;
    let mut edges = 0;
    for k in 0..p.workers {
        let t = std::fs::read(base.join(format!("log{}", k))).unwrap_or_default();
        let t = String::from_utf8_lossy(&t);
        runs += stat(&t, "number_of_executed_units");
        fresh += stat(&t, "new_units_added");
        for w in t.lines().filter_map(|l| l.split(" cov: ").nth(1)) {
            if let Ok(n) = w.split_whitespace().next().unwrap_or("").parse::<u64>() {
                edges = edges.max(n);
            }
        }
    }
    let mut unconfirmed = 0;
    let mut fail = None;
    let mut files: Vec<PathBuf> =
        std::fs::read_dir(&arts).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        if name.contains("slow-unit") {
            continue;
        }
        let dump = base.join("case.json");
        let _ = std::fs::remove_file(&dump);
        let kid = std::process::Command::new(bin)
            .arg(&f)
            .env("NCHECK_FUZZ_ID", p.id)
            .env("NCHECK_FUZZ_RAW", if name.starts_with("raw") { "1" } else { "0" })
            .env("NCHECK_FUZZ_DUMP", &dump)
            .env("NCHECK_SCRATCH", base.join("again"))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn();
        // the case may not terminate; shrinking may take 40 s
        let until = Instant::now() + Duration::from_secs(60 + p.case_timeout);
        if let Ok(mut k) = kid {
            while Instant::now() < until && matches!(k.try_wait(), Ok(None)) {
                std::thread::sleep(Duration::from_millis(50));
            }
            let _ = k.kill();
            let _ = k.wait();
        }
        let c = std::fs::read_to_string(&dump).ok().and_then(|t| serde_json::from_str::<C>(&t).ok());
        let c = match c {
            Some(c) => c,
            None => {
                unconfirmed += 1;
                continue;
            }
        };
        let js = serde_json::to_string_pretty(&c).unwrap();
        // decided here, in the uninstrumented build; a crash ends in the handler
        let q = Prop { ..*p };
        let dir = base.join("alone");
        let limit = p.case_timeout * WALL_FACTOR;
        let js2 = js.clone();
        let r = within(limit, move || {
            let mut cx = Cx::new(dir);
            set_slot(0, t0, &js2);
            let r = run_one(&q, &c, &mut cx);
            clear_slot(0);
            r
        });
        match r {
            Some(Ok(())) => unconfirmed += 1,
            Some(Err(m)) => fail = Some((js, m)),
            None => fail = Some((js, format!("a case did not terminate within {} s", limit))),
        }
        if fail.is_some() {
            break;
        }
    }
    let st = json!({
        "engine": "libFuzzer over the choices of the generator, coverage of netcdf3",
        "executions": runs,
        "inputs_with_new_coverage": fresh,
        "coverage_points": edges,
        "seconds": secs,
        "artifacts_that_did_not_reproduce": unconfirmed,
    });
    (st, fail)
}

pub fn replay<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug>(p: &Prop<C>, env: &Env, f: &str) -> i32 {
    let t = std::fs::read_to_string(f).expect("replay file");
    let c: C = serde_json::from_str(&t).expect("replay file does not hold a case of this property");
    quiet_panics();
    let rdir = env.verif.join("replays");
    std::fs::create_dir_all(&rdir).unwrap();
    let cpath = rdir.join(format!("{}.crash.json", p.id));
    install_crash(p.id, &cpath, &env.scratch);
    let mut cx = Cx::new(env.scratch.join("replay"));
    set_slot(0, Instant::now(), &t);
    let r = run_one(p, &c, &mut cx);
    clear_slot(0);
    let _ = std::fs::remove_dir_all(&env.scratch);
    match r {
        Ok(()) => {
            println!("{}: replay passes", p.id);
            0
        }
        Err(m) => {
            println!("{}: {}", p.id, m);
            println!("VIOLATION property={} replay={}", p.id, f);
            1
        }
    }
}
