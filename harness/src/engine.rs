//! Exhaustive explorer: enumerates a stated finite space of cases, runs every
//! case against the implementation, compares with the model, and supervises
//! itself (a parent process restarts a crashed or hung case alone to confirm it).

use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const NARGS: usize = 6;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Case {
    pub kind: u32,
    pub a: [u64; NARGS],
}
pub fn case(kind: u32, args: &[u64]) -> Case {
    let mut a = [0; NARGS];
    a[..args.len()].copy_from_slice(args);
    Case { kind, a }
}
impl Case {
    pub fn key(&self) -> String {
        let mut s = format!("{}", self.kind);
        for x in self.a {
            s.push_str(&format!(":{x:x}"));
        }
        s
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut it = s.trim().split(':');
        let kind = it.next()?.parse().ok()?;
        let mut a = [0; NARGS];
        for x in a.iter_mut() {
            *x = u64::from_str_radix(it.next()?, 16).ok()?;
        }
        Some(Case { kind, a })
    }
}

/// What one thread has measured.
#[derive(Default, Clone)]
pub struct Obs {
    /// distinct model states (cells, indexes, positions, ...) visited
    pub states: u64,
    /// transitions of the model whose outcome was compared with the implementation
    pub transitions: u64,
    /// cases executed on the implementation from start to end
    pub traces: u64,
    /// cases whose oracle is ambiguous within floating-point accuracy
    pub ambiguous: u64,
    /// distinct observed outcomes (small alphabet, e.g. Ok / Err(Pentagon))
    pub outcomes: std::collections::BTreeMap<String, u64>,
    /// free-form coverage set (e.g. carry transitions), bit set
    pub cover: Vec<u64>,
}
impl Obs {
    pub fn outcome(&mut self, s: &str) {
        if let Some(x) = self.outcomes.get_mut(s) {
            *x += 1;
        } else {
            self.outcomes.insert(s.to_string(), 1);
        }
    }
    pub fn mark(&mut self, bit: usize) {
        let w = bit / 64;
        if self.cover.len() <= w {
            self.cover.resize(w + 1, 0);
        }
        self.cover[w] |= 1 << (bit % 64);
    }
    fn merge(&mut self, o: &Obs) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.ambiguous += o.ambiguous;
        for (k, v) in &o.outcomes {
            *self.outcomes.entry(k.clone()).or_insert(0) += v;
        }
        if self.cover.len() < o.cover.len() {
            self.cover.resize(o.cover.len(), 0);
        }
        for (i, w) in o.cover.iter().enumerate() {
            self.cover[i] |= w;
        }
    }
}

pub type CheckFn = fn(&Case, &mut Obs) -> Result<(), String>;

pub struct Spec {
    pub id: &'static str,
    /// what is enumerated and compared, in a sentence
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub check: CheckFn,
    /// human-readable rendering of a case (a call a reader can repeat)
    pub describe: fn(&Case) -> String,
    pub explore: fn(&mut Engine),
    /// extra coverage entries (name, value) computed at the end
    pub extra: fn(&Obs) -> Vec<(String, String)>,
}

#[derive(Clone)]
struct Failure {
    order: (usize, u64),
    case: Case,
    msg: String,
}

const SLOT_WORDS: usize = 16;
const MAX_THREADS: usize = 64;
const HANG_SECS: u64 = 45;

struct Slots(*mut u64);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn map_slots(path: &str) -> Slots {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slot file");
    let len = SLOT_WORDS * MAX_THREADS * 8;
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    Slots(p as *mut u64)
}
impl Slots {
    // layout: 0 seq, 1 active, 2 kind, 3.. args
    #[inline]
    fn begin(&self, t: usize, c: &Case) {
        unsafe {
            let p = self.0.add(t * SLOT_WORDS);
            for i in 0..NARGS {
                p.add(3 + i).write_volatile(c.a[i]);
            }
            p.add(2).write_volatile(c.kind as u64);
            p.add(1).write_volatile(1);
            p.write_volatile(p.read_volatile().wrapping_add(1));
        }
    }
    #[inline]
    fn end(&self, t: usize) {
        unsafe { self.0.add(t * SLOT_WORDS + 1).write_volatile(0) }
    }
    fn read(&self, t: usize) -> (u64, bool, Case) {
        unsafe {
            let p = self.0.add(t * SLOT_WORDS);
            let mut a = [0; NARGS];
            for i in 0..NARGS {
                a[i] = p.add(3 + i).read_volatile();
            }
            (p.read_volatile(), p.add(1).read_volatile() != 0, Case { kind: p.add(2).read_volatile() as u32, a })
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static BEAT: std::cell::Cell<*mut u64> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}

/// Sign of life of a case that takes long by construction: the hang watchdog starts counting anew.
/// Only a case whose number of steps is bounded by the model may call it.
pub fn alive() {
    let p = BEAT.with(|b| b.get());
    if !p.is_null() {
        unsafe { p.write_volatile(p.read_volatile().wrapping_add(1)) }
    }
}

pub fn run_check(f: CheckFn, c: &Case, obs: &mut Obs) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| f(c, obs))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}").replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub struct Ctx<'a> {
    eng: &'a Shared,
    spec: &'a Spec,
    t: usize,
    phase: usize,
    item: u64,
    n_in_item: u64,
    pub obs: Obs,
    samples: Vec<Case>,
}
impl<'a> Ctx<'a> {
    #[inline]
    pub fn run(&mut self, c: Case) {
        self.eng.slots.begin(self.t, &c);
        self.obs.traces += 1;
        let t0 = self.eng.slow.map(|_| Instant::now());
        let r = run_check(self.spec.check, &c, &mut self.obs);
        self.eng.slots.end(self.t);
        if let (Some(ms), Some(t0)) = (self.eng.slow, t0) {
            // H3MC_SLOW: a check of the checks, no case should come near the hang limit
            let d = t0.elapsed().as_millis();
            if d >= ms {
                println!("SLOW {d} ms: {}", (self.spec.describe)(&c));
            }
        }
        if self.samples.is_empty() || (self.samples.len() < 3 && self.obs.traces % 9973 == 0) {
            self.samples.push(c);
        }
        if let Err(m) = r {
            self.fail(c, m);
        }
        self.n_in_item += 1;
    }
    pub fn stopped(&self) -> bool {
        self.eng.stop.load(Ordering::Relaxed)
    }
    fn fail(&mut self, c: Case, msg: String) {
        if self.eng.known.contains(&c.key()) {
            self.eng.known_hit.lock().unwrap().insert(c.key());
            return;
        }
        let mut f = self.eng.fails.lock().unwrap();
        f.push(Failure { order: (self.phase, self.item), case: c, msg });
        if f.len() > 200 {
            f.sort_by_key(|x| x.order);
            f.truncate(100);
        }
        self.eng.stop.store(true, Ordering::Relaxed);
    }
}

struct Shared {
    slots: Slots,
    stop: AtomicBool,
    capped: AtomicBool,
    slow: Option<u128>,
    fails: Mutex<Vec<Failure>>,
    known: HashSet<String>,
    known_hit: Mutex<HashSet<String>>,
}

struct PhaseRec {
    name: String,
    items: u64,
    done: u64,
    traces: u64,
    states: u64,
    secs: f64,
}

pub struct Engine<'a> {
    spec: &'a Spec,
    sh: Shared,
    pub thorough: bool,
    threads: usize,
    phases: Vec<PhaseRec>,
    obs: Obs,
    samples: Vec<String>,
    start: Instant,
    deadline: Instant,
}

impl<'a> Engine<'a> {
    /// Explore `items` work items completely with all threads.
    pub fn phase<F>(&mut self, name: &str, items: u64, f: F)
    where
        F: Fn(u64, &mut Ctx) + Sync,
    {
        if self.sh.stop.load(Ordering::Relaxed) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let chunk = (items / (self.threads as u64 * 64)).clamp(1, 4096);
        let ph = self.phases.len();
        let results: Mutex<Vec<(Obs, Vec<Case>)>> = Mutex::new(Vec::new());
        let sh = &self.sh;
        let spec = self.spec;
        let deadline = match std::env::var("H3MC_PHASE_CAP").ok().and_then(|x| x.parse().ok()) {
            Some(t) => self.deadline.min(Instant::now() + Duration::from_secs(t)),
            None => self.deadline,
        };
        let live = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, done, f, results, live) = (&next, &done, &f, &results, &live);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        live.fetch_add(1, Ordering::Relaxed);
                        BEAT.with(|b| b.set(unsafe { sh.slots.0.add(t * SLOT_WORDS) }));
                        let mut cx = Ctx {
                            eng: sh,
                            spec,
                            t,
                            phase: ph,
                            item: 0,
                            n_in_item: 0,
                            obs: Obs::default(),
                            samples: Vec::new(),
                        };
                        'outer: loop {
                            if sh.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                sh.capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let lo = next.fetch_add(chunk, Ordering::Relaxed);
                            if lo >= items {
                                break;
                            }
                            for i in lo..(lo + chunk).min(items) {
                                cx.item = i;
                                cx.n_in_item = 0;
                                f(i, &mut cx);
                                done.fetch_add(1, Ordering::Relaxed);
                                if cx.stopped() {
                                    break 'outer;
                                }
                            }
                        }
                        results.lock().unwrap().push((cx.obs, cx.samples));
                    })
                    .expect("spawn");
            }
        });
        let mut traces = 0;
        let mut states = 0;
        for (o, sm) in results.into_inner().unwrap() {
            traces += o.traces;
            states += o.states;
            self.obs.merge(&o);
            for c in sm {
                if self.samples.len() < 6 + 2 * self.phases.len() && self.samples.len() < 40 {
                    self.samples.push((self.spec.describe)(&c));
                }
            }
        }
        let rec = PhaseRec {
            name: name.to_string(),
            items,
            done: done.load(Ordering::Relaxed),
            traces,
            states,
            secs: t0.elapsed().as_secs_f64(),
        };
        println!(
            "phase {:<44} items {}/{} states {} traces {} {:.2}s",
            rec.name, rec.done, rec.items, rec.states, rec.traces, rec.secs
        );
        self.phases.push(rec);
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines: finding: property=C16 case=<key> <what fails>
    let p = verif_dir().join("known_findings.txt");
    let mut out = Vec::new();
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, ' ');
            if it.next() == Some(id) {
                if let Some(k) = it.next().and_then(|x| x.strip_prefix("case=")) {
                    out.push((k.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    out
}

fn replay_dir() -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

fn write_replay(spec: &Spec, c: &Case, msg: &str) -> String {
    let bin = spec.id.to_lowercase();
    let p = replay_dir().join(format!("{}-{}.json", spec.id, c.key().replace(':', "_")));
    let txt = format!(
        "{{\n \"property\": {},\n \"case\": {},\n \"call\": {},\n \"what_failed\": {},\n \"replay\": {}\n}}\n",
        jstr(spec.id),
        jstr(&c.key()),
        jstr(&(spec.describe)(c)),
        jstr(msg),
        jstr(&format!("bash check.sh {} replay {}", bin.to_uppercase(), c.key()))
    );
    let _ = std::fs::write(&p, txt);
    format!("replays/{}", p.file_name().unwrap().to_string_lossy())
}

/// Entry point of every check binary.
pub fn main(spec: Spec) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&spec, &args[2]),
        Some("worker") => worker(&spec, &args[2]),
        _ => parent(&spec),
    };
    std::process::exit(code)
}

fn replay(spec: &Spec, key: &str) -> i32 {
    install_hook();
    limit_memory();
    let c = Case::parse(key).expect("case key");
    let f = spec.check;
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut o = Obs::default();
            run_check(f, &c, &mut o)
        })
        .unwrap()
        .join()
        .unwrap();
    println!("case {}", (spec.describe)(&c));
    match r {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("fails: {m}");
            1
        }
    }
}

fn limit_memory() {
    // a runaway allocation of the code under test must end this process, not the sandbox
    let gb = 12u64 << 30;
    unsafe {
        setrlimit(9, &[gb, gb]);
    }
}

fn worker(spec: &Spec, slots: &str) -> i32 {
    install_hook();
    limit_memory();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_THREADS);
    let start = Instant::now();
    let cap = if thorough { 6 * 3600 } else { 600 };
    let known = known_findings(spec.id);
    let mut eng = Engine {
        spec,
        sh: Shared {
            slots: map_slots(slots),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            slow: std::env::var("H3MC_SLOW").ok().and_then(|x| x.parse().ok()),
            fails: Mutex::new(Vec::new()),
            known: known.iter().map(|x| x.0.clone()).collect(),
            known_hit: Mutex::new(HashSet::new()),
        },
        thorough,
        threads,
        phases: Vec::new(),
        obs: Obs::default(),
        samples: Vec::new(),
        start,
        deadline: start + Duration::from_secs(cap),
    };
    // hang watchdog
    let hang = std::env::var("H3MC_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(HANG_SECS);
    let sl = map_slots(slots);
    std::thread::spawn(move || {
        let mut last = vec![(0u64, Instant::now()); MAX_THREADS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for t in 0..MAX_THREADS {
                let (seq, act, c) = sl.read(t);
                if !act || seq != last[t].0 {
                    last[t] = (seq, Instant::now());
                } else if last[t].1.elapsed().as_secs() >= hang {
                    println!("HUNG {}", c.key());
                    let _ = std::io::stdout().flush();
                    std::process::exit(97);
                }
            }
        }
    });
    (spec.explore)(&mut eng);
    let mut fails = eng.sh.fails.lock().unwrap().clone();
    fails.sort_by_key(|f| f.order);
    for (k, what) in &known {
        if eng.sh.known_hit.lock().unwrap().contains(k) {
            println!("KNOWN-FINDING: property={} {}", spec.id, what);
        }
    }
    write_evidence(&eng, &fails, thorough);
    if let Some(f) = fails.first() {
        println!("violated by: {}", (spec.describe)(&f.case));
        println!("             {}", f.msg);
        println!("             ({} failing cases recorded before stopping)", fails.len());
        println!("FAIL {} {}", f.case.key(), f.msg.replace('\n', " "));
        return 1;
    }
    0
}

fn write_evidence(eng: &Engine, fails: &[Failure], thorough: bool) {
    let sp = eng.spec;
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let capped = eng.sh.capped.load(Ordering::Relaxed);
    let o = &eng.obs;
    let mut phases = String::new();
    for p in &eng.phases {
        if !phases.is_empty() {
            phases.push(',');
        }
        phases.push_str(&format!(
            "{{\"name\":{},\"items\":{},\"items_done\":{},\"states\":{},\"traces\":{},\"wall_s\":{:.3}}}",
            jstr(&p.name), p.items, p.done, p.states, p.traces, p.secs
        ));
    }
    let samples: Vec<String> = eng.samples.iter().map(|s| jstr(s)).collect();
    let outs: Vec<String> = o.outcomes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let mut extra = String::new();
    for (k, v) in (sp.extra)(o) {
        extra.push_str(&format!("  {}: {},\n", jstr(&k), v));
    }
    let asm: Vec<String> = sp.assumptions.iter().map(|s| jstr(s)).collect();
    let txt = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"ambiguous_skipped\": {},\n  \"exhaustive\": {},\n  \"capped_by_time\": {},\n  \"rule\": {},\n{}  \"distinct_outcomes\": {{{}}},\n  \"phases\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(sp.id),
        jstr(if thorough { "thorough" } else { "quick" }),
        seed,
        o.states,
        o.transitions,
        o.traces,
        o.ambiguous,
        !capped && fails.is_empty(),
        capped,
        jstr(sp.rule),
        extra,
        outs.join(","),
        phases,
        samples.join(", "),
        asm.join(", "),
        eng.start.elapsed().as_secs_f64(),
        fails.len()
    );
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", sp.id)), txt).expect("evidence");
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("exe"))
}

/// Run one case alone in a fresh process: Some(true) holds, Some(false) fails, None crashed or hung.
fn alone(key: &str, limit: u64) -> (Option<bool>, String) {
    let mut ch = me().arg("replay").arg(key).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                return match st.code() {
                    Some(0) => (Some(true), String::new()),
                    Some(1) => (Some(false), String::new()),
                    _ => (None, format!("the process was ended abnormally ({st})")),
                }
            }
            None => {
                if t0.elapsed().as_secs() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return (None, format!("still running after {limit} s"));
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    }
}

fn parent(spec: &Spec) -> i32 {
    parent_with(spec, HANG_SECS)
}

fn parent_with(spec: &Spec, hang: u64) -> i32 {
    let _ = std::fs::remove_file(verif_dir().join("evidence").join(format!("{}.json", spec.id)));
    let path = std::env::temp_dir().join(format!("h3mc-{}-{}.slots", spec.id, std::process::id()));
    std::fs::write(&path, vec![0u8; SLOT_WORDS * MAX_THREADS * 8]).expect("slot file");
    let p = path.to_string_lossy().to_string();
    let mut ch = me().arg("worker").arg(&p).env("H3MC_HANG", (hang * if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 8 } else { 1 }).to_string()).stdout(Stdio::piped()).spawn().expect("spawn worker");
    let out = ch.stdout.take().unwrap();
    let mut fail: Option<(Case, String)> = None;
    let mut hung: Option<Case> = None;
    {
        use std::io::BufRead;
        for l in std::io::BufReader::new(out).lines().map_while(Result::ok) {
            if let Some(r) = l.strip_prefix("FAIL ") {
                let (k, m) = r.split_once(' ').unwrap_or((r, ""));
                fail = Case::parse(k).map(|c| (c, m.to_string()));
            } else if let Some(r) = l.strip_prefix("HUNG ") {
                hung = Case::parse(r);
            } else {
                println!("{l}");
            }
        }
    }
    let st = ch.wait().expect("wait worker");
    let slots = map_slots(&p);
    let _ = std::fs::remove_file(&path);
    let violation = |c: &Case, m: &str| -> i32 {
        let rp = write_replay(spec, c, m);
        println!("VIOLATION property={} replay={}", spec.id, rp);
        1
    };
    let crash_evidence = |c: &Case, m: &str| {
        let txt = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": 1,\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"exhaustive\": false,\n  \"samples\": [{}]\n }},\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
            jstr(spec.id),
            jstr(std::env::var("VERIF_TIER").as_deref().unwrap_or("quick")),
            jstr(&format!("{}: {}", (spec.describe)(c), m))
        );
        let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
        let _ = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", spec.id)), txt);
    };
    match st.code() {
        Some(0) if fail.is_none() => {
            println!("{}: held on everything explored", spec.id);
            0
        }
        Some(1) if fail.is_some() => {
            let (c, m) = fail.unwrap();
            // replay alone: a deterministic failure must come back
            match alone(&c.key(), 240).0 {
                Some(true) => violation(&c, &format!("{m} [does not fail when the call is made alone in a fresh process: the result depends on earlier calls]")),
                _ => violation(&c, &m),
            }
        }
        Some(97) if hung.is_some() => {
            let c = hung.unwrap();
            println!("a case did not finish within {hang} s: {}", (spec.describe)(&c));
            match alone(&c.key(), 240) {
                (None, m) => {
                    crash_evidence(&c, &m);
                    violation(&c, &format!("does not terminate: {m}"))
                }
                (Some(false), _) => violation(&c, "fails when run alone"),
                _ if hang == HANG_SECS => {
                    // a slow machine: explore again with more patience
                    println!("the hang did not reproduce; exploring again with a larger limit");
                    parent_with(spec, 3 * HANG_SECS)
                }
                _ => {
                    println!("the hang did not reproduce: no verdict");
                    2
                }
            }
        }
        _ => {
            println!("the explorer was ended abnormally ({st}); replaying the cases that were running");
            for t in 0..MAX_THREADS {
                let (_, act, c) = slots.read(t);
                if act {
                    let (r, m) = alone(&c.key(), 60);
                    // a case that is merely slow has not shown that it ends the process
                    if r == Some(false) || (r.is_none() && !m.starts_with("still")) {
                        crash_evidence(&c, &m);
                        println!("violated by: {}", (spec.describe)(&c));
                        return violation(&c, &format!("crashes the process: {m}"));
                    }
                }
            }
            println!("no running case reproduces the crash: no verdict");
            2
        }
    }
}
