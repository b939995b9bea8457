//! C28: calls running at the same time do not influence each other.
//!
//! A controlled scheduler: the first thread runs one call under the processor's
//! single-step flag; in the trap after an instruction it hands control to the
//! second thread, which runs a whole other call, and then goes on.
#[path = "../acts.rs"]
mod acts;
use acts::*;
use h3mc::engine::*;
use h3mc::*;
use std::arch::asm;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::*};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// everything the trap handler touches; not in static memory, which is watched
struct Sched {
    steps: AtomicU64,
    max: AtomicU64,
    /// switch at the steps `off + n * every`; 0: never
    every: AtomicU64,
    off: AtomicU64,
    /// watch static memory instead of switching
    watch: AtomicU64,
    /// the same for the second thread
    watch2: AtomicU64,
    req: AtomicU64,
    done: AtomicU64,
    quit: AtomicU64,
    up: AtomicU64,
    want: AtomicU64,
    bad_step: AtomicU64,
    bad: AtomicU64,
    switches: AtomicU64,
    blocked: AtomicU64,
    writes: AtomicU64,
    first_write: AtomicU64,
    last_write: AtomicU64,
    t0: Instant,
    cut: AtomicU64,
    /// the second thread hands back after this many instructions of its own; 0: never
    n2: AtomicU64,
    steps2: AtomicU64,
    first_done: AtomicU64,
    /// the first steps that wrote static memory
    log: [AtomicU64; LOG],
    shot: AtomicPtr<u8>,
    busy: AtomicU32,
    tid1: AtomicU64,
    tid2: AtomicU64,
}
const LOG: usize = 96;
/// longest time spent on switches after every instruction
const LIMIT: Duration = Duration::from_secs(15);
std::thread_local! { static SECOND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
static S: AtomicPtr<Sched> = AtomicPtr::new(std::ptr::null_mut());

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn sched_yield() -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn gettid() -> i32;
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    static __data_start: u8;
    static _end: u8;
}
fn statics() -> (*const u8, usize) {
    unsafe {
        let a = &raw const __data_start;
        (a, (&raw const _end) as usize - a as usize)
    }
}
fn sched() -> &'static Sched {
    unsafe { &*S.load(Relaxed) }
}
fn wait(s: &Sched, t: u64, limit: Duration) -> bool {
    for i in 0..u64::MAX {
        if s.done.load(Acquire) >= t {
            return true;
        }
        if i < 500 {
            std::hint::spin_loop();
        } else {
            unsafe { sched_yield() };
            if i % 64 == 0 {
                break;
            }
        }
    }
    let t0 = Instant::now();
    while s.done.load(Acquire) < t {
        unsafe { sched_yield() };
        if t0.elapsed() > limit {
            return false;
        }
    }
    true
}
/// Whether a thread of this process waits for another one: it sleeps, or it has used the
/// processor for a while without arriving.  One that the system merely does not run at the
/// moment (a busy machine) is not stalled.
struct Stall {
    tid: i32,
    cpu: Option<u64>,
    limit: Duration,
    t0: Instant,
    looked: Instant,
    asleep: u32,
}
impl Stall {
    fn new(tid: u64, limit: Duration) -> Stall {
        let now = Instant::now();
        Stall { tid: tid as i32, cpu: cpu(tid as i32), limit, t0: now, looked: now, asleep: 0 }
    }
    fn stalled(&mut self) -> bool {
        if self.looked.elapsed() < Duration::from_millis(1) {
            return false;
        }
        self.looked = Instant::now();
        match (self.cpu, cpu(self.tid)) {
            (Some(a), Some(b)) if b - a < self.limit.as_nanos() as u64 => {}
            (Some(_), Some(_)) => return true,
            _ => return self.t0.elapsed() > self.limit,
        }
        self.asleep = if asleep(self.tid) { self.asleep + 1 } else { 0 };
        self.asleep >= 3 || self.t0.elapsed() > Duration::from_secs(10)
    }
}
/// processor time of a thread, ns
fn cpu(tid: i32) -> Option<u64> {
    let mut t = [0i64; 2];
    match unsafe { clock_gettime((!tid << 3) | 6, &mut t) } {
        0 => Some(t[0] as u64 * 1_000_000_000 + t[1] as u64),
        _ => None,
    }
}
/// usable in a signal handler: no allocation
fn asleep(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0";
    let mut n = tid;
    for i in (16..26).rev() {
        path[i] = b'0' + (n % 10) as u8;
        n /= 10;
    }
    // no leading zeros in the name of the directory
    let z = (16..25).take_while(|i| path[*i] == b'0').count();
    path.copy_within(16 + z.., 16);
    let mut buf = [0u8; 128];
    unsafe {
        let fd = open(path.as_ptr(), 0);
        if fd < 0 {
            return false;
        }
        let k = read(fd, buf.as_mut_ptr(), buf.len()).max(0) as usize;
        close(fd);
        match buf[..k].iter().rposition(|c| *c == b')') {
            Some(i) => buf.get(i + 2) == Some(&b'S'),
            None => false,
        }
    }
}
/// wait for the second thread unless it waits for this one
fn arrives(s: &Sched, t: u64) -> bool {
    if wait(s, t, Duration::from_micros(200)) {
        return true;
    }
    let mut st = Stall::new(s.tid2.load(Relaxed), Duration::from_millis(5));
    while s.done.load(Acquire) < t {
        unsafe { sched_yield() };
        if st.stalled() {
            return s.done.load(Acquire) >= t;
        }
    }
    true
}
extern "C" fn on_trap(_: i32, _: *mut u8, ctx: *mut u8) {
    let s = sched();
    if SECOND.get() {
        let n = s.steps2.load(Relaxed) + 1;
        s.steps2.store(n, Relaxed);
        if s.watch2.load(Relaxed) == 1 {
            written(s, n);
        }
        if n == s.n2.load(Relaxed) {
            // back to the first thread, until it is done or waits for this one
            let t = s.req.load(Relaxed);
            s.done.store(t, Release);
            let mut st = Stall::new(s.tid1.load(Relaxed), Duration::from_millis(30));
            while s.first_done.load(Acquire) == 0 && !st.stalled() {
                unsafe { sched_yield() };
            }
        }
        if n >= s.n2.load(Relaxed) {
            unsafe {
                let efl = ctx.add(40 + 17 * 8) as *mut u64;
                *efl &= !0x100;
            }
        }
        return;
    }
    let n = s.steps.load(Relaxed) + 1;
    s.steps.store(n, Relaxed);
    if n >= s.max.load(Relaxed) {
        // give up stepping: clear the flag in the interrupted context
        // (ucontext: uc_flags 8, uc_link 8, uc_stack 24, then gregs; EFL is the 17th)
        unsafe {
            let efl = ctx.add(40 + 17 * 8) as *mut u64;
            *efl &= !0x100;
        }
        return;
    }
    if s.watch.load(Relaxed) == 1 {
        return written(s, n);
    }
    let ev = s.every.load(Relaxed);
    let off = s.off.load(Relaxed);
    if ev == 0 || n < off || (n - off) % ev != 0 {
        return;
    }
    let t = s.req.load(Relaxed);
    if s.busy.load(Relaxed) == 1 {
        // an earlier call of the second thread waits for this one
        if s.done.load(Acquire) < t {
            return;
        }
        s.busy.store(0, Relaxed);
    }
    if s.switches.fetch_add(1, Relaxed) % 64 == 0 && ev == 1 && s.t0.elapsed() > LIMIT {
        // a busy machine: the rest of this schedule is left out
        s.every.store(0, Relaxed);
        s.max.store(n, Relaxed);
        s.cut.store(1, Relaxed);
        return;
    }
    s.req.store(t + 1, Release);
    let mut up = arrives(s, t + 1);
    if s.n2.load(Relaxed) > 0 {
        // the second thread goes step by step: wait as long as it moves
        let mut last = 0;
        while !up && s.steps2.load(Relaxed) != last {
            last = s.steps2.load(Relaxed);
            up = arrives(s, t + 1);
        }
    }
    if !up {
        s.busy.store(1, Relaxed);
        s.blocked.fetch_add(1, Relaxed);
    }
    if s.bad.load(Acquire) != 0 && s.bad_step.load(Relaxed) == 0 {
        s.bad_step.store(n, Relaxed);
    }
}
/// note whether instruction n wrote static memory
fn written(s: &Sched, n: u64) {
    let (p, len) = statics();
    let q = s.shot.load(Relaxed);
    unsafe {
        if memcmp(p, q, len) != 0 {
            std::ptr::copy_nonoverlapping(p, q, len);
            let w = s.writes.fetch_add(1, Relaxed) as usize;
            if w < LOG {
                s.log[w].store(n, Relaxed);
            }
            if s.first_write.load(Relaxed) == 0 {
                s.first_write.store(n, Relaxed);
            }
            s.last_write.store(n, Relaxed);
        }
    }
}
fn digest(x: &Act) -> u64 {
    std::panic::catch_unwind(|| run_act(x)).unwrap_or(0)
}
/// Both calls again, alone, from here on: the second one first in a copy of the process,
/// then the first one first here (an answer kept wrongly may not outlive the next call).
fn again(a: &Act, wa: u64, b: &Act, wb: u64) -> bool {
    let pid = unsafe { fork() };
    if pid == 0 {
        let ok = digest(b) == wb && digest(a) == wa;
        unsafe { _exit(if ok { 0 } else { 1 }) }
    }
    let mut st = 0;
    if pid > 0 && unsafe { waitpid(pid, &mut st, 0) } == pid && st != 0 {
        return false;
    }
    digest(a) == wa && digest(b) == wb
}
fn second(x: Act) {
    let s = sched();
    SECOND.set(true);
    s.tid2.store(unsafe { gettid() } as u64, Relaxed);
    let mut t = 0;
    let mut idle = 0u32;
    s.up.store(1, Release);
    loop {
        if s.req.load(Acquire) > t {
            t += 1;
            let d = if s.n2.load(Relaxed) > 0 {
                if s.watch2.load(Relaxed) == 1 {
                    let (p, len) = statics();
                    unsafe { std::ptr::copy_nonoverlapping(p, s.shot.load(Relaxed), len) };
                }
                let d = std::panic::catch_unwind(|| {
                    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
                    let d = run_act(&x);
                    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
                    d
                })
                .unwrap_or(0);
                unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
                d
            } else {
                digest(&x)
            };
            if d != s.want.load(Relaxed) && s.bad.load(Relaxed) == 0 {
                s.bad.store(if d == 0 { 1 } else { d }, Release);
            }
            s.done.store(t, Release);
            s.up.store(t + 1, Release);
            idle = 0;
        } else {
            if s.quit.load(Relaxed) == 1 {
                return;
            }
            idle += 1;
            if idle < 500 {
                std::hint::spin_loop();
            } else {
                unsafe { sched_yield() };
            }
        }
    }
}
/// run x under single step
#[inline(never)]
fn stepped(x: &Act, every: u64, off: u64, watch: bool, max: u64) -> u64 {
    let s = sched();
    s.steps.store(0, Relaxed);
    s.max.store(max, Relaxed);
    s.every.store(every, Relaxed);
    s.off.store(off, Relaxed);
    s.watch.store(watch as u64, Relaxed);
    if watch {
        let (p, len) = statics();
        unsafe { std::ptr::copy_nonoverlapping(p, s.shot.load(Relaxed), len) };
    }
    let d = std::panic::catch_unwind(|| {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
        let d = run_act(x);
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
        d
    })
    .unwrap_or(0);
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    d
}
fn prepare(wb: u64) {
    let len = statics().1;
    let z = || AtomicU64::new(0);
    S.store(
        Box::leak(Box::new(Sched {
            steps: z(),
            max: z(),
            every: z(),
            off: z(),
            watch: z(),
            watch2: z(),
            req: z(),
            done: z(),
            quit: z(),
            up: z(),
            want: AtomicU64::new(wb),
            bad_step: z(),
            bad: z(),
            switches: z(),
            blocked: z(),
            writes: z(),
            first_write: z(),
            last_write: z(),
            t0: Instant::now(),
            cut: z(),
            n2: z(),
            steps2: z(),
            first_done: z(),
            log: std::array::from_fn(|_| z()),
            shot: AtomicPtr::new(Box::leak(vec![0u8; len].into_boxed_slice()).as_mut_ptr()),
            busy: AtomicU32::new(0),
            tid1: AtomicU64::new(unsafe { gettid() } as u64),
            tid2: z(),
        })),
        SeqCst,
    );
    let sa = SigAction { handler: on_trap as extern "C" fn(i32, *mut u8, *mut u8) as usize, mask: [0; 16], flags: 4, restorer: 0 };
    assert_eq!(unsafe { sigaction(5, &sa, std::ptr::null_mut()) }, 0);
}
/// The process of one call: run alone (the second thread idle), static memory watched at
/// every instruction.  Prints verdict, instructions, static writes, where they are.
fn alone(args: &[String]) {
    let a = parse(&args[0]);
    let wa = u64::from_str_radix(&args[1], 16).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    prepare(0);
    let s = sched();
    let x = Act { q: a.q, a: a.a };
    let th = std::thread::spawn(move || second(x));
    while s.up.load(Acquire) == 0 {
        std::thread::yield_now();
    }
    let (p, n) = statics();
    let before: Vec<u8> = unsafe { std::slice::from_raw_parts(p, n).to_vec() };
    let d = stepped(&a, 0, 0, true, args[2].parse().unwrap());
    let changed = unsafe { memcmp(p, before.as_ptr(), n) } != 0;
    s.quit.store(1, Relaxed);
    let _ = th.join();
    let w = s.writes.load(Relaxed);
    print!("{} {} {}", if d == wa { "ok" } else { "differs" }, s.steps.load(Relaxed), w + changed as u64);
    for l in &s.log[..LOG.min(w as usize)] {
        print!(" {}", l.load(Relaxed));
    }
    println!();
}
/// The process of one schedule from a cold start: the very first call is interrupted once.
fn cold(args: &[String]) {
    let (a, b) = (parse(&args[0]), parse(&args[1]));
    let (wa, wb) = (u64::from_str_radix(&args[2], 16).unwrap(), u64::from_str_radix(&args[3], 16).unwrap());
    let n: u64 = args[4].parse().unwrap();
    let n2: u64 = args[5].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    prepare(wb);
    let s = sched();
    let b2 = parse(&args[1]);
    let th = std::thread::spawn(move || second(b2));
    while s.up.load(Acquire) == 0 {
        std::thread::yield_now();
    }
    s.n2.store(n2, Relaxed);
    s.watch2.store((n2 == u64::MAX) as u64, Relaxed);
    let d = stepped(&a, u64::MAX / 2, n, false, n + 2);
    s.first_done.store(1, Release);
    let mut verdict = "ok";
    let t0 = Instant::now();
    while s.up.load(Acquire) <= s.req.load(Relaxed) && t0.elapsed() < Duration::from_secs(25) {
        std::thread::yield_now();
    }
    if s.up.load(Acquire) <= s.req.load(Relaxed) {
        println!("hang");
        std::process::exit(0);
    }
    s.quit.store(1, Relaxed);
    let _ = th.join();
    if s.bad.load(Acquire) != 0 {
        verdict = "second";
    } else if d != wa {
        verdict = "first";
    } else if !again(&a, wa, &b, wb) {
        verdict = "after";
    }
    print!("{verdict} {}", s.switches.load(Relaxed));
    if n2 == u64::MAX {
        for l in &s.log[..LOG.min(s.writes.load(Relaxed) as usize)] {
            print!(" {}", l.load(Relaxed));
        }
    }
    println!();
}
/// The process of one pair of calls.  Prints
/// verdict, instructions of the first call, switches, blocked, static writes, single-switch schedules, cut short
fn pair(args: &[String]) {
    let (a, b) = (parse(&args[0]), parse(&args[1]));
    let (wa, wb) = (u64::from_str_radix(&args[2], 16).unwrap(), u64::from_str_radix(&args[3], 16).unwrap());
    let max: u64 = args[4].parse().unwrap();
    let budget = Duration::from_millis(args[5].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let shared = args[6] == "1";
    prepare(wb);
    let s = sched();
    let th = std::thread::spawn(move || second(b));
    while s.up.load(Acquire) == 0 {
        std::thread::yield_now();
    }
    let (p, n) = statics();
    let before: Vec<u8> = unsafe { std::slice::from_raw_parts(p, n).to_vec() };
    let mut single = 0u64;
    let mut steps = 0u64;
    let mut verdict = "ok".to_string();
    let settle = |what: &str, got: u64, point: u64, verdict: &mut String| -> bool {
        let t = s.req.load(Relaxed);
        if !wait(s, t, Duration::from_secs(25)) {
            *verdict = format!("hang:{what}:{point}");
            return false;
        }
        s.busy.store(0, Relaxed);
        if s.bad.load(Acquire) != 0 {
            *verdict = format!("second:{what}:{}", s.bad_step.load(Relaxed).max(point));
            return false;
        }
        if got != wa {
            *verdict = format!("first:{what}:{point}");
            return false;
        }
        true
    };
    // alone again, by turns
    let later = |point: u64, verdict: &mut String| -> bool {
        if shared && !again(&a, wa, &b, wb) {
            *verdict = format!("both:after:{point}");
            return false;
        }
        for _ in 0..2 {
            if digest(&a) != wa {
                *verdict = format!("first:after:{point}");
                return false;
            }
            if digest(&b) != wb {
                *verdict = format!("second:after:{point}");
                return false;
            }
        }
        true
    };
    'all: {
        let d = stepped(&a, 1, 1, false, max);
        steps = steps.max(s.steps.load(Relaxed));
        if !settle("every", d, 0, &mut verdict) || !later(0, &mut verdict) {
            break 'all;
        }
        if !shared {
            break 'all;
        }
        let d = stepped(&a, 0, 0, true, max);
        if !settle("alone", d, 0, &mut verdict) {
            break 'all;
        }
        let changed = unsafe { memcmp(p, before.as_ptr(), n) } != 0;
        if s.writes.load(Relaxed) > 0 || changed {
            // shared state: a single switch at every instruction, those around the writes first;
            // coming from the same call (an answer kept is there), then coming from the other one
            for warm in [true, false] {
                digest(if warm { &a } else { &b });
                let d = stepped(&a, 0, 0, true, max);
                if !settle("alone", d, 0, &mut verdict) {
                    break 'all;
                }
                let steps = s.steps.load(Relaxed);
                let (f, l) = (s.first_write.swap(0, Relaxed), s.last_write.load(Relaxed));
                let mut at: Vec<u64> = (1..=steps).collect();
                at.sort_by_key(|n| f != 0 && !(*n + 60 >= f && *n <= l + 60));
                let t0 = Instant::now();
                for n in at {
                    if t0.elapsed() > budget / 2 {
                        break;
                    }
                    digest(if warm { &a } else { &b });
                    single += 1;
                    let d = stepped(&a, u64::MAX / 2, n, false, n + 2);
                    if !settle("at", d, n, &mut verdict) || !later(n, &mut verdict) {
                        break 'all;
                    }
                }
            }
        }
    }
    if !verdict.starts_with("hang") {
        s.quit.store(1, Relaxed);
        let _ = th.join();
    }
    println!("{verdict} {steps} {} {} {} {single} {}", s.switches.load(Relaxed), s.blocked.load(Relaxed), s.writes.load(Relaxed), s.cut.load(Relaxed));
}
fn text(x: &Act) -> String {
    format!("{}:{:x}:{:x}:{:x}:{:x}", x.q, x.a[0], x.a[1], x.a[2], x.a[3])
}
fn parse(a: &str) -> Act {
    let v: Vec<u64> = a.split(':').enumerate().map(|(i, x)| u64::from_str_radix(x, if i == 0 { 10 } else { 16 }).unwrap()).collect();
    Act { q: v[0] as u32, a: [v[1], v[2], v[3], v[4]] }
}
fn me() -> std::process::Command {
    std::process::Command::new(std::env::current_exe().unwrap())
}
/// the results in processes that make no other call
fn base() -> &'static Vec<u64> {
    static B: OnceLock<Vec<u64>> = OnceLock::new();
    B.get_or_init(|| {
        let n = alphabet().len();
        let out = std::sync::Mutex::new(vec![0; n]);
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Relaxed) as usize;
                    if i >= n {
                        break;
                    }
                    let o = me().arg("one").arg(text(&alphabet()[i])).stderr(std::process::Stdio::null()).output().expect("spawn");
                    out.lock().unwrap()[i] = u64::from_str_radix(String::from_utf8_lossy(&o.stdout).trim(), 16).unwrap_or(0);
                });
            }
        });
        out.into_inner().unwrap()
    })
}
/// calls found to write static memory
static WRITERS: std::sync::Mutex<std::collections::BTreeMap<usize, Vec<u64>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
fn watch(i: usize, max: u64, o: &mut Obs) -> Result<(), String> {
    let out = me().arg("alone").args([text(&alphabet()[i]), format!("{:x}", base()[i]), max.to_string()]).stderr(std::process::Stdio::null()).output().expect("spawn");
    let t = String::from_utf8_lossy(&out.stdout).to_string();
    let w: Vec<&str> = t.split_whitespace().collect();
    ensure!(w.len() >= 3, "the process ended with {:?} instead of a result", out.status);
    ensure!(w[0] == "ok", "the call gives another result than the same call in another process");
    o.states += w[1].parse::<u64>().unwrap_or(0);
    let writes = w[2] != "0";
    o.mark(2 + writes as usize);
    if writes {
        WRITERS.lock().unwrap().insert(i, w[3..].iter().filter_map(|x| x.parse::<u64>().ok()).flat_map(|x| [x.max(2) - 1, x]).collect());
    }
    Ok(())
}
/// One schedule of two first calls in a process of its own: the first is interrupted after
/// instruction n, the second, if n2 is not 0, after its instruction n2 (u64::MAX: not at all,
/// the instructions at which it writes static memory are returned).
fn cold_run(i: usize, j: usize, n: u64, n2: u64, o: &mut Obs) -> Result<Vec<u64>, String> {
    let (b, al) = (base(), alphabet());
    let out = me()
        .arg("cold")
        .args([text(&al[i]), text(&al[j]), format!("{:x}", b[i]), format!("{:x}", b[j]), n.to_string(), n2.to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .expect("spawn");
    let t = String::from_utf8_lossy(&out.stdout).to_string();
    let w: Vec<&str> = t.split_whitespace().collect();
    o.transitions += 1;
    o.states += n;
    let how = || {
        let back = if n2 == 0 || n2 == u64::MAX { String::new() } else { format!(" and back after {n2} of the other") };
        format!("as the first calls of a process, with a switch after instruction {n}{back}, ")
    };
    match w.first() {
        Some(&"ok") => Ok(w[1..].iter().skip(1).filter_map(|x| x.parse().ok()).collect()),
        Some(&"hang") => Err(how() + "the calls wait for each other"),
        Some(&"second") => Err(how() + "the other call gives another result"),
        Some(&"first") => Err(how() + "the interrupted call gives another result"),
        Some(&"after") => Err(how() + "later calls give another result"),
        _ => Err(format!("the process ended with {:?} instead of a result", out.status)),
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (i, j) = (c.a[0] as usize, c.a[1] as usize); // kind 0: a pair; kind 1: one call; kind 2: a pair from cold starts
    let b = base();
    if c.kind == 2 {
        let known = WRITERS.lock().unwrap().get(&i).cloned();
        let at = match known {
            Some(v) => v,
            None => {
                watch(i, c.a[2], o)?;
                WRITERS.lock().unwrap().get(&i).cloned().unwrap_or_default()
            }
        };
        if c.a[3] == 1 && WRITERS.lock().unwrap().get(&j).is_none() {
            watch(j, c.a[2], o)?;
        }
        let mut left = c.a[4]; // schedules there is room for
        for n in at {
            if c.a[3] == 0 {
                cold_run(i, j, n, 0, o)?;
                continue;
            }
            // the second call is interrupted as well, before and after each of its own writes,
            // as they are when the first call has got this far
            for w in cold_run(i, j, n, u64::MAX, o)? {
                for n2 in [w.max(2) - 1, w] {
                    if left == 0 {
                        return Ok(());
                    }
                    left -= 1;
                    cold_run(i, j, n, n2, o)?;
                }
            }
        }
        return Ok(());
    }
    if c.kind == 1 {
        return watch(i, c.a[2], o);
    }
    let out = me()
        .arg("pair")
        .args([text(&alphabet()[i]), text(&alphabet()[j]), format!("{:x}", b[i]), format!("{:x}", b[j]), c.a[2].to_string(), c.a[3].to_string(), c.a[4].to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .expect("spawn");
    let t = String::from_utf8_lossy(&out.stdout).to_string();
    let w: Vec<&str> = t.split_whitespace().collect();
    ensure!(w.len() == 7, "the process ended with {:?} instead of a result", out.status);
    let n: Vec<u64> = w[1..].iter().map(|x| x.parse().unwrap_or(0)).collect();
    o.transitions += n[1] + n[4];
    o.states += n[0];
    o.mark((n[2] > 0) as usize);
    o.mark(2 + (n[3] > 0) as usize);
    o.mark(4 + (n[5] > 0) as usize);
    if w[0] != "ok" {
        let v: Vec<&str> = w[0].split(':').collect();
        let who = match v[0] {
            "first" => "the interrupted call",
            "both" => "one of the calls",
            _ => "the other call",
        };
        return Err(match (v[0], v[1]) {
            ("hang", _) => format!("the calls wait for each other (switch after instruction {})", v[2]),
            (_, "after") => format!("after a switch at instruction {} {who} gives another result for good", v[2]),
            (_, "every") => format!("{who} gives another result (switches after every instruction, up to {})", v[2]),
            (_, "alone") => format!("{who} gives another result afterwards"),
            _ => format!("{who} gives another result (switch after instruction {})", v[2]),
        });
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let al = alphabet();
    let n = al.len();
    let thorough = e.thorough;
    let (max, far, budget) = if thorough { (400_000, 4_000_000, 120_000) } else { (60_000, 600_000, 4_000) };
    base();
    e.phase("every call alone, static memory watched at every instruction", n as u64, |i, cx| cx.run(case(1, &[i, i, far])));
    // calls that write no static memory are independent of each other: few of their pairs are run
    let w = WRITERS.lock().unwrap().clone();
    let nth: Vec<usize> = (0..n).map(|i| (0..i).filter(|j| al[*j].q == al[i].q).count()).collect();
    let shared = |i: usize, j: usize| w.contains_key(&i) || w.contains_key(&j);
    let mut same: Vec<(u64, u64)> = vec![];
    let mut other: Vec<(u64, u64)> = vec![];
    for i in 0..n {
        for j in 0..n {
            if al[i].q == al[j].q {
                if (i != j || nth[i] == 0) && (thorough || nth[i].max(nth[j]) < 8) {
                    same.push((i as u64, j as u64));
                }
            } else {
                let few = if thorough { 4 } else { 3 };
                if nth[i] == 0 && nth[j] < few {
                    other.push((i as u64, j as u64));
                }
            }
        }
    }
    same.sort_by_key(|p| nth[p.0 as usize] + nth[p.1 as usize]);
    other.sort_by_key(|p| !shared(p.0 as usize, p.1 as usize));
    let near = if thorough { 8 } else { 3 };
    let mut start: Vec<(u64, u64)> = (0..n)
        .filter(|i| w.contains_key(i) && nth[*i] < near)
        .flat_map(|i| (0..n).filter(|j| nth[*j] < near).map(move |j| (i as u64, j as u64)))
        .collect();
    start.sort_by_key(|p| (al[p.0 as usize].q != al[p.1 as usize].q, nth[p.0 as usize] + nth[p.1 as usize]));
    e.phase("first calls of a process, a switch before and after each write of static memory", start.len() as u64, |i, cx| {
        let p = start[i as usize];
        cx.run(case(2, &[p.0, p.1, far, 0, 2 * LOG as u64]));
    });
    start.retain(|p| w.contains_key(&(p.1 as usize)) && p.0 != p.1 && (thorough || nth[p.0 as usize] < 2 && nth[p.1 as usize] < 2));
    let room = if thorough { 4000 } else { 400 };
    e.phase("the same, and a switch back before and after each write of the other call", start.len() as u64, |i, cx| {
        let p = start[i as usize];
        cx.run(case(2, &[p.0, p.1, far, 1, room]));
    });
    for (name, v) in [("pairs of calls of one query", same), ("a call of each query with calls of the others", other)] {
        e.phase(&format!("{name}, a switch after every instruction"), v.len() as u64, |i, cx| {
            let p = v[i as usize];
            let sh = shared(p.0 as usize, p.1 as usize);
            cx.run(case(0, &[p.0, p.1, if sh { far } else { max }, budget, sh as u64]));
        });
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("one") => {
            std::panic::set_hook(Box::new(|_| {}));
            return println!("{:x}", digest(&parse(&args[2])));
        }
        Some("alone") => return alone(&args[2..]),
        Some("cold") => return cold(&args[2..]),
        Some("pair") => return pair(&args[2..]),
        _ => {}
    }
    engine::main(Spec {
        id: "C28",
        rule: "states: instructions of the interrupted calls; transitions: switches between the threads, the other call running completely in between; every result is compared with that of the same call alone in a process of its own, during and after the schedule",
        assumptions: &["two threads; the second one runs whole calls", "schedules: switches after every instruction; where the calls write static memory also one switch at every single instruction", "memory is sequentially consistent under the scheduler"],
        check,
        describe: |c| if c.kind == 1 { act_name(c.a[0]) } else { format!("{} interrupted by {}", act_name(c.a[0]), act_name(c.a[1])) },
        explore,
        extra: |o| {
            let m = o.cover.first().copied().unwrap_or(0);
            vec![("second_thread_ever_blocked".to_string(), (m >> 1 & 1).to_string()), ("schedules_cut_short_by_time".to_string(), (m >> 5 & 1).to_string()), ("static_memory_ever_written".to_string(), (m >> 3 & 1).to_string())]
        },
    })
}
