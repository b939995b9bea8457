//! C21: results depend only on the arguments.
#[path = "../acts.rs"]
mod acts;
use acts::*;
use h3_rs::iterators::IterCellsChildren;
use h3mc::domain::pentagons;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;
use std::sync::OnceLock;

/// calls whose arguments are also varied bit by bit, with the bits that are
/// flipped in each argument
fn flip_bases() -> &'static Vec<(Act, [u64; 4])> {
    static F: OnceLock<Vec<(Act, [u64; 4])>> = OnceLock::new();
    F.get_or_init(|| {
        let cs = cells();
        let (c, nb, pe) = (cs[0], cs[12], cs[8]);
        let fine = cs[4];
        let b = |x: f64| x.to_bits();
        let all = !0u64;
        let keep_res = !(15u64 << 52);
        let edge = (c & !(127 << 56)) | (2 << 59) | (3 << 56);
        vec![
            (Act { q: 0, a: [b(0.6), b(-1.2), 5, 0] }, [all, all, 31, 0]),
            (Act { q: 0, a: [b(0.6), b(-1.2), 15, 0] }, [all, all, 31, 0]),
            (Act { q: 0, a: [b(-1.1), b(2.9), 10, 0] }, [all, all, 31, 0]),
            (Act { q: 1, a: [c, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 1, a: [fine, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 1, a: [pe, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 2, a: [c, 1, 0, 0] }, [all, 7, 0, 0]),
            (Act { q: 2, a: [pe, 2, 0, 0] }, [all, 7, 0, 0]),
            (Act { q: 3, a: [c, 2, 0, 0] }, [all, 7, 0, 0]),
            (Act { q: 4, a: [fine, 2, 0, 0] }, [all, 7, 0, 0]),
            (Act { q: 5, a: [c, 3, 0, 0] }, [all, 7, 7, 0]),
            (Act { q: 5, a: [pe, 3, 1, 0] }, [all, 7, 7, 0]),
            (Act { q: 6, a: [c, nb, 0, 0] }, [all, all, 0, 0]),
            (Act { q: 7, a: [c, nb, 0, 0] }, [all, all, 0, 0]),
            (Act { q: 8, a: [edge, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 9, a: [pe, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 10, a: [fine, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 10, a: [pe, 0, 0, 0] }, [all, 0, 0, 0]),
            (Act { q: 11, a: [pe, 9, 0, 0] }, [all, 31, 0, 0]),
            (Act { q: 12, a: [c, 6, 0, 0] }, [keep_res, 1, 0, 0]),
            (Act { q: 13, a: [7, c, 9, 0] }, [all, all, 15, 0]),
            (Act { q: 15, a: [1000, 0, 0, 0] }, [0xffff_ffff, 0, 0, 0]),
            (Act { q: 16, a: [b(0.6), b(-1.2), b(0.3), b(0.7)] }, [all, all, all, all]),
            (Act { q: 17, a: [5, 20, 2, 0] }, [7, 127, 7, all]),
        ]
    })
}
/// the calls with at most one bit flipped; the first one has none
fn flips(i: usize) -> Vec<Act> {
    let (x, m) = flip_bases()[i];
    let mut v = vec![x];
    for k in 0..4 {
        for bit in 0..64 {
            if m[k] >> bit & 1 == 1 {
                let mut y = x;
                y.a[k] ^= 1 << bit;
                v.push(y);
            }
        }
    }
    v
}
fn flip_base() -> &'static Vec<Vec<(Act, u64)>> {
    static B: OnceLock<Vec<Vec<(Act, u64)>>> = OnceLock::new();
    B.get_or_init(|| {
        let mut all: Vec<(usize, Act, u64)> = Vec::new();
        for i in 0..flip_bases().len() {
            all.extend(flips(i).into_iter().map(|a| (i, a, 0)));
        }
        let n = all.len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(all);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let a = out.lock().unwrap()[i].1;
                    let r = fresh_acts(&[a])[0];
                    out.lock().unwrap()[i].2 = r;
                });
            }
        });
        let mut v = vec![Vec::new(); flip_bases().len()];
        for (i, a, r) in out.into_inner().unwrap() {
            v[i].push((a, r));
        }
        v
    })
}
/// the results in processes that make no other call
fn base() -> &'static Vec<u64> {
    static B: OnceLock<Vec<u64>> = OnceLock::new();
    B.get_or_init(|| {
        let n = alphabet().len();
        let out = std::sync::Mutex::new(vec![0; n]);
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    out.lock().unwrap()[i] = fresh(&[i as u64])[0];
                });
            }
        });
        out.into_inner().unwrap()
    })
}
/// the results of a word in a process of its own; a call that panics is reported as 0
fn fresh(word: &[u64]) -> Vec<u64> {
    let acts: Vec<Act> = word.iter().map(|w| alphabet()[*w as usize]).collect();
    fresh_acts(&acts)
}
fn fresh_acts(word: &[Act]) -> Vec<u64> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("word");
    for x in word {
        c.arg(format!("{}:{:x}:{:x}:{:x}:{:x}", x.q, x.a[0], x.a[1], x.a[2], x.a[3]));
    }
    let out = c.stderr(std::process::Stdio::null()).output().expect("spawn");
    let mut v: Vec<u64> = String::from_utf8_lossy(&out.stdout).split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap_or(0)).collect();
    v.resize(word.len(), 0);
    v
}
fn print_word(args: &[String]) {
    let mut s = String::new();
    for a in args {
        let v: Vec<u64> = a.split(':').enumerate().map(|(i, x)| u64::from_str_radix(x, if i == 0 { 10 } else { 16 }).unwrap()).collect();
        s.push_str(&format!("{:x} ", run_act(&Act { q: v[0] as u32, a: [v[1], v[2], v[3], v[4]] })));
    }
    println!("{s}");
}
/// parents and depths of the iterators that are interleaved
fn iters() -> &'static Vec<(u64, i32)> {
    static I: OnceLock<Vec<(u64, i32)>> = OnceLock::new();
    I.get_or_init(|| {
        let cs = cells();
        let (c, pe) = (cs[0], cs[8]);
        vec![(c, 6), (c, 7), (cs[1], 6), (pe, 6), (pe, 7), (cs[9], 6), (cs[3], 6), (cs[10], 7), (mk(14, 20, &[3; 15]), 15), (pentagons(14)[3], 15), (cs[14], 1), (c, 5)]
    })
}
/// the n-th item that an iterator must give
fn item(i: usize, n: u64) -> Option<u64> {
    let (p, r) = iters()[i];
    static T: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
    let t = T.get_or_init(|| {
        iters()
            .iter()
            .map(|&(p, r)| {
                let mut v = Vec::new();
                let mut x = Some(first_child(p, r));
                while let Some(h) = x {
                    v.push(h);
                    if v.len() > 40 {
                        break;
                    }
                    x = next_child(p, h, r);
                }
                v
            })
            .collect()
    });
    let _ = (p, r);
    t[i].get(n as usize).copied()
}
fn step(it: &mut IterCellsChildren, i: usize, n: &mut u64, o: &mut Obs) -> Result<(), String> {
    let got = it.next();
    let want = item(i, *n);
    o.transitions += 1;
    ensure!(got == want, "item {n} of the children of {:x} at resolution {} is {got:x?}, not {want:x?}", iters()[i].0, iters()[i].1);
    *n += 1;
    Ok(())
}
fn verify(i: u64, o: &mut Obs, when: &dyn Fn() -> String) -> Result<(), String> {
    let got = run_act(&alphabet()[i as usize]);
    o.transitions += 1;
    ensure!(got == base()[i as usize], "{} {} gives another result than in a process of its own", when(), act_name(i));
    Ok(())
}
fn sweep_act(q: u64, h: u64) -> Act {
    let r = res(h) as u64;
    match q {
        0 => {
            let p = model().center(h);
            let l = v_to_ll(p);
            Act { q: 0, a: [l.0.to_bits(), l.1.to_bits(), r, 0] }
        }
        1 => Act { q: 1, a: [h, 0, 0, 0] },
        2 => Act { q: 2, a: [h, 1, 0, 0] },
        3 => Act { q: 3, a: [h, 1, 0, 0] },
        4 => Act { q: 4, a: [h, 1, 0, 0] },
        5 => Act { q: 5, a: [h, 2 + (h >> 45) % 5, 0, 0] },
        6 => Act { q: 6, a: [h, model().neighbors(h)[2], 0, 0] },
        7 => Act { q: 7, a: [h, model().neighbors(h)[3], 0, 0] },
        8 => Act { q: 8, a: [(h & !(127 << 56)) | (2 << 59) | (3 << 56), 0, 0, 0] },
        9 => Act { q: 10, a: [h, 0, 0, 0] },
        10 => Act { q: 12, a: [h, r + 1, 0, 0] },
        _ => Act { q: 13, a: [4, h, r + 2, 0] },
    }
}
const SWEEPS: u64 = 12;
fn sweep(q: u64, bc0: u64, nbc: u64, top: i32, o: &mut Obs) -> Result<(), String> {
    let mut acts = Vec::new();
    for b in bc0..(bc0 + nbc).min(122) {
        for r in 0..=top {
            let root = mk(0, b as usize, &[]);
            let mut x = Some(first_child(root, r));
            while let Some(h) = x {
                acts.push(sweep_act(q, h));
                x = next_child(root, h, r);
            }
        }
    }
    let first: Vec<u64> = acts.iter().map(run_act).collect();
    let n = acts.len();
    o.transitions += 3 * n as u64;
    for i in (0..n).rev() {
        ensure!(run_act(&acts[i]) == first[i], "{}({:#x}, ...) gives another result when the same calls are made in reverse order", NAMES[acts[i].q as usize], acts[i].a[0]);
    }
    // a stride that visits every call once
    let mut s = n * 5 / 8 | 1;
    while gcd(s, n) != 1 {
        s += 1;
    }
    let mut i = 0;
    for _ in 0..n {
        ensure!(run_act(&acts[i]) == first[i], "{}({:#x}, ...) gives another result when the same calls are made in strides of {s}", NAMES[acts[i].q as usize], acts[i].a[0]);
        i = (i + s) % n;
    }
    Ok(())
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let a = c.a;
    match c.kind {
        0 => {
            let n = a[3] as usize;
            for s in 0..n {
                verify(a[s], o, &|| match s {
                    0 => "at the start of the word".to_string(),
                    1 => format!("after {}", act_name(a[0])),
                    _ => format!("after {} and {}", act_name(a[0]), act_name(a[1])),
                })?;
            }
        }
        8 => {
            for s in 0..4 {
                verify(a[s], o, &|| format!("in the word {:?},", a[..4].iter().map(|x| act_name(*x)).collect::<Vec<_>>()))?;
            }
        }
        9 => {
            // two calls of a family that differ in one or two bits
            let t = &flip_base()[a[0] as usize];
            for (k, j) in [a[1], a[2]].iter().enumerate() {
                let (x, want) = &t[*j as usize];
                o.transitions += 1;
                ensure!(run_act(x) == *want, "{}{} gives another result than in a process of its own", if k == 0 { String::new() } else { format!("after {} ", act_text(&t[a[1] as usize].0)) }, act_text(x));
            }
        }
        1 => {
            for n in 0..a[1] {
                verify(a[0], o, &|| format!("after {n} times itself"))?;
            }
        }
        2 => {
            let (x, y) = (iters()[a[0] as usize], iters()[a[1] as usize]);
            let mut i = IterCellsChildren::from_parent(x.0, x.1);
            let mut j = IterCellsChildren::from_parent(y.0, y.1);
            let (mut n, mut m) = (0, 0);
            for s in 0..a[3] {
                if (a[2] >> s) & 1 == 0 {
                    step(&mut i, a[0] as usize, &mut n, o)?;
                } else {
                    step(&mut j, a[1] as usize, &mut m, o)?;
                }
            }
        }
        3 => {
            let ix = [a[0] as usize, a[1] as usize, a[2] as usize];
            let mut it: Vec<IterCellsChildren> = ix.iter().map(|i| IterCellsChildren::from_parent(iters()[*i].0, iters()[*i].1)).collect();
            let mut n = [0; 3];
            let mut w = a[3];
            while w != 1 {
                let k = (w & 3) as usize;
                w >>= 2;
                step(&mut it[k], ix[k], &mut n[k], o)?;
            }
        }
        4 => {
            // an iterator with two calls in between
            let x = iters()[a[0] as usize];
            let mut i = IterCellsChildren::from_parent(x.0, x.1);
            let mut n = 0;
            for s in 0..9 {
                if s == a[1] {
                    verify(a[2], o, &|| format!("after {s} steps of an iterator"))?;
                }
                if s == a[3] {
                    verify(a[4], o, &|| format!("after {s} steps of an iterator"))?;
                }
                step(&mut i, a[0] as usize, &mut n, o)?;
            }
        }
        5 => sweep(a[0], a[1], a[2], a[3] as i32, o)?,
        6 => {
            let w = &a[..a[3] as usize];
            let r = fresh(w);
            for (s, x) in r.iter().enumerate() {
                o.transitions += 1;
                ensure!(*x == base()[w[s] as usize], "in a new process, {} as call {} of the word gives another result than alone", act_name(w[s]), s + 1);
            }
        }
        _ => {
            // nested: an iterator over the children of each item of another
            let (x, _) = iters()[a[0] as usize];
            let r = res(x);
            if r + 2 > 15 {
                return Ok(());
            }
            let mut got = Vec::new();
            for y in IterCellsChildren::from_parent(x, r + 1) {
                for z in IterCellsChildren::from_parent(y, r + 2) {
                    got.push(z);
                    o.transitions += 1;
                }
            }
            let mut want = Vec::new();
            let mut t = Some(first_child(x, r + 2));
            while let Some(h) = t {
                want.push(h);
                t = next_child(x, h, r + 2);
            }
            ensure!(got == want, "nested iterators over the children of {x:x} do not give its grandchildren");
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    let n = alphabet().len() as u64;
    let _ = base();
    e.phase(&format!("all words of 2 calls of an alphabet of {n}, each in a new process"), n, |i, cx| {
        for j in 0..n {
            cx.obs.states += 1;
            cx.run(case(6, &[i, j, 0, 2]));
            if cx.stopped() {
                return;
            }
        }
    });
    e.phase("all words of 3 calls", n * n, |i, cx| {
        for j in 0..n {
            cx.obs.states += 1;
            cx.run(case(0, &[i / n, i % n, j, 3]));
        }
    });
    // build the table outside of any case
    let nf: Vec<u64> = flip_base().iter().map(|t| t.len() as u64).collect();
    let rows: Vec<(u64, u64)> = (0..nf.len() as u64).flat_map(|b| (0..nf[b as usize]).map(move |i| (b, i))).collect();
    e.phase(&format!("calls that differ in single bits ({} calls of {} families), all pairs of a family", rows.len(), nf.len()), rows.len() as u64, |i, cx| {
        let (b, x) = rows[i as usize];
        for y in 0..nf[b as usize] {
            cx.obs.states += 1;
            cx.run(case(9, &[b, x, y]));
        }
    });
    let part: Vec<u64> = (0..n).step_by(if th { 2 } else { 4 }).collect();
    let m = part.len() as u64;
    e.phase(&format!("all words of 4 calls of a part of the alphabet ({m})"), m * m, |i, cx| {
        for j in 0..m * m {
            cx.obs.states += 1;
            cx.run(case(8, &[part[(i / m) as usize], part[(i % m) as usize], part[(j / m) as usize], part[(j % m) as usize]]));
        }
    });
    // calls that give lists are made less often
    let (reps, few) = if th { (20_000_000, 1_100_000) } else { (1_100_000, 140_000) };
    e.phase(&format!("every call {reps} times (those that give lists {few} times)"), n, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(1, &[i, if matches!(alphabet()[i as usize].q, 2 | 3 | 4 | 9 | 12 | 14) { few } else { reps }]));
    });
    // sweeps over all cells, three orders
    let top = if th { 5 } else { 4 };
    e.phase("sweeps over all cells in three orders", SWEEPS, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(5, &[i, 0, 122, top]));
    });
    e.phase("sweeps over the cells of each base cell in three orders", SWEEPS * 122, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(5, &[i / 122, i % 122, 1, top + 1]));
    });
    let ni = iters().len() as u64;
    let len = if th { 20 } else { 14 };
    e.phase(&format!("all interleavings of {len} steps of two iterators"), ni * ni, |i, cx| {
        for w in 0..1u64 << len {
            cx.obs.states += 1;
            cx.run(case(2, &[i / ni, i % ni, w, len]));
        }
    });
    let len = if th { 12 } else { 9 };
    e.phase(&format!("all interleavings of {len} steps of three iterators"), ni * ni * ni, |i, cx| {
        for n in 0..3u64.pow(len) {
            let (mut w, mut n) = (1, n);
            for _ in 0..len {
                w = w << 2 | n % 3;
                n /= 3;
            }
            cx.obs.states += 1;
            cx.run(case(3, &[i / ni / ni, i / ni % ni, i % ni, w]));
        }
    });
    e.phase("iterators with two calls in between, at all places", ni * n, |i, cx| {
        let (it, x) = (i / n, i % n);
        for g in 0..9 {
            for k in g..9 {
                for y in (if th { 0 } else { x % 8 }..n).step_by(if th { 1 } else { 8 }) {
                    cx.obs.states += 1;
                    cx.run(case(4, &[it, g, x, k, y]));
                }
            }
        }
    });
    e.phase("nested iterators", ni, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(7, &[i]));
    });
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("word") {
        print_word(&args[2..]);
        return;
    }
    engine::main(Spec {
        id: "C21",
        rule: "states: distinct call words and iterator schedules; every call's result is compared with that of the same call alone in a process of its own, every iterator item with the model's child enumeration, every sweep with the same sweep in other orders",
        assumptions: &["histories are words of up to 3 calls of the alphabet, long repetitions and sweeps; calls differ in single arguments so that stale results show", "within a worker process histories accumulate; pairs of calls are also run in new processes"],
        check,
        describe: |c| {
            let a = c.a;
            match c.kind {
                0 => format!("word {}; {}; {}", act_name(a[0]), act_name(a[1]), act_name(a[2])),
                8 => format!("word {:?}", a[..4].iter().map(|x| act_name(*x)).collect::<Vec<_>>()),
                9 => format!("{}; {}", act_text(&flips(a[0] as usize)[a[1] as usize]), act_text(&flips(a[0] as usize)[a[2] as usize])),
                1 => format!("{} x {}", act_name(a[0]), a[1]),
                2 => format!("iterators {:x?} and {:x?} interleaved as (bits, first step lowest) {:b}", iters()[a[0] as usize], iters()[a[1] as usize], a[2]),
                3 => format!("iterators {:x?}, {:x?}, {:x?} interleaved as {:x}", iters()[a[0] as usize], iters()[a[1] as usize], iters()[a[2] as usize], a[3]),
                4 => format!("iterator {:x?} with {} after {} steps and {} after {}", iters()[a[0] as usize], act_name(a[2]), a[1], act_name(a[4]), a[3]),
                5 => format!("sweep {} over base cells {}..{} to resolution {}", a[0], a[1], a[1] + a[2], a[3]),
                6 => format!("in a new process: {}; {}", act_name(a[0]), act_name(a[1])),
                _ => format!("nested iterators over the children of {:x}", iters()[a[0] as usize].0),
            }
        },
        explore,
        extra: |_| vec![("alphabet".to_string(), alphabet().len().to_string())],
    })
}
