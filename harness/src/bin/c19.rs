//! C19: the bit fields of an index are independent and lossless.
use h3_rs::h3_index::*;
use h3mc::engine::*;
use h3mc::model;
use h3mc::*;

// fields: 0 high bit, 1 mode, 2 reserved, 3 resolution, 4 base cell, 5.. digits of resolution 1..15
const FIELDS: usize = 20;
fn place(f: usize) -> (u32, u64) {
    match f {
        0 => (63, 1),
        1 => (59, 15),
        2 => (56, 7),
        3 => (52, 15),
        4 => (45, 127),
        q => (((19 - q) * 3) as u32, 7),
    }
}
fn spec_get(h: u64, f: usize) -> u64 {
    let (s, m) = place(f);
    (h >> s) & m
}
fn spec_set(h: u64, f: usize, v: u64) -> u64 {
    let (s, m) = place(f);
    (h & !(m << s)) | (v << s)
}
fn get(h: u64, f: usize) -> i64 {
    match f {
        0 => H3_GET_HIGH_BIT(h) as i64,
        1 => H3_GET_MODE(h) as i64,
        2 => H3_GET_RESERVED_BITS(h) as i64,
        3 => H3_GET_RESOLUTION(h) as i64,
        4 => H3_GET_BASE_CELL(h) as i64,
        q => H3_GET_INDEX_DIGIT(h, q as i32 - 4) as i64,
    }
}
fn set(h: &mut u64, f: usize, v: u64) {
    let v = v as i32;
    match f {
        0 => H3_SET_HIGH_BIT(h, v),
        1 => H3_SET_MODE(h, v),
        2 => H3_SET_RESERVED_BITS(h, v),
        3 => H3_SET_RESOLUTION(h, v),
        4 => H3_SET_BASE_CELL(h, v),
        q => H3_SET_INDEX_DIGIT(h, q as i32 - 4, v),
    }
}
fn name(f: usize) -> String {
    match f {
        0 => "high bit".into(),
        1 => "mode".into(),
        2 => "reserved".into(),
        3 => "resolution".into(),
        4 => "base cell".into(),
        q => format!("digit {}", q - 4),
    }
}
/// writes are packed as field * 256 + value in a[1..], 0xffff.. = none
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    if c.kind == 1 {
        let (r, b, d) = (c.a[0] as i32, c.a[1] as i32, c.a[2] as i32);
        let mut h = c.a[3];
        setH3Index(&mut h, r, b, d);
        let want = model::mk(r, b as usize, &[d as u8; 15]);
        o.transitions += 1;
        ensure!(h == want, "gives {h:x}, not {want:x}");
        return Ok(());
    }
    if c.kind == 2 {
        // every (field, value) written to one prior value
        for f in 0..FIELDS {
            for v in 0..=place(f).1 {
                let mut h = c.a[0];
                set(&mut h, f, v);
                let want = spec_set(c.a[0], f, v);
                ensure!(h == want, "after writing {v} to the {} the index is {h:x}, not {want:x}", name(f));
            }
            o.transitions += place(f).1 + 1;
        }
    }
    let mut want = c.a[0];
    let mut h = c.a[0];
    for w in &c.a[1..] {
        if *w == u64::MAX || c.kind == 2 {
            break;
        }
        let (f, v) = ((*w >> 8) as usize, *w & 255);
        want = spec_set(want, f, v);
        set(&mut h, f, v);
        o.transitions += 1;
        ensure!(h == want, "after writing {v} to the {} the index is {h:x}, not {want:x}", name(f));
    }
    for f in 0..FIELDS {
        o.transitions += 1;
        let g = get(h, f);
        ensure!(g == spec_get(want, f) as i64, "the {} of {h:x} reads {g}, not {}", name(f), spec_get(want, f));
    }
    ensure!(getResolution(h) as u64 == spec_get(want, 3), "getResolution({h:x}) is {}", getResolution(h));
    Ok(())
}
fn explore(e: &mut Engine) {
    let mut bgs: Vec<u64> = vec![0, !0, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x3333333333333333, 0x0f0f0f0f0f0f0f0f, 0x9249249249249249, 0x6db6db6db6db6db6, H3_INIT];
    for i in 0..64 {
        bgs.push(1 << i);
        bgs.push(!(1 << i));
    }
    for r in 0..16 {
        for b in [0, 4, 58, 121] {
            for d in 0..7 {
                bgs.push(model::mk(r, b, &[d; 15]));
            }
        }
    }
    let mut writes: Vec<u64> = Vec::new();
    for f in 0..FIELDS {
        for v in 0..=place(f).1 {
            writes.push((f as u64) << 8 | v);
        }
    }
    let none = u64::MAX;
    e.phase("backgrounds x every (field, value)", bgs.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(0, &[bgs[i as usize], none]));
        for w in &writes {
            cx.obs.states += 1;
            cx.run(case(0, &[bgs[i as usize], *w, none]));
        }
    });
    let nb = bgs.len();
    let nw = writes.len() as u64;
    e.phase("all sequences of two writes", nw * nb as u64, |i, cx| {
        for w in &writes {
            cx.obs.states += 1;
            cx.run(case(0, &[bgs[(i / nw) as usize], writes[(i % nw) as usize], *w, none]));
        }
    });
    let mut few: Vec<u64> = Vec::new();
    for f in 0..FIELDS {
        let m = place(f).1;
        let mut vs = vec![0, m, m / 2, m - m / 4];
        vs.sort_unstable();
        vs.dedup();
        few.extend(vs.into_iter().map(|v| (f as u64) << 8 | v));
    }
    let n = few.len() as u64;
    e.phase("all sequences of three writes (four values per field)", n * n, |i, cx| {
        for w in &few {
            for b in &bgs[..if cx_thorough() { 137 } else { 9 }] {
                cx.obs.states += 1;
                cx.run(case(0, &[*b, few[(i / n) as usize], few[(i % n) as usize], *w, none]));
            }
        }
    });
    indexes::headers(e, |h, cx| cx.run(case(0, &[h, none])));
    e.phase("every header x digit strings x every (field, value)", 1 << 19, |i, cx| {
        let tails: [u64; 8] = [0, (1 << 45) - 1, 0x55555555555, 0x2aaaaaaaaaaa, 0o123456701234567, 0o765432107654321, 0o444444444444444, 0o333333333333333];
        for t in &tails {
            cx.obs.states += 1;
            cx.run(case(2, &[(i << 45) | t]));
        }
    });
    e.phase("every content of every window of four digits x every (field, value)", 12 * 512, |i, cx| {
        let (p, w0) = ((i / 512) * 3, (i % 512) << 3);
        for w in w0..w0 + 8 {
            for bg in [0u64, !0, 0x08a2a15f5a5a5a5a] {
                cx.obs.states += 1;
                cx.run(case(2, &[(bg & !(0xfff << p)) | (w << p)]));
            }
        }
    });
    e.phase("setH3Index: resolution x base cell x digit x old value", 16 * 128, |i, cx| {
        for d in 0..8 {
            for old in [0, !0, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x08fffffffffffff, 0x1234567890abcdef, 1 << 63] {
                cx.obs.states += 1;
                cx.run(case(1, &[i / 128, i % 128, d, old]));
            }
        }
    });
}
fn cx_thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}
fn main() {
    engine::main(Spec {
        id: "C19",
        rule: "states: (prior value, sequence of field writes); every write is mirrored by the record of twenty fields and the whole index compared after each write; then all getters are compared",
        assumptions: &["prior values are the stated backgrounds (all-zero, all-one, alternating, every single bit set or cleared, well-formed cells)", "only in-range values are written"],
        check,
        describe: |c| {
            if c.kind == 1 {
                return format!("setH3Index({:x}, {}, {}, {})", c.a[3], c.a[0], c.a[1], c.a[2]);
            }
            if c.kind == 2 {
                return format!("on {:x}: every (field, value)", c.a[0]);
            }
            let ws: Vec<String> = c.a[1..].iter().take_while(|w| **w != u64::MAX).map(|w| format!("{} := {}", name((*w >> 8) as usize), w & 255)).collect();
            format!("on {:x}: {}", c.a[0], ws.join(", "))
        },
        explore,
        extra: no_extra,
    })
}
