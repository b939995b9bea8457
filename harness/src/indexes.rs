//! Finite families of raw 64-bit values around the valid indexes.

use crate::domain::{pentagons, Domain};
use crate::engine::{Ctx, Engine};
use crate::model::*;

fn head(high: u64, mode: u64, reserved: u64, r: u64, bc: u64) -> u64 {
    (high << 63) | (mode << 59) | (reserved << 56) | (r << 52) | (bc << 45)
}
/// digits d for the first n positions, 7 for the others
fn const_digits(d: u64, n: u32) -> u64 {
    let mut x = 0;
    for q in 0..15 {
        x |= (if q < n { d } else { 7 }) << ((14 - q) * 3);
    }
    x
}
fn put(h: u64, q: u32, d: u64) -> u64 {
    // q = 0 is the digit of resolution 1
    let s = (14 - q) * 3;
    (h & !(7 << s)) | (d << s)
}

/// Every header x constant digit strings of every length.
pub fn headers<F>(eng: &mut Engine, f: F)
where
    F: Fn(u64, &mut Ctx) + Sync,
{
    eng.phase("all 524288 headers x constant digit strings of every length", 2 * 16 * 8 * 16, |i, cx| {
        let (hi, m, rs, r) = (i & 1, (i >> 1) & 15, (i >> 5) & 7, (i >> 8) & 15);
        for b in 0..128 {
            for n in 0..=15 {
                for d in 0..8 {
                    if d == 7 && n > 0 {
                        continue;
                    }
                    cx.obs.states += 1;
                    f(head(hi, m, rs, r, b) | const_digits(d, n), cx);
                }
            }
            if cx.stopped() {
                return;
            }
        }
    });
}

/// Explore raw values: every header x constant digit strings; for headers of
/// the given mode and reserved values every digit string that differs from a
/// well-formed one in at most two digits, and every content of every window of
/// consecutive digits; and all one- and two-bit flips of well-formed values.
pub fn explore<F>(eng: &mut Engine, mode: u64, reserved: &[u64], f: F)
where
    F: Fn(u64, &mut Ctx) + Sync,
{
    let th = eng.thorough;
    headers(eng, &f);
    let nr = reserved.len() as u64;
    eng.phase("resolution x base cell x <= 2 digit deviations (digits 0..7)", 16 * 128 * nr, |i, cx| {
        let rs = reserved[(i % nr) as usize];
        let (r, b) = ((i / nr) / 128, (i / nr) % 128);
        for bg in 0..7 {
            let base = head(0, mode, rs, r, b) | const_digits(bg, r as u32);
            cx.obs.states += 1;
            f(base, cx);
            for p in 0..15 {
                for d in 0..8 {
                    let x = put(base, p, d);
                    if x == base {
                        continue;
                    }
                    cx.obs.states += 1;
                    f(x, cx);
                    for q in p + 1..15 {
                        for e in 0..8 {
                            let y = put(x, q, e);
                            if y != x {
                                cx.obs.states += 1;
                                f(y, cx);
                            }
                        }
                    }
                }
            }
            if cx.stopped() {
                return;
            }
        }
    });
    let w: u32 = if th { 6 } else { 5 };
    let bases: Vec<u64> = vec![0, 1, 4, 7, 14, 24, 33, 38, 49, 58, 63, 64, 72, 83, 97, 107, 117, 121, 122, 127];
    let np = (15 - w + 1) as u64;
    eng.phase("all contents of every digit window", 16 * np * bases.len() as u64 * nr, |i, cx| {
        let rs = reserved[(i % nr) as usize];
        let i = i / nr;
        let nb = bases.len() as u64;
        let b = bases[(i % nb) as usize];
        let p = ((i / nb) % np) as u32;
        let r = i / nb / np;
        for bg in [0, 1, 3] {
            let base = head(0, mode, rs, r, b) | const_digits(bg, r as u32);
            for n in 0..(1u64 << (3 * w)) {
                let s = (15 - p - w) * 3;
                cx.obs.states += 1;
                f((base & !(((1 << (3 * w)) - 1) << s)) | (n << s), cx);
            }
            if cx.stopped() {
                return;
            }
        }
    });
    let mut cells: Vec<u64> = Vec::new();
    for r in 0..16 {
        cells.extend(pentagons(r));
        for b in 0..122 {
            for d in 0..7u8 {
                let mut ds = [d; 15];
                for c in [ds, {
                    ds[0] = 0;
                    ds
                }] {
                    let h = mk(r, b, &c);
                    if valid_cell(h) {
                        cells.push(h);
                    }
                }
            }
        }
    }
    cells.sort_unstable();
    cells.dedup();
    eng.phase("all one- and two-bit flips of well-formed values", cells.len() as u64, |i, cx| {
        for rs in reserved {
            let h = (cells[i as usize] & !(127u64 << 56)) | (mode << 59) | (rs << 56);
            for a in 0..64 {
                f(h ^ (1 << a), cx);
                cx.obs.states += 1;
                for b in a + 1..64 {
                    f(h ^ (1 << a) ^ (1 << b), cx);
                    cx.obs.states += 1;
                }
            }
        }
    });
    let d = if th {
        Domain { low: 6, runs: 4, dev: 3, win: 4, pent: 12, edge: 0, max_res: 15 }
    } else {
        Domain { low: 5, runs: 2, dev: 2, win: 2, pent: 5, edge: 0, max_res: 15 }
    };
    d.explore(eng, |h, cx| {
        for rs in reserved {
            f((h & !(127u64 << 56)) | (mode << 59) | (rs << 56), cx);
        }
    });
}
