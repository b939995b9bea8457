//! C27: helpers that read and change index digits.
use h3_rs::error::Error;
use h3_rs::h3_index::{
    _h3LeadingNonZeroDigit, _h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw, _h3ToFaceIjk, _hasChildAtRes, _zeroIndexDigits,
};
use h3_rs::iterators::IterCellsChildren;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;
use std::hint::black_box as bb;

/// any 64-bit value
fn word(h: u64, o: &mut Obs) -> Result<(), String> {
    let first = (1..=res(h)).map(|q| digit(h, q)).find(|d| *d != 0).unwrap_or(0);
    let got = _h3LeadingNonZeroDigit(h) as usize;
    o.transitions += 1;
    ensure!(got == first, "its first non-zero digit is given as {got}, not {first}");
    for (x, n) in [(_h3Rotate60ccw(h), 1), (_h3Rotate60cw(h), -1)] {
        let want = (1..=res(h)).fold(h, |w, q| set_digit(w, q, rot_digit(digit(h, q), n)));
        o.transitions += 1;
        ensure!(x == want, "turned by {} degrees it is {x:x}, not {want:x}", 60 * n);
    }
    for x in [_h3RotatePent60ccw(h), _h3RotatePent60cw(h)] {
        o.transitions += 1;
        ensure!(x >> 45 == h >> 45, "a turn about the pentagon changes more than digits: {x:x}");
    }
    let a = _h3ToFaceIjk(h);
    if bc(h) > 121 {
        ensure!(matches!(a, Err(Error::CellInvalid)), "it has a face address although there is no base cell {}", bc(h));
    } else {
        bb(a.is_ok());
    }
    for cr in (-2..19).chain([i32::MIN, i32::MAX, -256, -250, 128, 256, 261, 65536, 65541]) {
        let want = cr >= res(h) && cr <= 15;
        o.transitions += 1;
        ensure!(_hasChildAtRes(h, cr) == want, "it has children at resolution {cr}: {}", !want);
    }
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let cr = c.a[1] as i32;
    match c.kind {
        0 => return word(h, o),
        1 => {
            for (s, t) in (1..16).flat_map(|s| (0..16).map(move |t| (s, t))) {
                let got = _zeroIndexDigits(h, s, t);
                let want = (s..=t).fold(h, |x, q| set_digit(x, q, 0));
                o.transitions += 1;
                ensure!(got == want, "digits {s} to {t} cleared: {got:x}, not {want:x}");
            }
        }
        4 => {
            // a[1]: a block of 2^20 child resolutions
            let lo = ((c.a[1] << 20) as u32) as i32;
            for cr in lo..=lo + 0xfffff {
                let want = cr >= res(h) && cr <= 15;
                o.transitions += 1;
                ensure!(_hasChildAtRes(h, cr) == want, "it has children at resolution {cr}: {}", !want);
            }
        }
        2 => {
            // the digits shown by the iterator
            let mut it = IterCellsChildren::from_parent(h, cr);
            let mut want = Some(first_child(h, cr));
            let mut n = 0;
            while let Some(w) = want {
                for q in 1..=15 {
                    let d = it._getResDigit(q) as usize;
                    o.transitions += 1;
                    ensure!(d == digit(w, q), "after {n} children digit {q} of the iterator reads {d}, not {}", digit(w, q));
                }
                let x = it.next();
                ensure!(x == Some(w), "child {n} is {x:x?}, not {w:x}");
                n += 1;
                if n == 500 {
                    break;
                }
                want = next_child(h, w, cr);
            }
        }
        _ => {
            // one digit of the iterator stepped
            let w = first_child(h, cr);
            for q in res(h) + 1..=cr {
                for v in 1..7u64 {
                    let mut it = IterCellsChildren::from_parent(h, cr);
                    for _ in 0..v {
                        it._incrementResDigit(q);
                    }
                    let want = set_digit(w, q, v as usize);
                    ensure!(it._getResDigit(q) as u64 == v, "digit {q} of the iterator reads {} after {v} steps", it._getResDigit(q) as u64);
                    let x = it.next();
                    o.transitions += 1;
                    ensure!(x == Some(want), "with digit {q} of the iterator stepped {v} times it yields {x:x?}, not {want:x}");
                }
            }
            let mut it = IterCellsChildren::_null_iter();
            ensure!(it.next().is_none() && it.next().is_none(), "the empty iterator yields a cell");
        }
    }
    Ok(())
}
fn set_fields(r: u64, b: u64, d: usize) -> u64 {
    (1..=15).fold((1 << 59) | (r << 52) | (b << 45), |x, q| set_digit(x, q, if q <= r as i32 { d } else { 7 }))
}
fn explore(e: &mut Engine) {
    let mut bgs: Vec<u64> = vec![0, 0x5555555555555555, 0x3333333333333333, 0x0f0f0f0f0f0f0f0f, 0x9249249249249249, 0x6db6db6db6db6db6, 0x5a5a5a5a5a5a5a5a];
    for i in 0..64 {
        bgs.push(1 << i);
    }
    for r in 0..16 {
        for d in 0..7 {
            bgs.push(mk(r, 58, &[d; 15]));
        }
    }
    e.phase("backgrounds x every range of digits", bgs.len() as u64, |i, cx| {
        for x in [bgs[i as usize], !bgs[i as usize]] {
            cx.obs.states += 15 * 16;
            cx.run(case(1, &[x]));
        }
    });
    e.phase("iterators: parents of every base cell x every pair of resolutions", 16 * 122, |i, cx| {
        let (r, b) = ((i / 122) as i32, (i % 122) as usize);
        for p in [mk(r, b, &[0; 15]), mk(r, b, &[6; 15]), mk(r, b, &[0, 2, 0, 0, 3, 0, 5, 0, 4, 0, 0, 2, 0, 6, 3])] {
            for cr in r..16 {
                cx.obs.states += 1;
                cx.run(case(2, &[p, cr as u64]));
                cx.run(case(3, &[p, cr as u64]));
            }
        }
    });
    e.phase("all 2^32 child resolutions", 4096, |i, cx| {
        for h in [mk(4, 20, &[3, 1, 0, 5]), 0, !0, 0x0af0_0000_0000_0000] {
            cx.obs.states += 1 << 20;
            cx.run(case(4, &[h, i]));
        }
    });
    let d = Domain { low: if e.thorough { 7 } else { 6 }, runs: 3, dev: 2, win: 3, pent: 3, edge: 0, max_res: 15 };
    d.explore(e, |h, cx| cx.run(case(0, &[h])));
    if e.thorough {
        indexes::explore(e, 1, &[0], |h, cx| cx.run(case(0, &[h])));
        return;
    }
    indexes::headers(e, |h, cx| cx.run(case(0, &[h])));
    e.phase("resolution x base cell x <= 2 digit deviations (digits 0..7)", 16 * 128, |i, cx| {
        let (r, b) = (i / 128, i % 128);
        for bg in [0, 4] {
            let base = set_fields(r, b, bg);
            for (p, q) in (1..=15).flat_map(|p| (p + 1..=15).map(move |q| (p, q))) {
                if b % 16 != 4 && q != p + 1 && q != 15 {
                    continue;
                }
                for n in 0..64usize {
                    cx.obs.states += 1;
                    cx.run(case(0, &[set_digit(set_digit(base, p, n / 8), q, n % 8)]));
                }
            }
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C27",
        rule: "states: 64-bit values (the families of C06 and all cells of the cell domain), (value, digit range) pairs, iterators; transitions: results compared with the record of fifteen digits",
        assumptions: &["values are those of the stated families, which overlap a little", "turns about a pentagon of malformed values are only watched for crashes and changes outside the digits"],
        check,
        describe: |c| match c.kind {
            0 => format!("value {:#x}", c.a[0]),
            4 => format!("_hasChildAtRes({:#x}, 2^20 resolutions from {})", c.a[0], (c.a[1] << 20) as u32 as i32),
            1 => format!("{:#x}, a range of digits cleared", c.a[0]),
            _ => format!("iterator over the children of {} at resolution {}", cell_name(c.a[0]), c.a[1]),
        },
        explore,
        extra: no_extra,
    })
}
