//! C10: child positions.
use h3_rs::error::Error;
use h3_rs::h3_index::{childPosToCell, validateChildPos};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn one(h: u64, cr: i32, pos: i64, want: &Result<u64, Error>, o: &mut Obs) -> Result<(), String> {
    let got = childPosToCell(pos, h, cr);
    o.transitions += 1;
    ensure!(got == *want, "position {pos} at resolution {cr} gives {got:x?}, not {want:x?}");
    let v = validateChildPos(pos, h, cr);
    ensure!(v.is_ok() == want.is_ok(), "validateChildPos({pos}) at resolution {cr} gives {v:?}");
    Ok(())
}
/// number of descendants that many levels down, by recurrence
fn below(pent: bool, levels: i32) -> i64 {
    static T: std::sync::OnceLock<[[i64; 16]; 2]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [[1; 16]; 2];
        for l in 1..16 {
            t[0][l] = 7 * t[0][l - 1];
            t[1][l] = t[1][l - 1] + 5 * t[0][l - 1];
        }
        t
    })[pent as usize][levels as usize]
}
/// Positions at and next to the boundaries of every subtree of every level.
fn positions(h: u64, cr: i32) -> Vec<i64> {
    let n = n_children(h, cr);
    let mut v: Vec<i64> = (0..9).chain(n - 9..n).chain([n / 2, n / 3]).collect();
    for q in 0..(cr - res(h)) {
        let w = pow7(q);
        let p = 1 + 5 * (w - 1) / 6;
        for m in 0..8 {
            for d in -1..=1 {
                v.push(m * w + d);
                v.push(p + m * w + d);
                v.push(n - m * w + d);
            }
        }
        for q2 in 0..q {
            for (m, m2) in [(1, 6), (3, 1), (6, 3), (5, 5)] {
                v.push(m * w + m2 * pow7(q2));
                v.push(p + m * w - m2 * pow7(q2));
            }
        }
    }
    v.retain(|x| *x >= 0 && *x < n);
    v.sort_unstable();
    v.dedup();
    v
}
/// kind 0: every position; 1: structured positions; 2: errors; 4: all resolutions; 5: a cell below its ancestors
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let cr = c.a[1] as i64 as i32;
    match c.kind {
        0 => {
            let mut x = Some(first_child(h, cr));
            let mut pos = 0;
            while let Some(w) = x {
                one(h, cr, pos, &Ok(w), o)?;
                pos += 1;
                x = next_child(h, w, cr);
            }
        }
        1 => {
            for pos in positions(h, cr) {
                one(h, cr, pos, &Ok(nth_child(h, cr, pos)), o)?;
            }
        }
        5 => {
            // the cell's position below each of its ancestors: children of lower digits come first
            let r = res(h);
            let mut pos = 0;
            o.transitions += r as u64;
            for q in (1..=r).rev() {
                let up = parent(h, q - 1);
                for d in (0..digit(h, q)).filter(|d| *d != 1 || !is_pent_cell(up)) {
                    pos += below(is_pent_cell(up) && d == 0, r - q);
                }
                let got = childPosToCell(pos, up, r);
                ensure!(got == Ok(h), "position {pos} below the ancestor of resolution {} gives {got:x?}", q - 1);
            }
        }
        4 => {
            // a[1]: a block of 2^20 child resolutions
            let lo = ((c.a[1] << 20) as u32) as i32;
            for cr in lo..=lo + 0xfffff {
                if cr < res(h) || cr > 15 {
                    o.transitions += 1;
                    let want = if (0..=15).contains(&cr) { Error::ResMismatch } else { Error::ResDomain };
                    let got = childPosToCell(0, h, cr);
                    ensure!(got == Err(want), "position 0 at resolution {cr} gives {got:x?}");
                }
            }
        }
        _ => {
            let want = if !(0..=15).contains(&cr) {
                Error::ResDomain
            } else if cr < res(h) {
                Error::ResMismatch
            } else {
                Error::Domain
            };
            let n = if want == Error::Domain { n_children(h, cr) } else { 0 };
            o.outcome(&format!("{want:?}"));
            let want = Err(want);
            let near = (0..63).flat_map(|q| [1i64 << q, -(1i64 << q), n + (1i64 << q.min(61)), n / 2 + (1i64 << q.min(61)), n / 2 - (1i64 << q.min(61))]);
            for pos in near.chain([-1, i64::MIN, i64::MAX, n, n + 1, i64::MIN + 1, -n, n + (1 << 32)]) {
                if (0..n).contains(&pos) {
                    continue;
                }
                one(h, cr, pos, &want, o)?;
            }
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    let deep = if th { 7 } else { 5 };
    let mut jobs: Vec<(u64, i32)> = Vec::new();
    for r in 0..16 {
        for b in (0..122).filter(|b| model().is_pent[*b] || b % 30 == 0) {
            for p in [mk(r, b, &[0; 15]), mk(r, b, &[4; 15])] {
                for cr in r..=(r + deep).min(15) {
                    jobs.push((p, cr));
                }
            }
        }
    }
    jobs.sort_by_key(|j| res(j.0) - j.1);
    e.phase(&format!("32 parents per resolution x all depths up to {deep}, every position"), jobs.len() as u64, |i, cx| {
        let (p, cr) = jobs[i as usize];
        cx.obs.states += n_children(p, cr) as u64;
        cx.run(case(0, &[p, cr as u64]));
    });
    let mut long: Vec<(u64, i32)> = vec![];
    for r in 0..=8 {
        let l = if th { 9 } else { 8 };
        let l = l.min(15 - r);
        long.extend([(mk(r, 58, &[0; 15]), r + l), (mk(r, 90, &[4; 15]), r + l)]);
    }
    e.phase("two parents per resolution, 8 levels (thorough: 9), every position", long.len() as u64, |i, cx| {
        let (p, cr) = long[i as usize];
        cx.obs.states += n_children(p, cr) as u64;
        cx.run(case(0, &[p, cr as u64]));
    });
    let d = if th {
        Domain { low: 7, runs: 3, dev: 3, win: 4, pent: 12, edge: 0, max_res: 15 }
    } else {
        Domain { low: 7, runs: 3, dev: 2, win: 3, pent: 6, edge: 0, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(5, &[h])));
    e.phase("all 2^32 child resolutions", 4096, |i, cx| {
        for h in [mk(4, 20, &[3, 1, 0, 5]), mk(1, 14, &[0])] {
            cx.obs.states += 1 << 20;
            cx.run(case(4, &[h, i]));
        }
    });
    e.phase("every base cell x every resolution pair: subtree boundaries, errors", 122 * 16, |i, cx| {
        let (b, r) = ((i % 122) as usize, (i / 122) as i32);
        for p in [mk(r, b, &[0; 15]), mk(r, b, &[2; 15]), mk(r, b, &[6; 15])] {
            for cr in -3..19 {
                if cr >= r && cr <= 15 {
                    cx.obs.states += 1;
                    cx.run(case(1, &[p, cr as u64]));
                }
                cx.run(case(2, &[p, cr as i64 as u64]));
            }
            for cr in [i32::MIN, i32::MAX, 255, 256] {
                cx.run(case(2, &[p, cr as i64 as u64]));
            }
        }
    });
    let d = if th {
        Domain { low: 5, runs: 3, dev: 1, win: 3, pent: 6, edge: 0, max_res: 15 }
    } else {
        Domain { low: 3, runs: 2, dev: 1, win: 1, pent: 2, edge: 0, max_res: 15 }
    };
    d.explore(e, |h, cx| {
        let r = res(h);
        cx.run(case(0, &[h, (r + 2).min(15) as u64]));
        cx.run(case(2, &[h, (r + 2).min(15) as u64]));
        if r < 13 {
            cx.run(case(1, &[h, 15]));
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C10",
        rule: "states: (parent, child resolution) pairs of the model; transitions: (position) lookups compared with the model's ranked enumeration - every position where the enumeration is short, all subtree boundaries of every level (and one beside them) where it is long - and error verdicts",
        assumptions: &["in long enumerations the positions are the subtree boundaries of every level and sums of two of them"],
        check,
        describe: |c| match c.kind {
            0 => format!("childPosToCell(every position, {}, {})", cell_name(c.a[0]), c.a[1]),
            1 => format!("childPosToCell(subtree boundaries, {}, {})", cell_name(c.a[0]), c.a[1]),
            5 => format!("childPosToCell(position of {}, every ancestor)", cell_name(c.a[0])),
            4 => format!("childPosToCell(0, {}, 2^20 resolutions from {})", cell_name(c.a[0]), (c.a[1] << 20) as u32 as i32),
            _ => format!("childPosToCell(positions out of range, {}, {})", cell_name(c.a[0]), c.a[1] as i64),
        },
        explore,
        extra: no_extra,
    })
}
