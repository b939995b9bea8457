//! C07: how many cells and pentagons there are.
use h3_rs::algos::h3NeighborRotations;
use h3_rs::base_cells::{getRes0Cells, res0CellCount};
use h3_rs::h3_index::{cellToChildrenSize, getResolution, isPentagon, isValidCell};
use h3_rs::iterators::IterCellsChildren;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn total(r: i32) -> i64 {
    2 + 120 * pow7(r)
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    match c.kind {
        0 => {
            let h = c.a[0];
            let p = isPentagon(h);
            ensure!(p == is_pent_cell(h), "isPentagon gives {p}");
            ensure!(getResolution(h) == res(h), "getResolution gives {}", getResolution(h));
            let mut seen = [0u64; 6];
            let mut n = 0;
            for d in 1..=6 {
                let mut rot = 0;
                if let Ok(x) = h3NeighborRotations(h, dir!(d), &mut rot) {
                    if !seen[..n].contains(&x) {
                        seen[n] = x;
                        n += 1;
                    }
                }
            }
            o.transitions += 3;
            ensure!(n == if p { 5 } else { 6 }, "it is {}a pentagon and has {n} distinct neighbors", if p { "" } else { "not " });
        }
        1 => {
            let v = getRes0Cells().map_err(|e| format!("{e:?}"))?;
            ensure!(v.len() == 122 && res0CellCount() == 122, "{} listed, {} counted", v.len(), res0CellCount());
            for b in 0..122 {
                o.transitions += 1;
                let h = mk(0, b, &[]);
                ensure!(v.iter().filter(|x| **x == h).count() == 1, "base cell {b} is listed {} times", v.iter().filter(|x| **x == h).count());
            }
            let pents = v.iter().filter(|h| isPentagon(**h)).count();
            ensure!(pents == 12, "{pents} of them are pentagons");
        }
        2 => {
            // every digit string of length r under one base cell: accepted ones and pentagons
            let (r, b) = (c.a[0] as i32, c.a[1] as usize);
            let (mut n, mut p, mut it) = (0i64, 0, 0i64);
            for code in 0..(1u64 << (3 * r)) {
                let h = mk(r, b, &[0; 15]) | (code << (45 - 3 * r));
                if isValidCell(h) {
                    n += 1;
                    p += isPentagon(h) as i32;
                }
            }
            o.transitions += 1 << (3 * r);
            let base = mk(0, b, &[]);
            let want = n_children(base, r);
            ensure!(n == want, "{n} digit strings of length {r} are valid, not {want}");
            ensure!(p == model().is_pent[b] as i32, "{p} of the cells are pentagons");
            for h in IterCellsChildren::from_parent(base, r) {
                it += 1;
                ensure!(isValidCell(h), "the enumeration gives {h:x}, which is not valid");
            }
            o.transitions += it as u64;
            ensure!(it == want, "the enumeration gives {it} cells, not {want}");
        }
        _ => {
            let r = c.a[0] as i32;
            let mut n = 0;
            for h in getRes0Cells().map_err(|e| format!("{e:?}"))? {
                n += cellToChildrenSize(h, r).map_err(|e| format!("{e:?}"))?;
                o.transitions += 1;
            }
            ensure!(n == total(r), "the child counts of the base cells add up to {n}, not {}", total(r));
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    e.phase("base cell list", 1, |_, cx| cx.run(case(1, &[])));
    e.phase("child counts of the base cells add up, 16 resolutions", 16, |i, cx| cx.run(case(3, &[i])));
    let deep = if e.thorough { 8 } else { 6 };
    e.phase(&format!("every digit string up to length {deep} x base cell"), 122 * (deep + 1), |i, cx| {
        cx.obs.states += 1 << (3 * (i / 122));
        cx.run(case(2, &[i / 122, i % 122]))
    });
    let d = if e.thorough {
        Domain { low: 8, runs: 4, dev: 3, win: 5, pent: 20, edge: 100, max_res: 15 }
    } else {
        Domain { low: 7, runs: 3, dev: 3, win: 3, pent: 12, edge: 40, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(0, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C07",
        rule: "states: every digit string up to a length under every base cell (accepted or not), and distinct valid cells of the model's state space; counts of accepted strings, of enumerated cells, of pentagons and of distinct neighbors are compared with the model's",
        assumptions: &["totals above the exhaustively scanned resolutions use the implementation's child counts, which C09 compares with the model"],
        check,
        describe: |c| match c.kind {
            0 => format!("isPentagon, getResolution and neighbors of {}", cell_name(c.a[0])),
            1 => "getRes0Cells()".to_string(),
            2 => format!("all digit strings of length {} under base cell {}", c.a[0], c.a[1]),
            _ => format!("sum of cellToChildrenSize(base cell, {})", c.a[0]),
        },
        explore,
        extra: no_extra,
    })
}
