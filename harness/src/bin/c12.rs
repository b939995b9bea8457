//! C12: the neighbors of a cell are the cells that share an edge with it.
use h3_rs::algos::h3NeighborRotations;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let m = model();
    let truth = m.neighbors(h);
    let pent = is_pent_cell(h);
    let r = res(h);
    let mut got: Vec<u64> = Vec::with_capacity(6);
    for d in 1..=6usize {
        let mut rot = 0;
        let x = h3NeighborRotations(h, dir!(d), &mut rot);
        o.transitions += 1;
        match (x, pent && d == 1) {
            (Ok(x), true) => ensure!(truth.contains(&x), "direction 1 of a pentagon leads to {x:x}, which is no neighbor"),
            (Err(_), true) => {}
            (Ok(x), false) => {
                let want = truth[if pent { d - 2 } else { d - 1 }];
                ensure!(x == want, "direction {d} leads to {x:x}, the cell across that edge is {want:x}");
                if got.contains(&x) || x == h {
                    return Err(format!("direction {d} leads to {x:x} again"));
                }
                got.push(x);
                // which carry the move makes: (class of the resolution, place from the end, digit, direction)
                for q in 0..r {
                    let dg = digit(h, r - q);
                    o.mark((((q as usize * 2 + ((r - q) & 1) as usize) * 7 + dg) * 7) + d);
                    if digit(x, r - q - 1) == digit(h, r - q - 1) || q + 1 >= r {
                        break;
                    }
                }
            }
            (Err(e), false) => return Err(format!("direction {d}: {e:?}")),
        }
    }
    ensure!(got.len() == truth.len(), "{} neighbors instead of {}", got.len(), truth.len());
    if c.kind == 1 {
        // symmetry, on the implementation alone
        for x in got {
            let mut back = false;
            for d in 1..=6usize {
                let mut rot = 0;
                o.transitions += 1;
                if let Ok(y) = h3NeighborRotations(x, dir!(d), &mut rot) {
                    back |= y == h;
                }
            }
            ensure!(back, "it has the neighbor {x:x}, which does not have it as a neighbor");
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let (d, sym) = if e.thorough {
        (Domain { low: 7, runs: 4, dev: 3, win: 5, pent: 24, edge: 200, max_res: 15 }, 6)
    } else {
        (Domain { low: 6, runs: 3, dev: 3, win: 3, pent: 12, edge: 60, max_res: 15 }, 4)
    };
    d.explore(e, |h, cx| cx.run(case((res(h) <= sym) as u32, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C12",
        rule: "states: distinct valid cells of the model's state space; transitions: (cell, direction) moves of the implementation compared with the cell across that edge on the model's unfolded icosahedron; for the low resolutions also the way back",
        assumptions: &["a pentagon's direction 1 may either be refused or lead to a true neighbor", "resolutions above the exhaustive ones are covered by the families named in the phases"],
        check,
        describe: |c| format!("h3NeighborRotations({}, d, 0) for d = 1..6{}", cell_name(c.a[0]), if c.kind == 1 { " and back" } else { "" }),
        explore,
        extra: |o| {
            let n: u32 = o.cover.iter().map(|w| w.count_ones()).sum();
            vec![("digit_carry_transitions_covered".to_string(), n.to_string())]
        },
    })
}
