//! C17: directed edges stand for ordered pairs of neighbors.
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let m = model();
    if c.kind == 1 {
        // not in directed-edge mode
        for mode in (0..16).filter(|x| *x != 2) {
            for rs in 0..8u64 {
                let x = (h & !(127u64 << 56)) | (mode << 59) | (rs << 56);
                let (a, b, d) = (getDirectedEdgeOrigin(x), getDirectedEdgeDestination(x), directedEdgeToCells(x));
                o.transitions += 3;
                ensure!(
                    a == Err(Error::DirectedEdgeInvalid) && b == Err(Error::DirectedEdgeInvalid) && d == Err(Error::DirectedEdgeInvalid),
                    "{x:x} is not in directed-edge mode, but decomposes into {a:x?}, {b:x?}, {d:x?}"
                );
            }
        }
        return Ok(());
    }
    if c.kind == 2 {
        for x in h3mc::domain::near_misses(h) {
            let e = cellsToDirectedEdge(h, x);
            o.transitions += 1;
            if valid_cell(x) {
                ensure!(e == Err(Error::NotNeighbors), "an edge to {x:x}, which is no neighbor, gives {e:x?}");
            } else {
                ensure!(e.is_err(), "an edge to {x:x}, which is no cell, gives {e:x?}");
            }
        }
        return Ok(());
    }
    let pent = is_pent_cell(h);
    let nb = m.neighbors(h);
    let list = originToDirectedEdges(h);
    for (i, x) in nb.iter().enumerate() {
        let d = if pent { i + 2 } else { i + 1 };
        let e = cellsToDirectedEdge(h, *x).map_err(|e| format!("edge to its neighbor {x:x}: {e:?}"))?;
        ensure!(e == mk_edge(h, d), "the edge to its neighbor {x:x} is {e:x}, not {:x}", mk_edge(h, d));
        ensure!(getDirectedEdgeOrigin(e) == Ok(h), "the origin of {e:x} is {:x?}", getDirectedEdgeOrigin(e));
        let t = getDirectedEdgeDestination(e);
        ensure!(t == Ok(*x), "the destination of {e:x} is {t:x?}, not {x:x}");
        let p = directedEdgeToCells(e);
        ensure!(p == Ok((h, *x)), "the cells of {e:x} are {p:x?}");
        ensure!(list[d - 1] == e, "entry {} of the edge list is {:x}, not {e:x}", d - 1, list[d - 1]);
        o.transitions += 5;
    }
    let mut others: Vec<u64> = vec![h];
    for x in &nb {
        for y in m.neighbors(*x) {
            if y != h && !nb.contains(&y) && !others.contains(&y) {
                others.push(y);
            }
        }
    }
    let r = res(h);
    if r > 0 {
        others.push(parent(h, r - 1));
        others.push(parent(nb[0], r - 1));
    }
    if r < 15 {
        others.push(first_child(h, r + 1));
        others.push(first_child(nb[0], r + 1));
    }
    for x in others {
        let e = cellsToDirectedEdge(h, x);
        o.transitions += 1;
        ensure!(e == Err(Error::NotNeighbors), "an edge to {x:x}, which is no neighbor, gives {e:x?}");
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let d = if e.thorough {
        Domain { low: 6, runs: 3, dev: 2, win: 4, pent: 12, edge: 120, max_res: 15 }
    } else {
        Domain { low: 5, runs: 3, dev: 1, win: 2, pent: 8, edge: 30, max_res: 15 }
    };
    d.explore(e, |h, cx| {
        cx.run(case(0, &[h]));
        if h % 16 == 15 || res(h) < 3 || res(h) == 15 && digit(h, 15) == 3 {
            cx.run(case(1, &[h]));
        }
    });
    let thin = h3mc::domain::thin_cells(e.thorough);
    e.phase("edges to values one bit, digit or base cell away from a neighbor", thin.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(2, &[thin[i as usize]]));
    });
}
fn main() {
    engine::main(Spec {
        id: "C17",
        rule: "states: distinct valid origin cells; transitions: edge constructions and decompositions for every neighbor of the model, rejected constructions for every cell two steps away and for cells of other resolutions, and rejected decompositions in the fifteen other modes",
        assumptions: &["resolutions above the exhaustive ones are covered by the families named in the phases"],
        check,
        describe: |c| if c.kind == 2 { format!("edges from {} to values like its neighbors", cell_name(c.a[0])) } else if c.kind == 0 { format!("edges between {} and the cells within two steps", cell_name(c.a[0])) } else { format!("decomposing {} in every other mode", cell_name(c.a[0])) },
        explore,
        extra: no_extra,
    })
}
