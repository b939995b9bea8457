//! C11: the hierarchy of cells agrees with the encoding of points.
use h3_rs::h3_index::{cellToChildren, cellToLatLng, latLngToCell};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn tol(lat: f64) -> f64 {
    (4e-12 + 8e-16 / lat.cos().abs().max(1e-9)).min(2e-7)
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let r = res(h);
    let g = cellToLatLng(h).map_err(|e| format!("cellToLatLng: {e:?}"))?;
    match c.kind {
        0 => {
            // center descendants
            let v = ll_to_v(g.lat, g.lng);
            let mut x = h;
            for q in r + 1..=15 {
                x = set_digit((x & !(15u64 << 52)) | ((q as u64) << 52), q, 0);
                let got = latLngToCell(&g, q);
                ensure!(got == Ok(x), "its center encoded at resolution {q} gives {got:x?}, not the center descendant {x:x}");
                let cg = cellToLatLng(x).map_err(|e| format!("cellToLatLng({x:x}): {e:?}"))?;
                let d = ang(v, ll_to_v(cg.lat, cg.lng));
                ensure!(d <= tol(g.lat), "its center descendant {x:x} has a center {d:e} rad away");
                o.transitions += 2;
            }
        }
        _ => {
            let ch = cellToChildren(h, r + 1).map_err(|e| format!("cellToChildren: {e:?}"))?;
            ensure!(ch.len() as i64 == n_children(h, r + 1), "{} immediate children", ch.len());
            for x in ch {
                let cg = cellToLatLng(x).map_err(|e| format!("cellToLatLng({x:x}): {e:?}"))?;
                let got = latLngToCell(&cg, r);
                ensure!(got == Ok(h), "the center of its child {x:x} encoded at resolution {r} gives {got:x?}");
                o.transitions += 1;
            }
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let d = if e.thorough {
        Domain { low: 7, runs: 4, dev: 2, win: 4, pent: 20, edge: 120, max_res: 15 }
    } else {
        Domain { low: 5, runs: 3, dev: 1, win: 3, pent: 8, edge: 30, max_res: 15 }
    };
    d.explore(e, |h, cx| {
        if res(h) < 15 {
            cx.run(case(0, &[h]));
            cx.run(case(1, &[h]));
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C11",
        rule: "states: distinct valid cells of the model's state space below resolution 15; traces: (cell, all finer resolutions: center descendant and its center) and (cell, all immediate children back to the cell); transitions: parent/child relations compared",
        assumptions: &["resolutions above the exhaustive ones are covered by the families named in the phases"],
        check,
        describe: |c| match c.kind {
            0 => format!("center of {} encoded at every finer resolution", cell_name(c.a[0])),
            _ => format!("centers of the children of {} encoded at its own resolution", cell_name(c.a[0])),
        },
        explore,
        extra: no_extra,
    })
}
