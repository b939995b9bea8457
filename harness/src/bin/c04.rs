//! C04: the reported center of a cell is where the grid definition puts it.
use h3_rs::h3_index::cellToLatLng;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;
use std::f64::consts::{FRAC_PI_2, PI};

/// Accuracy kept by the floating-point path (errors are at most 1.5e-15).
const TOL: f64 = 2e-14;
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let g = cellToLatLng(h).map_err(|e| format!("cellToLatLng: {e:?}"))?;
    ensure!(g.lat.abs() <= FRAC_PI_2 && g.lng.abs() <= PI, "center ({:e}, {:e}) is out of range", g.lat, g.lng);
    let want = model().center(h);
    let d = ang(want, ll_to_v(g.lat, g.lng));
    o.transitions += 1;
    ensure!(d <= TOL, "center ({:e}, {:e}) is {d:e} rad away from the center of the grid definition {:?}", g.lat, g.lng, v_to_ll(want));
    Ok(())
}
fn explore(e: &mut Engine) {
    let d = if e.thorough {
        Domain { low: 8, runs: 4, dev: 3, win: 5, pent: 24, edge: 200, max_res: 15 }
    } else {
        Domain { low: 7, runs: 3, dev: 3, win: 3, pent: 12, edge: 60, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(0, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C04",
        rule: "states: distinct valid cells of the model's state space; for each the exact lattice position on the unfolded icosahedron is projected to the sphere and compared with the implementation's center (angular error at most 2e-14 rad, 0.1 micrometers)",
        assumptions: &["resolutions above the exhaustive ones are covered by the families named in the phases"],
        check,
        describe: |c| format!("cellToLatLng({})", cell_name(c.a[0])),
        explore,
        extra: no_extra,
    })
}
