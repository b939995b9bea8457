//! C01: the center of a cell, encoded at the cell's resolution, is the cell.
use h3_rs::h3_index::{cellToLatLng, latLngToCell};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let g = cellToLatLng(h).map_err(|e| format!("cellToLatLng: {e:?}"))?;
    o.transitions += 1;
    let back = latLngToCell(&g, res(h));
    ensure!(back == Ok(h), "center ({:e}, {:e}) encodes to {:x?}, not to {h:x}", g.lat, g.lng, back);
    Ok(())
}
fn explore(e: &mut Engine) {
    let d = if e.thorough {
        Domain { low: 8, runs: 4, dev: 3, win: 5, pent: 24, edge: 200, max_res: 15 }
    } else {
        Domain { low: 7, runs: 3, dev: 3, win: 3, pent: 12, edge: 60, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(0, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C01",
        rule: "states: distinct valid cells, generated from the model's state space (all cells up to a resolution, deviation-bounded digit paths, pentagon, face-edge, pole and antimeridian neighborhoods above it); each trace decodes the cell and encodes the result with the implementation",
        assumptions: &["resolutions above the exhaustive ones are covered by the families named in the phases"],
        check,
        describe: |c| format!("latLngToCell(cellToLatLng({}), {})", cell_name(c.a[0]), res(c.a[0])),
        explore,
        extra: no_extra,
    })
}
