//! C03: a point is encoded to the cell that contains it.
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::points::*;
use h3mc::*;

/// How far out, as a fraction of the way to the boundary of the cell.
const FRAC: [(i64, i64); 6] =
    [(999_999_999_999, 1_000_000_000_000), (9_999_999_999, 10_000_000_000), (99_999_999, 100_000_000), (999_999, 1_000_000), (999, 1000), (1, 2)];

fn probe(h: u64, w: E, half: bool, sector: usize, o: &mut Obs) -> Result<(), String> {
    let m = model();
    let r = res(h);
    for (num, den) in FRAC.iter() {
        // the model's exact arithmetic must not overflow
        if *den as f64 * 7f64.powi((r + 1) / 2) > 6e13 {
            continue;
        }
        // edge midpoints are at w/2, corners at w/3
        let (f, x, y) = m.offset_point(h, w, *num, den * if half { 2 } else { 3 }, sector);
        let v = m.plane_to_v(f, x, y);
        let margin = 0.5 * (1.0 - *num as f64 / *den as f64);
        if err_units(v, r) > margin {
            continue;
        }
        let (lat, lng) = v_to_ll(v);
        o.transitions += 1;
        let got = latLngToCell(&LatLng { lat, lng }, r);
        ensure!(
            got == Ok(h),
            "the point ({lat:e}, {lng:e}) lies inside the cell ({num}/{den} of the way to a {}), but encodes to {got:x?}",
            if half { "side" } else { "corner" }
        );
        return Ok(());
    }
    o.ambiguous += 1;
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    if c.kind == 0 {
        let h = c.a[0];
        if is_pent_cell(h) {
            for s in SECTOR_DIGIT {
                probe(h, UNIT[s], true, s, o)?;
                for n in [1, -1] {
                    probe(h, UNIT[s] + UNIT[s].rot(n), false, s, o)?;
                }
            }
        } else {
            for d in 1..=6 {
                probe(h, UNIT[d], true, 0, o)?;
                probe(h, UNIT[d] + UNIT[d].rot(1), false, 0, o)?;
            }
        }
        return Ok(());
    }
    let (lat, lng) = (f64::from_bits(c.a[0]), f64::from_bits(c.a[1]));
    let v = ll_to_v(lat, lng);
    for r in 0..16 {
        let want = model().containing(v, r, err_units(v, r));
        let got = latLngToCell(&LatLng { lat, lng }, r).map_err(|e| format!("resolution {r}: {e:?}"))?;
        o.transitions += 1;
        if want.len() > 1 {
            o.ambiguous += 1;
        }
        ensure!(want.contains(&got), "at resolution {r} it encodes to {got:x}, but lies in {want:x?}");
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    let mut pts = lattice(if th { 720 } else { 120 }, if th { 1440 } else { 240 });
    pts.extend(special_points(if th { 1000 } else { 100 }, if th { 360 } else { 48 }));
    pts.extend(meridian_points(if th { 1800 } else { 180 }));
    pts.extend(written_points(if th { 100 } else { 10 }, true));
    e.phase("sphere points x 16 resolutions", pts.len() as u64, |i, cx| {
        cx.obs.states += 1;
        let (a, b) = pts[i as usize];
        cx.run(case(1, &[a.to_bits(), b.to_bits()]));
    });
    let d = if th {
        Domain { low: 6, runs: 3, dev: 2, win: 4, pent: 20, edge: 200, max_res: 15 }
    } else {
        Domain { low: 5, runs: 3, dev: 2, win: 3, pent: 10, edge: 60, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(0, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C03",
        rule: "states: sphere points of the stated lattices, and cells of the model's state space, each probed at 12 (pentagon: 15) points just inside its corners and sides; transitions: encodings compared with the cell whose exact lattice hexagon contains the point",
        assumptions: &["a point closer to a cell boundary than the stated rounding-error bound may belong to either cell (counted in ambiguous_skipped)"],
        check,
        describe: |c| match c.kind {
            0 => format!("points inside the corners and sides of {}", cell_name(c.a[0])),
            _ => format!("latLngToCell(({:e}, {:e}), 0..15)", f64::from_bits(c.a[0]), f64::from_bits(c.a[1])),
        },
        explore,
        extra: no_extra,
    })
}
