//! C05: equivalent spellings of a point encode to the same cell.
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::points::*;
use h3mc::*;
use std::f64::consts::{FRAC_PI_2, PI};

const TURNS: [i64; 13] = [0, 1, -1, 2, -2, 3, -5, 10, -17, 100, 1000, -1001, 65536];

/// Every turn count to 32, powers of two and of ten and their neighbors.
fn many_turns() -> Vec<i64> {
    let mut v: Vec<i64> = (0..=32).collect();
    for k in 6..=34 {
        v.extend([(1i64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for k in 2..=10 {
        v.push(10i64.pow(k));
    }
    let n: Vec<i64> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (lat, lng) = (f64::from_bits(c.a[0]), f64::from_bits(c.a[1]));
    // (spelled latitude, spelled longitude)
    let mut sp: Vec<(f64, f64)> = Vec::new();
    if c.kind == 1 {
        for n in many_turns() {
            let t = 2.0 * PI * n as f64;
            for (i, u) in [0.0, 2.0 * PI, -2.0 * PI, t, -t].into_iter().enumerate() {
                sp.push((lat + u, lng + t));
                if i == 0 || u == t {
                    sp.push((lat + t, lng + u));
                }
                sp.push((PI - lat + u, lng + PI + t));
                sp.push((-PI - lat + t, lng - PI + u));
            }
        }
    }
    for n in if c.kind == 1 { &[][..] } else { &TURNS } {
        let n = *n;
        let t = 2.0 * PI * n as f64;
        sp.push((lat, lng + t));
        sp.push((PI - lat, lng + PI + t));
        sp.push((-PI - lat, lng - PI + t));
        if n.abs() <= 1000 {
            sp.push((lat + t, lng));
            sp.push((lat, lng + t));
        }
    }
    for z in [lat, -lat] {
        if z == 0.0 {
            sp.push((z, lng));
            sp.push((z, lng + 2.0 * PI));
        }
    }
    if lng == 0.0 {
        sp.push((lat, -lng));
    }
    if lat.abs() == FRAC_PI_2 {
        for i in 0..24 {
            sp.push((lat, i as f64 * PI / 12.0 - PI));
        }
    }
    let v = ll_to_v(lat, lng);
    for r in 0..16 {
        let base = err_units(v, r);
        let per_rad = base / err_rad(v);
        // candidates by the exponent of the rounding error
        let mut memo: Vec<(i32, Vec<u64>)> = Vec::new();
        for (a, b) in &sp {
            // the spelling itself is rounded: error of the sum plus of the turn's multiple of pi
            let slack = (a.abs() + b.abs()) * 4e-16;
            let step = slack.max(1e-16).log2().ceil() as i32;
            let k = match memo.iter().position(|m| m.0 == step) {
                Some(k) => k,
                None => {
                    memo.push((step, model().containing(v, r, base + 2f64.powi(step) * per_rad)));
                    memo.len() - 1
                }
            };
            let want = &memo[k].1;
            if want.len() != 1 {
                o.ambiguous += 1;
                continue;
            }
            o.transitions += 1;
            let got = latLngToCell(&LatLng { lat: *a, lng: *b }, r);
            ensure!(got == Ok(want[0]), "spelled ({a:e}, {b:e}) at resolution {r} it encodes to {got:x?}, not to {:x}", want[0]);
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    let mut pts = lattice(if th { 360 } else { 45 }, if th { 720 } else { 90 });
    pts.extend(special_points(if th { 200 } else { 12 }, if th { 48 } else { 8 }));
    pts.extend(meridian_points(if th { 900 } else { 45 }));
    pts.extend(written_points(if th { 20 } else { 2 }, th));
    e.phase("sphere points x spellings x resolutions", pts.len() as u64, |i, cx| {
        cx.obs.states += 1;
        let (a, b) = pts[i as usize];
        cx.run(case(0, &[a.to_bits(), b.to_bits()]));
    });
    let mut pts = lattice(if th { 60 } else { 12 }, if th { 120 } else { 24 });
    pts.extend(special_points(if th { 12 } else { 1 }, if th { 6 } else { 1 }));
    pts.extend(meridian_points(if th { 90 } else { 5 }));
    e.phase("sphere points x many turns of both coordinates x resolutions", pts.len() as u64, |i, cx| {
        cx.obs.states += 1;
        let (a, b) = pts[i as usize];
        cx.run(case(1, &[a.to_bits(), b.to_bits()]));
    });
}
fn main() {
    engine::main(Spec {
        id: "C05",
        rule: "states: points of the sphere; transitions: (equivalent spelling, resolution) encodings compared with the one cell of the model that contains the point",
        assumptions: &["points closer to a boundary than the rounding error of the spelling are skipped (ambiguous_skipped)"],
        check,
        describe: |c| format!("spellings of ({:e}, {:e})", f64::from_bits(c.a[0]), f64::from_bits(c.a[1])),
        explore,
        extra: no_extra,
    })
}
