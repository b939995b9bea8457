//! C02: finite coordinates encode to valid cells, everything else to the right error.
use h3_rs::error::Error;
use h3_rs::h3_index::latLngToCell;
use h3_rs::lat_lng::LatLng;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;
use std::f64::consts::PI;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let g = LatLng { lat: f64::from_bits(c.a[0]), lng: f64::from_bits(c.a[1]) };
    if c.kind == 1 {
        // a[2]: a block of 2^20 resolutions
        let lo = ((c.a[2] << 20) as u32) as i32;
        for r in lo..=lo + 0xfffff {
            if !(0..=15).contains(&r) {
                o.transitions += 1;
                let got = latLngToCell(&g, r);
                ensure!(got == Err(Error::ResDomain), "resolution {r}: {got:x?} instead of ResDomain");
            }
        }
        return Ok(());
    }
    let r = c.a[2] as u32 as i32;
    let got = latLngToCell(&g, r);
    o.transitions += 1;
    if !(0..=15).contains(&r) {
        o.outcome("resolution error");
        ensure!(got == Err(Error::ResDomain), "resolution {r}: {got:x?} instead of ResDomain");
    } else if !g.lat.is_finite() || !g.lng.is_finite() {
        o.outcome("coordinate error");
        ensure!(got == Err(Error::LatLngDomain), "{got:x?} instead of LatLngDomain");
    } else {
        o.outcome("cell");
        match got {
            Ok(h) => {
                ensure!(valid_cell(h), "{h:x} is not a valid cell");
                ensure!(res(h) == r, "{h:x} has resolution {}", res(h));
            }
            Err(e) => return Err(format!("finite coordinates give {e:?}")),
        }
    }
    Ok(())
}

/// Distinguished coordinate values: the boundaries of the f64 format, of the
/// angles used by the geometry, and of the integer conversions behind them.
fn values(thorough: bool) -> Vec<f64> {
    let mut v = vec![
        f64::NAN, -f64::NAN, f64::from_bits(0x7ff0000000000001), f64::INFINITY, 0.0, 5e-324, 2.2e-308, f64::MIN_POSITIVE,
        f64::EPSILON, 1e-300, 1e-17, 1e-16, 2e-16, 1e-15, 1e-12, 1e-9, 1e-6, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 7.0, 45.0, 89.0, 90.0, 180.0,
        360.0, 1e3, 1e5, 2147483647.0, 2147483648.0, 4294967296.0, 1e9, 1e15, 9007199254740991.0, 9007199254740993.0,
        9.223372036854775807e18, 1.8446744073709552e19, 1e20, 1e39, 1e45, 1e100, 1e200, 1e307, 1e308, f64::MAX, f64::MAX / 2.0,
    ];
    let den = if thorough { 48 } else { 12 };
    for i in 1..=2 * den {
        let x = PI * i as f64 / den as f64;
        v.push(x);
        v.push(f64::from_bits(x.to_bits() + 1));
        v.push(f64::from_bits(x.to_bits() - 1));
    }
    for f in 0..20 {
        let (la, ln) = v_to_ll(model().n[f]);
        v.push(la.abs());
        v.push(ln.abs());
    }
    let n: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(n);
    v
}
fn explore(e: &mut Engine) {
    let v = values(e.thorough);
    let rs: Vec<i32> = (0..16).chain([-1, 16, 17, 31, 32, 64, 255, 256, -16, i32::MIN, i32::MAX, i32::MIN + 15, -2147483640]).collect();
    e.phase("all 2^32 resolutions", 4096, |i, cx| {
        cx.obs.states += 2 << 20;
        cx.run(case(1, &[0.6f64.to_bits(), (-1.2f64).to_bits(), i]));
        cx.run(case(1, &[f64::NAN.to_bits(), 0, i]));
    });
    let n = v.len() as u64;
    e.phase("distinguished values x distinguished values x resolutions", n * n, |i, cx| {
        let (a, b) = (v[(i / n) as usize], v[(i % n) as usize]);
        for r in &rs {
            cx.obs.states += 1;
            cx.run(case(0, &[a.to_bits(), b.to_bits(), *r as u32 as u64]));
        }
    });
    // every exponent and sign of the f64 format, for either coordinate
    let mants: &[u64] = if e.thorough {
        &[0, 1, 2, 0xffffffff, 0x100000000, 0x8000000000000, 0xffffffffffffe, 0xfffffffffffff, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x921fb54442d18, 0x123456789abcd, 0xfffff00000000, 0x921fb54442d17, 0x921fb54442d19, 0x0c152382d7365]
    } else {
        &[0, 1, 0x8000000000000, 0xfffffffffffff, 0x5555555555555, 0x921fb54442d18, 0x0c152382d7365]
    };
    let others: Vec<f64> = if e.thorough { v.iter().copied().step_by(4).collect() } else { v.iter().copied().step_by(8).collect() };
    e.phase("every exponent and sign x mantissas x other values", 4096, |i, cx| {
        for m in mants {
            let a = (i << 52) | m;
            for b in others.iter() {
                for r in 0..16 {
                    cx.obs.states += 2;
                    cx.run(case(0, &[a, b.to_bits(), r]));
                    cx.run(case(0, &[b.to_bits(), a, r]));
                }
            }
        }
    });
    let den: i64 = if e.thorough { 720 } else { 180 };
    e.phase("latitude/longitude lattice over several turns", (4 * den + 1) as u64, |i, cx| {
        let la = PI * (i as i64 - 2 * den) as f64 / den as f64;
        for j in -4 * den..=4 * den {
            let ln = PI * j as f64 / den as f64;
            for r in 0..16 {
                cx.obs.states += 1;
                cx.run(case(0, &[la.to_bits(), ln.to_bits(), r]));
            }
        }
    });
    let pts = h3mc::points::special_points(if e.thorough { 200 } else { 100 }, if e.thorough { 48 } else { 24 });
    e.phase("points next to face centers, edges, vertices, poles", pts.len() as u64, |i, cx| {
        let (la, ln) = pts[i as usize];
        for r in 0..16 {
            cx.obs.states += 1;
            cx.run(case(0, &[la.to_bits(), ln.to_bits(), r]));
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C02",
        rule: "states: (latitude, longitude, resolution) triples of the stated finite sets, covering every exponent and sign of both coordinates and the boundaries of the format; the result is compared with the specification of a valid index (model) or the exact error",
        assumptions: &["the mantissas and value pairs are the stated ones, not all 2^128"],
        check,
        describe: |c| if c.kind == 1 { format!("latLngToCell(({:e}, {:e}), 2^20 resolutions from {})", f64::from_bits(c.a[0]), f64::from_bits(c.a[1]), (c.a[2] << 20) as u32 as i32) } else { format!("latLngToCell(({:e}, {:e}), {})", f64::from_bits(c.a[0]), f64::from_bits(c.a[1]), c.a[2] as u32 as i32) },
        explore,
        extra: no_extra,
    })
}
