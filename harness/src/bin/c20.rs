//! C20: spherical helpers.
use h3_rs::lat_lng::*;
use h3_rs::vec2d::{Vec2d, _v2dMag};
use h3_rs::vec3d::{Vec3d, _geoToVec3d, _pointSquareDist};
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;
use std::f64::consts::{FRAC_PI_2, PI, TAU};

fn f(x: u64) -> f64 {
    f64::from_bits(x)
}
/// distance of two angles modulo a turn
fn turn_diff(a: f64, b: f64, turn: f64) -> f64 {
    let d = (a - b) % turn;
    d.abs().min(turn - d.abs())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    o.transitions += 1;
    match c.kind {
        0 => {
            // travel from (a0, a1) along azimuth a2 for distance a3
            let (lat, lng, az, d) = (f(c.a[0]), f(c.a[1]), f(c.a[2]), f(c.a[3]));
            let p = LatLng { lat, lng };
            let q = _geoAzDistanceRads(&p, az, d);
            let v = ll_to_v(lat, lng);
            let north = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
            let east = [-lng.sin(), lng.cos(), 0.0];
            let mut w = [0.0; 3];
            for i in 0..3 {
                w[i] = d.cos() * v[i] + d.sin() * (az.cos() * north[i] + az.sin() * east[i]);
            }
            let w = unit(w);
            // the longitude is found from a quotient by the cosine of the starting latitude
            let tol = 1e-14 + 2e-15 / lat.cos().abs();
            let e = ang(w, ll_to_v(q.lat, q.lng));
            ensure!(e <= tol, "leads to ({:e}, {:e}), {e:e} rad away from the great-circle point {:?}", q.lat, q.lng, v_to_ll(w));
            ensure!(d < 1e-16 || q.lng.abs() <= PI, "leads to longitude {:e}", q.lng);
        }
        1 => {
            let p = LatLng { lat: f(c.a[0]), lng: f(c.a[1]) };
            let q = LatLng { lat: f(c.a[2]), lng: f(c.a[3]) };
            let w = ll_to_v(q.lat, q.lng);
            let north = [-p.lat.sin() * p.lng.cos(), -p.lat.sin() * p.lng.sin(), p.lat.cos()];
            let east = [-p.lng.sin(), p.lng.cos(), 0.0];
            let (x, y) = (dot(w, north), dot(w, east));
            let t = x.hypot(y);
            let az = _geoAzimuthRads(&p, &q);
            ensure!(az.abs() <= PI, "azimuth {az:e}");
            if t < 1e-9 {
                o.ambiguous += 1;
            } else {
                let e = turn_diff(az, y.atan2(x), TAU);
                // the difference of the longitudes is rounded before its sine is taken
                let dl = 2.5e-16 * (p.lng.abs() + q.lng.abs());
                ensure!(e <= 4e-15 + (2e-15 + dl) / t, "azimuth {az:e} instead of {:e}", y.atan2(x));
            }
            // the two vectors
            let (mut a, mut b) = (Vec3d { x: 9.0, y: 9.0, z: 9.0 }, Vec3d { x: 9.0, y: 9.0, z: 9.0 });
            _geoToVec3d(&p, &mut a);
            _geoToVec3d(&q, &mut b);
            let v = ll_to_v(p.lat, p.lng);
            let e = (a.x - v[0]).abs().max((a.y - v[1]).abs()).max((a.z - v[2]).abs());
            ensure!(e <= 1e-15, "the vector of ({:e}, {:e}) is ({:e}, {:e}, {:e})", p.lat, p.lng, a.x, a.y, a.z);
            let s = _pointSquareDist(a, b);
            let want = 2.0 - 2.0 * dot(v, w);
            ensure!((s - want).abs() <= 4e-15, "the squared distance is {s:e}, not {want:e}");
        }
        2 => {
            let x = f(c.a[0]);
            let y = constrainLng(x);
            ensure!(y.abs() <= PI, "constrainLng gives {y:e}");
            if x.abs() <= PI {
                ensure!(x == y, "constrainLng gives {y:e}");
            } else if x.abs() < 1e9 {
                let e = turn_diff(x, y, TAU);
                ensure!(e <= 1e-12 + x.abs() * 1e-14, "constrainLng gives {y:e}, {e:e} rad off");
            }
            let z = constrainLat(x);
            ensure!(z <= FRAC_PI_2, "constrainLat gives {z:e}");
            if x <= FRAC_PI_2 {
                ensure!(z == x, "constrainLat gives {z:e}");
            } else {
                ensure!(z >= -FRAC_PI_2, "constrainLat gives {z:e}");
                if x < 1e9 {
                    let e = turn_diff(x, z, PI);
                    ensure!(e <= 1e-12 + x * 1e-14, "constrainLat gives {z:e}, {e:e} rad off");
                }
            }
            let p = _posAngleRads(x);
            ensure!((0.0..=TAU).contains(&p), "_posAngleRads gives {p:e}");
            if x.abs() < 1e9 {
                let e = turn_diff(p, x, TAU);
                ensure!(e <= 2e-15 + x.abs() * 1e-14, "_posAngleRads gives {p:e}, {e:e} rad off");
            }
        }
        3 => {
            let p = LatLng { lat: f(c.a[0]), lng: f(c.a[1]) };
            let q = LatLng { lat: f(c.a[2]), lng: f(c.a[3]) };
            let t = f(c.a[4]);
            let want = (p.lat - q.lat).abs() < t && (p.lng - q.lng).abs() < t;
            o.mark(want as usize);
            let got = geoAlmostEqualThreshold(&p, &q, t);
            ensure!(got == want, "geoAlmostEqualThreshold gives {got}");
            let eps = 1e-9f64.to_radians();
            let (da, db) = ((p.lat - q.lat).abs(), (p.lng - q.lng).abs());
            let close = da < eps && db < eps;
            let margin = 1e-3 * eps;
            if (da - eps).abs() > margin && (db - eps).abs() > margin {
                let got = geoAlmostEqual(&p, &q);
                o.mark(2 + got as usize);
                ensure!(got == close, "geoAlmostEqual gives {got}");
            }
        }
        _ => {
            let (x, y) = (f(c.a[0]), f(c.a[1]));
            let mut p = LatLng { lat: 7.0, lng: 7.0 };
            _setGeoRads(&mut p, x, y);
            ensure!(p.lat == x && p.lng == y, "_setGeoRads gives ({:e}, {:e})", p.lat, p.lng);
            setGeoDegs(&mut p, x, y);
            let near = |a: f64, b: f64| (a - b).abs() <= b.abs() * 4e-16 + f64::MIN_POSITIVE;
            ensure!(near(p.lat, x * (PI / 180.0)) && near(p.lng, y * (PI / 180.0)), "setGeoDegs gives ({:e}, {:e})", p.lat, p.lng);
            let m = _v2dMag(&Vec2d { x, y });
            let want = x.hypot(y);
            if want < 1e150 && (want > 1e-150 || want == 0.0) {
                ensure!((m - want).abs() <= want * 1e-15, "_v2dMag gives {m:e}, not {want:e}");
            }
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    let b = |x: f64| x.to_bits();
    // angles: multiples of a fraction of pi and values next to the special ones
    let mut az: Vec<f64> = Vec::new();
    let den = if th { 72 } else { 36 };
    for i in -6 * den..=6 * den {
        az.push(i as f64 * PI / den as f64);
    }
    for x in [0.0, PI, TAU, FRAC_PI_2, -PI, -TAU] {
        for k in [17, 16, 15, 12, 9, 6, 3] {
            az.push(x + 10f64.powi(-k));
            az.push(x - 10f64.powi(-k));
        }
    }
    let mut lats: Vec<f64> = Vec::new();
    let den = if th { 90 } else { 60 };
    for i in -den + 1..den {
        lats.push(i as f64 * FRAC_PI_2 / den as f64);
    }
    for k in [2, 3, 4, 6] {
        lats.push(FRAC_PI_2 - 10f64.powi(-k));
        lats.push(10f64.powi(-k) - FRAC_PI_2);
        lats.push(10f64.powi(-k));
    }
    let mut lngs: Vec<f64> = Vec::new();
    for i in -12..=12 {
        lngs.push(i as f64 * PI / 12.0);
    }
    lngs.extend([1e-9, -1e-9, PI - 1e-9, 1e-9 - PI, 3.1415926, -3.0]);
    let mut dist: Vec<f64> = vec![0.0, 1e-17, 1e-16, 2e-16];
    for k in 1..=15 {
        dist.push(10f64.powi(-k));
        dist.push(3.0 * 10f64.powi(-k));
    }
    for i in 1..=if th { 144 } else { 96 } {
        dist.push(i as f64 * TAU / if th { 144.0 } else { 96.0 });
    }
    let (nl, ng) = (lats.len() as u64, lngs.len() as u64);
    e.phase("travel: latitudes x longitudes x azimuths x distances", nl * ng, |i, cx| {
        for a in &az {
            for d in &dist {
                cx.obs.states += 1;
                cx.run(case(0, &[b(lats[(i / ng) as usize]), b(lngs[(i % ng) as usize]), b(*a), b(*d)]));
            }
        }
    });
    // from a point straight to the poles
    e.phase("travel to the poles", nl * ng, |i, cx| {
        let (la, ln) = (lats[(i / ng) as usize], lngs[(i % ng) as usize]);
        for (a, d) in [(0.0, FRAC_PI_2 - la), (PI, FRAC_PI_2 + la), (TAU, FRAC_PI_2 - la), (-PI, FRAC_PI_2 + la)] {
            for s in [-1e-6, -1e-9, -1e-12, -1e-15, 0.0, 1e-15, 1e-12, 1e-9, 1e-6] {
                // straight on, and past the pole by a little on either side
                for t in [0.0, 1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3] {
                    if d + s >= 0.0 {
                        cx.obs.states += 1;
                        cx.run(case(0, &[b(la), b(ln), b(a + t), b(d + s)]));
                    }
                }
            }
        }
    });
    let mut la2 = lats.clone();
    la2.extend([FRAC_PI_2, -FRAC_PI_2]);
    let mut pts: Vec<(f64, f64)> = Vec::new();
    for a in &la2 {
        for c in lngs.iter().chain(&[4.0, -7.0, 100.0]) {
            pts.push((*a, *c));
        }
    }
    e.phase("azimuths and vectors: all pairs of points", (pts.len() * pts.len()) as u64, |i, cx| {
        let (p, q) = (pts[i as usize / pts.len()], pts[i as usize % pts.len()]);
        cx.obs.states += 1;
        cx.run(case(1, &[b(p.0), b(p.1), b(q.0), b(q.1)]));
    });
    let mut xs: Vec<f64> = az.clone();
    for i in -4000..=4000 {
        xs.push(i as f64 * PI / 16.0);
        xs.push(i as f64 * 0.01);
    }
    for ex in 0..2047u64 {
        for m in [0, 0x921fb54442d18u64, 0xfffffffffffff] {
            xs.push(f(ex << 52 | m));
            xs.push(-f(ex << 52 | m));
        }
    }
    let den = if th { 4096 } else { 256 };
    for i in 1..=8 * den {
        let x = i as f64 * PI / den as f64;
        for y in [x, f(x.to_bits() + 1), f(x.to_bits() - 1)] {
            xs.push(y);
            xs.push(-y);
        }
    }
    e.phase("normalization: every exponent, multiples of pi and their neighbors", xs.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(2, &[b(xs[i as usize])]));
    });
    let eps = 1e-9f64.to_radians();
    let off: Vec<f64> = [0.0, 0.25, 0.5, 0.9, 0.99, 1.01, 1.1, 2.0, 10.0, 1e3, 1e6, 1e9].iter().flat_map(|k| [k * eps, -k * eps]).chain([0.1, -0.1, 1.0, 3.0]).collect();
    let ts = [0.0, eps, 0.5 * eps, 2.0 * eps, 0.1, 1.0, 1e-5, -1.0];
    let base = [(0.0, 0.0), (0.5, -1.0), (1e-3, 3.0), (-1.2, 2.0)];
    e.phase("almost-equal: offsets x thresholds", (off.len() * off.len()) as u64, |i, cx| {
        let (x, y) = (off[i as usize / off.len()], off[i as usize % off.len()]);
        for p in base {
            for t in ts {
                cx.obs.states += 1;
                cx.run(case(3, &[b(p.0), b(p.1), b(p.0 + x), b(p.1 + y), b(t)]));
                // a threshold met exactly
                let (dx, dy) = ((p.0 - (p.0 + x)).abs(), (p.1 - (p.1 + y)).abs());
                cx.run(case(3, &[b(p.0), b(p.1), b(p.0 + x), b(p.1 + y), b(dx)]));
                cx.run(case(3, &[b(p.0), b(p.1), b(p.0 + x), b(p.1 + y), b(dy)]));
            }
        }
    });
    let vs: Vec<f64> = xs.iter().copied().step_by(41).collect();
    e.phase("setters and magnitudes", (vs.len() * vs.len()) as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(4, &[b(vs[i as usize / vs.len()]), b(vs[i as usize % vs.len()])]));
    });
}
fn main() {
    engine::main(Spec {
        id: "C20",
        rule: "states: argument tuples of the stated finite lattices (every exponent for the normalizations); each result is compared with a vector-geometry or exact-remainder oracle",
        assumptions: &["accuracy bounds grow with 1/cos of the starting latitude as the spherical formulas require", "azimuths between points closer than 1e-9 (or opposite) are skipped (ambiguous_skipped)", "travel starts outside the poles"],
        check,
        describe: |c| {
            let a: Vec<String> = c.a.iter().map(|x| format!("{:e}", f(*x))).collect();
            match c.kind {
                0 => format!("_geoAzDistanceRads(({}, {}), {}, {})", a[0], a[1], a[2], a[3]),
                1 => format!("azimuth and vectors of ({}, {}) and ({}, {})", a[0], a[1], a[2], a[3]),
                2 => format!("normalizations of {}", a[0]),
                3 => format!("almost-equal of ({}, {}) and ({}, {}) within {}", a[0], a[1], a[2], a[3], a[4]),
                _ => format!("setters and magnitude of ({}, {})", a[0], a[1]),
            }
        },
        explore,
        extra: no_extra,
    })
}
