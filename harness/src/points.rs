//! Finite families of points of the sphere, and the accuracy that a
//! double-precision encoding of a point can be expected to keep.

use crate::model::*;
use crate::specdata::FACES;
use std::f64::consts::{FRAC_PI_2, PI};

/// Error bound (radians) of locating a point on its icosahedron face in double
/// precision (measured: at most 1.5e-15, also at the poles and face centers).
pub fn err_rad(_v: V3) -> f64 {
    8e-15
}
/// The same in units of the cell lattice of resolution r (the gnomonic
/// projection stretches by at most 1/cos^2 of the face radius, < 1.6).
pub fn err_units(v: V3, r: i32) -> f64 {
    err_rad(v) * 1.6 / RES0_U * 7f64.powf(r as f64 / 2.0)
}

/// Latitude/longitude lattice including poles and the antimeridian.
pub fn lattice(nlat: i32, nlng: i32) -> Vec<(f64, f64)> {
    let mut v = Vec::new();
    for i in -nlat..=nlat {
        for j in -nlng..=nlng {
            v.push((i as f64 * FRAC_PI_2 / nlat as f64, j as f64 * PI / nlng as f64));
        }
    }
    v
}

fn add(a: V3, b: V3, t: f64) -> V3 {
    unit([a[0] + t * b[0], a[1] + t * b[1], a[2] + t * b[2]])
}
fn frame(n: V3) -> (V3, V3) {
    let h = if n[2].abs() < 0.9 { [0.0, 0.0, 1.0] } else { [1.0, 0.0, 0.0] };
    let x = unit(cross(h, n));
    (x, cross(n, x))
}
/// Circles of radius 10^-k (and 2, 5 times) around a point.
fn circles(n: V3, angles: usize, out: &mut Vec<V3>) {
    let (x, y) = frame(n);
    out.push(n);
    for k in 1..=16 {
        for m in [1.0, 2.0, 5.0] {
            let r = m * 10f64.powi(-k);
            for a in 0..angles {
                let t = 0.1 + 2.0 * PI * a as f64 / angles as f64;
                let d = [
                    t.cos() * x[0] + t.sin() * y[0],
                    t.cos() * x[1] + t.sin() * y[1],
                    t.cos() * x[2] + t.sin() * y[2],
                ];
                out.push(add(n, d, r.tan()));
            }
        }
    }
}
/// Points at and close to face centres, icosahedron vertices, edge midpoints,
/// poles, and points on both sides of every icosahedron edge.
pub fn special_points(per_edge: usize, angles: usize) -> Vec<(f64, f64)> {
    let m = model();
    let mut v: Vec<V3> = Vec::new();
    circles([0.0, 0.0, 1.0], angles, &mut v);
    circles([0.0, 0.0, -1.0], angles, &mut v);
    let verts = [UNIT[4].scale(2), UNIT[2].scale(2), UNIT[1].scale(2)];
    for f in 0..20 {
        circles(m.n[f], angles, &mut v);
        for k in 0..3 {
            let (p, q) = (verts[k].xy(), verts[(k + 1) % 3].xy());
            let a = m.plane_to_v(f, p.0, p.1);
            let b = m.plane_to_v(f, q.0, q.1);
            if m.edges[f].iter().all(|e| e.to > f) || k == 0 {
                circles(a, angles, &mut v);
            }
            let side = unit(cross(a, b));
            for i in 0..=per_edge {
                let t = i as f64 / per_edge as f64;
                let w = m.plane_to_v(f, p.0 + t * (q.0 - p.0), p.1 + t * (q.1 - p.1));
                v.push(w);
                for k in [3, 5, 7, 8, 9, 10, 11, 12, 13, 14] {
                    v.push(add(w, side, 10f64.powi(-k)));
                    v.push(add(w, side, -(10f64.powi(-k))));
                }
            }
        }
    }
    v.into_iter().map(v_to_ll).collect()
}
/// Points next to the antimeridian, the Greenwich meridian and the equator.
pub fn meridian_points(n: i32) -> Vec<(f64, f64)> {
    let mut v = Vec::new();
    for i in -n..=n {
        let t = i as f64 * FRAC_PI_2 / n as f64;
        for d in [0.0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3] {
            for s in [1.0, -1.0] {
                v.push((t, s * (PI - d)));
                v.push((t, s * d));
                v.push((t, s * (FRAC_PI_2 - d)));
                v.push((s * d, 2.0 * t));
                v.push((s * (FRAC_PI_2 - d), 2.0 * t));
            }
        }
    }
    v
}
/// Points that are special by the way they are written: whole degrees, short
/// decimals, equal latitude and longitude, the smallest numbers, and points with
/// exactly the longitude, the latitude or the axis directions of a face center.
pub fn written_points(fine: i32, axes: bool) -> Vec<(f64, f64)> {
    let mut v = Vec::new();
    for i in -90..=90 {
        for j in -180..=180 {
            v.push(((i as f64).to_radians(), (j as f64).to_radians()));
        }
    }
    for i in -31..=31 {
        for j in -62..=62 {
            v.push((i as f64 / 20.0, j as f64 / 20.0));
        }
    }
    for i in -100 * fine..=100 * fine {
        let t = i as f64 * FRAC_PI_2 / (100 * fine) as f64;
        for (a, b) in [(t, t), (t, -t), (t, 2.0 * t), (t, -2.0 * t), (t, PI - t), (t, t - PI), (t, FRAC_PI_2 - t), (t, 1.0), (t, -3.0), (1.0, 2.0 * t), (-0.5, 2.0 * t)] {
            v.push((a, b.clamp(-PI, PI)));
        }
        for d in [5e-324, 1e-310, 2.3e-308, 1e-200, 1e-100, 1e-30, 1e-20, 1e-17] {
            for s in [d, -d] {
                v.push((t, s));
                v.push((s, 2.0 * t));
            }
        }
    }
    let steps: Vec<f64> = (0..=16).flat_map(|k| [1.0, 2.0, 3.0, 5.0, 7.0].map(|m| m * 10f64.powi(-k))).filter(|d| *d < 0.7).collect();
    for (f, (lat, lng, az)) in FACES.iter().enumerate() {
        for d in &steps {
            for s in [*d, -*d] {
                v.push((lat + s, *lng));
                v.push((*lat, lng + s));
            }
        }
        let n = model().n[f];
        let east = unit([-lng.sin(), lng.cos(), 0.0]);
        let north = cross(n, east);
        // along the axes and half way between them, and a little beside
        for k in 0..if axes { 24 } else { 0 } {
            for t in [0.0, 1e-15, -1e-15, 1e-12, -1e-12, 1e-8, -1e-8, 1e-4] {
                let z = (if k < 12 { *az } else { 0.0 }) + k as f64 * PI / 6.0 + t;
                let dir = [0, 1, 2].map(|i| z.cos() * north[i] + z.sin() * east[i]);
                for d in &steps {
                    v.push(v_to_ll(add(n, dir, d.tan())));
                }
            }
        }
    }
    v.retain(|p| p.0.abs() <= FRAC_PI_2 && p.1.abs() <= PI);
    v
}
