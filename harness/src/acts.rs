//! The calls that the checks of C21 and C28 are made of.
use h3_rs::algos::*;
use h3_rs::base_cells::*;
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3_rs::h3_index::*;
use h3_rs::lat_lng::*;
use h3mc::domain::pentagons;
use h3mc::model::*;
use h3mc::*;
use std::sync::OnceLock;

/// one concrete call: query and arguments
#[derive(Copy, Clone, PartialEq, Debug)]
pub struct Act {
    pub q: u32,
    pub a: [u64; 4],
}
pub const NAMES: [&str; 18] = [
    "latLngToCell",
    "cellToLatLng",
    "gridDiskDistances",
    "gridDiskDistancesUnsafe",
    "gridRingUnsafe",
    "h3NeighborRotations",
    "directionForNeighbor",
    "cellsToDirectedEdge",
    "edge decomposition",
    "originToDirectedEdges",
    "isValidCell/isPentagon/getResolution",
    "cellToChildrenSize",
    "cellToChildren",
    "childPosToCell",
    "getRes0Cells",
    "maxGridDiskSize",
    "spherical helpers",
    "setH3Index and setters",
];
struct Dg(u64);
impl Dg {
    fn new() -> Dg {
        Dg(0xcbf29ce484222325)
    }
    fn u(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9e3779b97f4a7c15);
        self.0 ^= self.0 >> 29;
    }
    fn f(&mut self, x: f64) {
        self.u(x.to_bits())
    }
    fn e(&mut self, e: &Error) {
        // the discriminant, through its Debug name
        for b in format!("{e:?}").bytes() {
            self.u(b as u64);
        }
        self.u(!0);
    }
    fn h(&mut self, r: &Result<u64, Error>) {
        match r {
            Ok(x) => self.u(*x),
            Err(e) => self.e(e),
        }
    }
}
pub fn run_act(x: &Act) -> u64 {
    let a = x.a;
    let fb = f64::from_bits;
    let mut d = Dg::new();
    match x.q {
        0 => d.h(&latLngToCell(&LatLng { lat: fb(a[0]), lng: fb(a[1]) }, a[2] as i32)),
        1 => match cellToLatLng(a[0]) {
            Ok(p) => {
                d.f(p.lat);
                d.f(p.lng);
            }
            Err(e) => d.e(&e),
        },
        2 | 3 => match if x.q == 2 { gridDiskDistances(a[0], a[1] as u32) } else { gridDiskDistancesUnsafe(a[0], a[1] as u32) } {
            Ok(v) => {
                d.u(v.len() as u64);
                if x.q == 3 {
                    for (h, k) in v {
                        d.u(h);
                        d.u(k as u64);
                    }
                } else {
                    // no order is promised
                    let mut s = 0u64;
                    for (h, k) in v {
                        let mut t = Dg::new();
                        t.u(h);
                        t.u(k as u64);
                        s = s.wrapping_add(t.0);
                    }
                    d.u(s);
                }
            }
            Err(e) => d.e(&e),
        },
        4 => match gridRingUnsafe(a[0], a[1] as u32) {
            Ok(v) => v.iter().for_each(|h| d.u(*h)),
            Err(e) => d.e(&e),
        },
        5 => {
            let mut rot = a[2] as i32;
            d.h(&h3NeighborRotations(a[0], dir!(a[1]), &mut rot));
            d.u(rot as u64);
        }
        6 => d.u(directionForNeighbor(a[0], a[1]) as u64),
        7 => d.h(&cellsToDirectedEdge(a[0], a[1])),
        8 => {
            d.u(isValidDirectedEdge(a[0]) as u64);
            d.h(&getDirectedEdgeOrigin(a[0]));
            d.h(&getDirectedEdgeDestination(a[0]));
            match directedEdgeToCells(a[0]) {
                Ok((x, y)) => {
                    d.u(x);
                    d.u(y);
                }
                Err(e) => d.e(&e),
            }
        }
        9 => originToDirectedEdges(a[0]).iter().for_each(|h| d.u(*h)),
        10 => d.u(isValidCell(a[0]) as u64 * 64 + isPentagon(a[0]) as u64 * 32 + getResolution(a[0]) as u64),
        11 => match cellToChildrenSize(a[0], a[1] as i32) {
            Ok(n) => d.u(n as u64),
            Err(e) => d.e(&e),
        },
        12 => match cellToChildren(a[0], a[1] as i32) {
            Ok(v) => v.iter().for_each(|h| d.u(*h)),
            Err(e) => d.e(&e),
        },
        13 => d.h(&childPosToCell(a[0] as i64, a[1], a[2] as i32)),
        14 => match getRes0Cells() {
            Ok(v) => v.iter().for_each(|h| d.u(*h)),
            Err(e) => d.e(&e),
        },
        15 => d.u(maxGridDiskSize(a[0] as u32) as u64),
        16 => {
            let p = LatLng { lat: fb(a[0]), lng: fb(a[1]) };
            let q = _geoAzDistanceRads(&p, fb(a[2]), fb(a[3]));
            d.f(q.lat);
            d.f(q.lng);
            d.f(_geoAzimuthRads(&p, &LatLng { lat: fb(a[2]), lng: fb(a[3]) }));
            d.f(constrainLat(fb(a[3])));
            d.f(constrainLng(fb(a[2])));
            d.f(_posAngleRads(fb(a[2])));
        }
        _ => {
            let mut h = a[3];
            setH3Index(&mut h, a[0] as i32, a[1] as i32, a[2] as i32);
            d.u(h);
            let mut p = LatLng { lat: fb(a[3]), lng: 0.0 };
            setGeoDegs(&mut p, a[0] as f64, a[1] as f64);
            d.f(p.lat);
            d.f(p.lng);
        }
    }
    d.0
}
/// the representative cells: relatives that share all but one field
pub fn cells() -> Vec<u64> {
    let ds: [u8; 15] = [2, 3, 4, 5, 6, 0, 1, 2, 3, 4, 5, 6, 0, 1, 2];
    let c = mk(5, 20, &ds);
    let mut v = vec![c, parent(c, 4), mk(6, 20, &ds), mk(5, 21, &ds), mk(15, 20, &ds)];
    let mut e = ds;
    e[4] = 2;
    v.push(mk(5, 20, &e));
    e = ds;
    e[0] = 5;
    v.push(mk(5, 20, &e));
    e = ds;
    e[14] = 3;
    v.push(mk(15, 20, &e));
    let p5 = pentagons(5);
    v.extend([p5[1], p5[2], pentagons(6)[1], p5[0]]);
    v.push(model().neighbors(c)[0]);
    v.push(model().neighbors(p5[1])[0]);
    v.push(mk(0, 20, &[]));
    v.push(mk(0, 14, &[]));
    v
}
pub fn alphabet() -> &'static Vec<Act> {
    static A: OnceLock<Vec<Act>> = OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<Act> = Vec::new();
        let mut add = |q: u32, a: &[u64]| {
            let mut x = [0; 4];
            x[..a.len()].copy_from_slice(a);
            v.push(Act { q, a: x });
        };
        let b = |x: f64| x.to_bits();
        let pts = [(0.6, -1.2), (0.6, -1.2 + 1e-9), (0.6 + 1e-4, -1.2), (-0.6, -1.2), (0.6, 1.2), (-1.2, 0.6), (0.0, 0.0), (1.5707, 3.0)];
        for p in pts {
            for r in [0, 5, 9, 15] {
                add(0, &[b(p.0), b(p.1), r]);
            }
        }
        add(0, &[b(f64::NAN), b(0.0), 5]);
        add(0, &[b(0.6), b(-1.2), 16]);
        let cs = cells();
        let c = cs[0];
        let nb = cs[12];
        let pe = cs[8];
        let npe = cs[13];
        let bad = c | (127 << 45);
        let edge = |h: u64, d: u64| (h & !(127 << 56)) | (2 << 59) | (d << 56);
        for &h in &cs {
            add(1, &[h]);
            add(9, &[h]);
            add(10, &[h]);
        }
        for h in [bad, 0, edge(c, 1)] {
            add(1, &[h]);
            add(10, &[h]);
        }
        for h in [c, nb, pe, npe, cs[1], cs[3], cs[14], cs[15]] {
            for k in [0, 1, 2] {
                add(2, &[h, k]);
                add(3, &[h, k]);
                add(4, &[h, k]);
            }
        }
        for h in [c, pe, npe, cs[3], cs[5], cs[14]] {
            for d in [1, 2, 5] {
                add(5, &[h, d, 0]);
            }
            add(5, &[h, 5, 3]);
        }
        for (x, y) in [(c, nb), (nb, c), (c, c), (pe, npe), (npe, pe), (c, pe), (cs[1], c), (model().neighbors(c)[1], c), (c, model().neighbors(c)[1])] {
            add(6, &[x, y]);
            add(7, &[x, y]);
        }
        for (h, d) in [(c, 1), (c, 2), (nb, 1), (pe, 1), (pe, 2), (c, 0), (c, 7), (cs[5], 1)] {
            add(8, &[edge(h, d)]);
        }
        add(8, &[c]);
        for h in [c, pe, cs[1], cs[10], cs[14], cs[15]] {
            let r = res(h) as u64;
            for n in [0, 1, 2] {
                add(11, &[h, r + n]);
                add(12, &[h, r + n]);
            }
            add(11, &[h, 15]);
            add(11, &[h, 16]);
            for (p, n) in [(0, 1), (3, 1), (3, 2), (5, 1), (5, 6), (7, 1)] {
                add(13, &[p, h, r + n]);
            }
        }
        add(14, &[]);
        for k in [0, 1, 2, 100] {
            add(15, &[k]);
        }
        for p in [(0.6, -1.2, 0.3, 0.1), (0.6, -1.2, 0.3, 4.0), (0.6, -1.2, 7.0, 0.1), (0.5, -1.2, 0.3, 0.1)] {
            add(16, &[b(p.0), b(p.1), b(p.2), b(p.3)]);
        }
        for a in [[5, 20, 2, 0], [5, 20, 2, c], [5, 21, 2, 0], [6, 20, 2, 0], [5, 20, 3, 0]] {
            add(17, &a);
        }
        v
    })
}
pub fn act_name(i: u64) -> String {
    act_text(&alphabet()[i as usize])
}
pub fn act_text(x: &Act) -> String {
    let a: Vec<String> = x.a.iter().map(|v| if matches!(x.q, 0 | 16) && *v > 99 { format!("{:e}", f64::from_bits(*v)) } else { format!("{v:#x}") }).collect();
    format!("{}({})", NAMES[x.q as usize], a.join(", "))
}
