//! Reference model of the H3 grid, independent of the implementation under test.
//!
//! A cell is a lattice point of a hexagonal (Eisenstein) lattice drawn on the
//! surface of an icosahedron.  The only specification data are the orientation
//! of the 20 faces and the home position of the 122 base cells (specdata.rs);
//! face adjacency, unfolding, base-cell neighbours, rotations and pentagon
//! sectors are all derived here from exact integer geometry.
//!
//! Eisenstein integers a + b*w, w = exp(2 pi i / 3).  Digit -> unit:
//! 4 -> 1, 6 -> 1+w, 2 -> w, 3 -> -1, 1 -> w^2, 5 -> -w   (0,60,..,300 degrees).

use crate::specdata::{BASE_HOME, FACES};
use std::collections::HashMap;
use std::f64::consts::PI;
use std::sync::OnceLock;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E {
    pub a: i64,
    pub b: i64,
}
pub const fn e(a: i64, b: i64) -> E {
    E { a, b }
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        e(self.a + o.a, self.b + o.b)
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        e(self.a - o.a, self.b - o.b)
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        let bd = self.b * o.b;
        e(self.a * o.a - bd, self.a * o.b + self.b * o.a - bd)
    }
}
impl E {
    pub fn scale(self, k: i64) -> E {
        e(self.a * k, self.b * k)
    }
    pub fn conj(self) -> E {
        e(self.a - self.b, -self.b)
    }
    pub fn norm(self) -> i64 {
        self.a * self.a - self.a * self.b + self.b * self.b
    }
    /// Multiply by the `n`-th power of exp(i pi/3).
    pub fn rot(self, n: i32) -> E {
        let mut z = self;
        for _ in 0..n.rem_euclid(6) {
            // (a+bw)(1+w) = a + (a+b)w + b w^2 = (a-b) + a w
            z = e(z.a - z.b, z.a);
        }
        z
    }
    /// Exact division by `d`, if divisible.
    pub fn div(self, d: E) -> Option<E> {
        let n = d.norm();
        let q = self * d.conj();
        if q.a % n == 0 && q.b % n == 0 {
            Some(e(q.a / n, q.b / n))
        } else {
            None
        }
    }
    pub fn xy(self) -> (f64, f64) {
        (
            self.a as f64 - self.b as f64 * 0.5,
            self.b as f64 * (3f64.sqrt() * 0.5),
        )
    }
}

/// Digit -> unit vector.
pub const UNIT: [E; 7] = [
    e(0, 0),
    e(-1, -1),
    e(0, 1),
    e(-1, 0),
    e(1, 0),
    e(0, -1),
    e(1, 1),
];
/// Digits in counter-clockwise order starting at angle 0.
pub const CCW: [usize; 6] = [4, 6, 2, 3, 1, 5];
/// Position of a digit in CCW.
pub const CCW_POS: [usize; 7] = [9, 4, 2, 3, 0, 5, 1];

pub fn rot_digit(d: usize, n: i32) -> usize {
    if d == 0 || d == 7 {
        d
    } else {
        CCW[(CCW_POS[d] as i32 + n).rem_euclid(6) as usize]
    }
}

/// Aperture-7 multipliers: odd (class III) and even (class II) resolutions.
pub const ALPHA_ODD: E = e(2, -1);
pub const ALPHA_EVEN: E = e(3, 1);
pub fn alpha(r: i32) -> E {
    if r % 2 != 0 {
        ALPHA_ODD
    } else {
        ALPHA_EVEN
    }
}
/// z = alpha * z' + UNIT[d]: the unique (z', d).  Modulo alpha (norm 7) the ring
/// is Z/7 with w = 2 (alpha = 2 - w) or w = 4 (alpha = 3 + w), so the digit is
/// read off the residue; the division below is exact and checked.
#[inline]
pub fn up(z: E, r: i32) -> (E, usize) {
    let odd = r % 2 != 0;
    let t = if odd { 2 } else { 4 };
    let m = (z.a + z.b * t).rem_euclid(7) as usize;
    // residues of the digits: 4->1, 3->6, 2->t, 5->-t, 6->1+t, 1->-1-t
    const ODD: [usize; 7] = [0, 4, 2, 6, 1, 5, 3];
    const EVEN: [usize; 7] = [0, 4, 1, 5, 2, 6, 3];
    let d = if odd { ODD[m] } else { EVEN[m] };
    let q = (z - UNIT[d]) * alpha(r).conj();
    debug_assert!(q.a % 7 == 0 && q.b % 7 == 0);
    (e(q.a / 7, q.b / 7), d)
}

pub type V3 = [f64; 3];
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn unit(a: V3) -> V3 {
    let n = dot(a, a).sqrt();
    [a[0] / n, a[1] / n, a[2] / n]
}
pub fn ll_to_v(lat: f64, lng: f64) -> V3 {
    [lat.cos() * lng.cos(), lat.cos() * lng.sin(), lat.sin()]
}
pub fn v_to_ll(v: V3) -> (f64, f64) {
    (v[2].atan2((v[0] * v[0] + v[1] * v[1]).sqrt()), v[1].atan2(v[0]))
}
/// Angular distance, accurate for small and large angles.
pub fn ang(a: V3, b: V3) -> f64 {
    let c = cross(a, b);
    dot(c, c).sqrt().atan2(dot(a, b))
}

#[derive(Copy, Clone)]
pub struct Edge {
    pub to: usize,
    /// z' = rot(z, r) + t * s, with s = 7^(R/2)
    pub r: i32,
    pub t: E,
}

/// A lattice point on the surface: `z` in the class II lattice of resolution
/// R2 (even) in the frame of `face`.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Pt {
    pub face: usize,
    pub z: E,
}

pub struct Model {
    pub edges: [[Edge; 3]; 20], // 0: ij edge, 1: jk edge, 2: ki edge
    pub n: [V3; 20],
    pub ex: [V3; 20],
    pub ey: [V3; 20],
    /// (face, z at res 0) -> (base cell, ccw rotations taking face-frame directions to home-frame directions)
    pub base_at: HashMap<(usize, E), (usize, i32)>,
    base_fast: Vec<(u8, u8)>,
    fan_fast: Vec<u8>,
    /// pentagon base cell -> its five faces counter-clockwise, home face first,
    /// with the position of the pentagon in each face frame
    pub pent: HashMap<usize, [(usize, E); 5]>,
    pub is_pent: [bool; 122],
    pub home: [(usize, E); 122],
}

/// Canonical digit of each sector of a pentagon, counter-clockwise from the home face.
pub const SECTOR_DIGIT: [usize; 5] = [3, 5, 4, 6, 2];

pub const RES0_U: f64 = 0.381966011250105151795413165634361882279690820194237; // tan(vertex)/2 = (3-sqrt5)/2

/// Outward functionals of the three face edges; the edge lies at 2s.
#[inline]
pub fn edge_fn(z: E) -> [i64; 3] {
    [z.a + z.b, z.b - 2 * z.a, z.a - 2 * z.b]
}

pub fn model() -> &'static Model {
    static M: OnceLock<Model> = OnceLock::new();
    M.get_or_init(build)
}

fn build() -> Model {
    let mut n = [[0.0; 3]; 20];
    let mut ex = n;
    let mut ey = n;
    for f in 0..20 {
        let (lat, lng, az) = FACES[f];
        n[f] = ll_to_v(lat, lng);
        let north = [-lat.sin() * lng.cos(), -lat.sin() * lng.sin(), lat.cos()];
        let east = [-lng.sin(), lng.cos(), 0.0];
        let dir = |a: f64| {
            let mut r = [0.0; 3];
            for q in 0..3 {
                r[q] = a.cos() * north[q] + a.sin() * east[q];
            }
            r
        };
        ex[f] = dir(az);
        ey[f] = dir(az - PI / 2.0);
    }
    let tov = |f: usize, z: E| -> V3 {
        let (x, y) = z.xy();
        let mut v = [0.0; 3];
        for q in 0..3 {
            v[q] = n[f][q] + RES0_U * (x * ex[f][q] + y * ey[f][q]);
        }
        unit(v)
    };
    let vert = [UNIT[4].scale(2), UNIT[2].scale(2), UNIT[1].scale(2)]; // i, j, k
    let ev = [(0, 1), (1, 2), (2, 0)];
    let close = |a: V3, b: V3| ang(a, b) < 1e-6;
    let mut edges = [[Edge { to: 99, r: 0, t: e(0, 0) }; 3]; 20];
    for f in 0..20 {
        for (k, (p, q)) in ev.iter().enumerate() {
            let (a, b) = (tov(f, vert[*p]), tov(f, vert[*q]));
            for g in 0..20 {
                if g == f {
                    continue;
                }
                let fa = (0..3).find(|&m| close(tov(g, vert[m]), a));
                let fb = (0..3).find(|&m| close(tov(g, vert[m]), b));
                if let (Some(fa), Some(fb)) = (fa, fb) {
                    // isometry taking vert[p]->vert[fa], vert[q]->vert[fb]
                    for r in 0..6 {
                        let t = vert[fa] - vert[*p].rot(r);
                        if vert[*q].rot(r) + t == vert[fb] && edge_is_flip(vert, *p, *q, r, t) {
                            edges[f][k] = Edge { to: g, r, t };
                        }
                    }
                }
            }
            assert!(edges[f][k].to < 20, "model: face {f} edge {k} has no neighbour");
        }
    }
    let mut m = Model {
        edges,
        n,
        ex,
        ey,
        base_at: HashMap::new(),
        base_fast: Vec::new(),
        fan_fast: Vec::new(),
        pent: HashMap::new(),
        is_pent: [false; 122],
        home: [(0, e(0, 0)); 122],
    };
    for bc in 0..122 {
        let (f, i, j, k) = BASE_HOME[bc];
        let z = e((i - k) as i64, (j - k) as i64);
        m.home[bc] = (f as usize, z);
        m.is_pent[bc] = vert.contains(&z);
    }
    assert_eq!(m.is_pent.iter().filter(|x| **x).count(), 12);
    for bc in 0..122 {
        let (f, z) = m.home[bc];
        if m.is_pent[bc] {
            // walk counter-clockwise around the vertex
            let mut around = [(f, z); 5];
            let (mut g, mut p) = (f, z);
            for s in 1..5 {
                // in frame g at vertex p, the direction to the face centre is -p/2;
                // counter-clockwise next face is across the edge whose direction from p is
                // 30 degrees ccw of it: the edge {p, w^-1 p... } determined by trial:
                // the neighbour whose centre appears rotated +60 degrees around p.
                let mut found = None;
                for k in 0..3 {
                    let ed = m.edges[g][k];
                    let img = p.rot(ed.r) + ed.t;
                    if !vert.contains(&img) {
                        continue;
                    }
                    // direction of neighbour centre seen from p in g's frame
                    let dir = (e(0, 0) - img).rot(-ed.r);
                    if dir == (e(0, 0) - p).rot(1) {
                        found = Some((ed.to, img));
                    }
                }
                let (g2, p2) = found.expect("model: fan");
                around[s] = (g2, p2);
                g = g2;
                p = p2;
            }
            let set: std::collections::HashSet<_> = around.iter().map(|x| x.0).collect();
            assert_eq!(set.len(), 5);
            m.pent.insert(bc, around);
            for (g, p) in around {
                let old = m.base_at.insert((g, p), (bc, 0));
                assert!(old.is_none());
            }
        } else {
            // every face in which the base cell is inside or on the edge, then one crossing more
            let mut reps: Vec<(usize, E, i32)> = vec![(f, z, 0)]; // rot: home -> face frame
            let mut q = 0;
            while q < reps.len() {
                let (g, p, r) = reps[q];
                q += 1;
                let inside = edge_fn(p).iter().all(|l| *l <= 2);
                if !inside {
                    continue;
                }
                for k in 0..3 {
                    let ed = m.edges[g][k];
                    let c = (ed.to, p.rot(ed.r) + ed.t, (r + ed.r) % 6);
                    if !reps.contains(&c) {
                        reps.push(c);
                    }
                }
            }
            for (g, p, r) in reps {
                let v = (bc, (6 - r) % 6);
                let old = m.base_at.insert((g, p), v);
                assert!(old.is_none() || old == Some(v), "model: base cell clash {g} {p:?} {old:?} {v:?}");
            }
        }
    }
    m.base_fast = vec![(255, 0); 20 * 121];
    for ((f, z), (b, r)) in m.base_at.iter() {
        m.base_fast[Model::slot(*f, *z)] = (*b as u8, *r as u8);
    }
    m.fan_fast = vec![255; 122 * 20];
    for (b, fan) in m.pent.iter() {
        for (i, (f, _)) in fan.iter().enumerate() {
            m.fan_fast[b * 20 + f] = i as u8;
        }
    }
    m
}

/// The isometry must map the neighbouring triangle next to, not on top of, this one.
fn edge_is_flip(vert: [E; 3], p: usize, q: usize, r: i32, t: E) -> bool {
    let third = vert[3 - p - q];
    let img = third.rot(r) + t;
    // the third vertex of this face must land outside the neighbour
    edge_fn(img).iter().any(|l| *l > 2)
}

pub fn pow7(k: i32) -> i64 {
    7i64.pow(k as u32)
}

// ---------------------------------------------------------------- index bits

pub fn mk(res: i32, bc: usize, digits: &[u8]) -> u64 {
    let mut h: u64 = (1u64 << 59) | ((res as u64) << 52) | ((bc as u64) << 45);
    for r in 1..=15 {
        let d = if r <= res { digits[(r - 1) as usize] as u64 } else { 7 };
        h |= d << ((15 - r) * 3);
    }
    h
}
pub fn mode(h: u64) -> u64 {
    (h >> 59) & 15
}
pub fn reserved(h: u64) -> u64 {
    (h >> 56) & 7
}
pub fn res(h: u64) -> i32 {
    ((h >> 52) & 15) as i32
}
pub fn bc(h: u64) -> usize {
    ((h >> 45) & 127) as usize
}
pub fn digit(h: u64, r: i32) -> usize {
    ((h >> ((15 - r) * 3)) & 7) as usize
}
pub fn set_digit(h: u64, r: i32, d: usize) -> u64 {
    let s = (15 - r) * 3;
    (h & !(7u64 << s)) | ((d as u64) << s)
}
pub fn lead(h: u64) -> usize {
    for r in 1..=res(h) {
        if digit(h, r) != 0 {
            return digit(h, r);
        }
    }
    0
}
pub fn is_pent_cell(h: u64) -> bool {
    bc(h) < 122 && model().is_pent[bc(h)] && lead(h) == 0
}
/// Specification of a well-formed cell index.
pub fn valid_cell(h: u64) -> bool {
    if h >> 63 != 0 || mode(h) != 1 || reserved(h) != 0 || bc(h) >= 122 {
        return false;
    }
    let r = res(h);
    let mut zero_so_far = true;
    for q in 1..=15 {
        let d = digit(h, q);
        if q <= r {
            if d == 7 {
                return false;
            }
            if zero_so_far && d != 0 {
                zero_so_far = false;
                if model().is_pent[bc(h)] && d == 1 {
                    return false;
                }
            }
        } else if d != 7 {
            return false;
        }
    }
    true
}
pub fn valid_edge(h: u64) -> bool {
    if mode(h) != 2 {
        return false;
    }
    let d = reserved(h);
    if d == 0 || d == 7 {
        return false;
    }
    let o = edge_origin(h);
    valid_cell(o) && !(is_pent_cell(o) && d == 1)
}
pub fn edge_origin(h: u64) -> u64 {
    (h & !(15u64 << 59) & !(7u64 << 56)) | (1u64 << 59)
}
pub fn mk_edge(cell: u64, d: usize) -> u64 {
    (cell & !(15u64 << 59) & !(7u64 << 56)) | (2u64 << 59) | ((d as u64) << 56)
}
pub fn parent(h: u64, pr: i32) -> u64 {
    let mut x = (h & !(15u64 << 52)) | ((pr as u64) << 52);
    for r in (pr + 1)..=15 {
        x = set_digit(x, r, 7);
    }
    x
}
/// Number of descendants of a valid cell at resolution cr.
pub fn n_children(h: u64, cr: i32) -> i64 {
    // by recurrence rather than closed form
    let mut hex = 0i64;
    let mut pent = 0i64;
    if is_pent_cell(h) {
        pent = 1
    } else {
        hex = 1
    }
    for _ in res(h)..cr {
        hex = hex * 7 + pent * 5;
    }
    hex + pent
}

// ---------------------------------------------------------------- geometry

/// Where a cell sits: face, native lattice position in that face's frame, and
/// the rotation taking the cell's own digit directions to face directions.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Place {
    pub face: usize,
    /// native lattice (resolution res) coordinates in the frame of `face`
    pub z: E,
    pub rot: i32,
}

impl Model {
    /// Scale of the substrate: even resolution R2 for a native resolution r.
    #[inline]
    pub fn r2(r: i32) -> i32 {
        r + (r & 1)
    }
    #[inline]
    fn slot(f: usize, z: E) -> usize {
        assert!(z.a.abs() <= 5 && z.b.abs() <= 5, "model: base lookup {f} {z:?}");
        f * 121 + ((z.a + 5) * 11 + (z.b + 5)) as usize
    }
    #[inline]
    fn to2(z: E, r: i32) -> E {
        if r & 1 == 1 {
            z * ALPHA_EVEN
        } else {
            z
        }
    }
    #[inline]
    fn from2(z: E, r: i32) -> E {
        if r & 1 == 1 {
            z.div(ALPHA_EVEN).expect("model: class III lattice")
        } else {
            z
        }
    }

    /// Fold a point given in the extended plane of `face` onto the face that
    /// contains it (z in a class II lattice with unit s; `two_s` = 2s).
    /// Returns the accumulated rotation as well.
    #[inline]
    pub fn fold(&self, mut face: usize, mut z: E, s: i64) -> (usize, E, i32) {
        let mut rot = 0;
        let mut guard = 0;
        loop {
            let l = edge_fn(z);
            let mut k = 0;
            if l[1] > l[k] {
                k = 1
            }
            if l[2] > l[k] {
                k = 2
            }
            if l[k] <= 2 * s {
                return (face, z, rot % 6);
            }
            let ed = self.edges[face][k];
            z = z.rot(ed.r) + ed.t.scale(s);
            face = ed.to;
            rot += ed.r;
            guard += 1;
            assert!(guard < 6, "model: fold does not settle");
        }
    }

    /// All representations of a (folded) point: more than one on edges and vertices.
    pub fn reps(&self, face: usize, z: E, s: i64) -> Vec<(usize, E, i32)> {
        let mut out = vec![(face, z, 0)];
        let mut q = 0;
        while q < out.len() {
            let (f, p, r) = out[q];
            q += 1;
            let l = edge_fn(p);
            for k in 0..3 {
                if l[k] == 2 * s {
                    let ed = self.edges[f][k];
                    let (g, p2, r2) = (ed.to, p.rot(ed.r) + ed.t.scale(s), (r + ed.r) % 6);
                    if !out.iter().any(|x| x.0 == g) {
                        out.push((g, p2, r2));
                    }
                }
            }
        }
        out
    }

    /// Place a valid cell; result folded onto the face containing its centre.
    pub fn place(&self, h: u64) -> Place {
        let r = res(h);
        let b = bc(h);
        let (mut face, mut z) = self.home[b];
        let mut rot = 0;
        if self.is_pent[b] {
            let ld = lead(h);
            if ld != 0 {
                let sec = SECTOR_DIGIT.iter().position(|d| *d == ld).expect("model: deleted digit");
                let (f, p) = self.pent[&b][sec];
                face = f;
                z = p;
                // direction from the vertex to the face centre is -p/2
                let toward = CCW.iter().copied().find(|d| UNIT[*d].scale(2) == e(0, 0) - p).unwrap();
                rot = (CCW_POS[toward] as i32 - CCW_POS[ld] as i32).rem_euclid(6);
            }
        }
        for q in 1..=r {
            z = z * alpha(q) + UNIT[rot_digit(digit(h, q), rot)];
        }
        let z2 = Self::to2(z, r);
        let s = pow7(Self::r2(r) / 2);
        let (f, z2, dr) = self.fold(face, z2, s);
        Place { face: f, z: Self::from2(z2, r), rot: (rot + dr) % 6 }
    }

    /// Canonical surface point of a placed cell (unique per cell).
    pub fn canon(&self, p: Place, r: i32) -> Pt {
        let s = pow7(Self::r2(r) / 2);
        let z2 = Self::to2(p.z, r);
        let (f, z, _) = self.reps(p.face, z2, s).into_iter().min().unwrap();
        Pt { face: f, z }
    }

    /// Locate the cell whose centre is the native lattice point z (any point of
    /// the extended plane of `face` at most a unit or two outside the face).
    /// Returns the index and the rotation taking `face`-frame directions to the
    /// cell's own digit directions (meaningless for a pentagon cell itself).
    pub fn locate(&self, face: usize, z: E, r: i32) -> (u64, i32) {
        let s = pow7(Self::r2(r) / 2);
        let (f, z2, rot) = self.fold(face, Self::to2(z, r), s);
        let mut z = Self::from2(z2, r);
        let mut ds = [0u8; 15];
        for q in (1..=r).rev() {
            let (z1, d) = up(z, q);
            z = z1;
            ds[(q - 1) as usize] = d as u8;
        }
        let (b, brot) = self.base_fast[Self::slot(f, z)];
        assert!(b != 255, "model: no base cell at face {f} {z:?}");
        let (b, brot) = (b as usize, brot as i32);
        let turn = if self.is_pent[b] {
            match ds[..r as usize].iter().copied().find(|d| *d != 0) {
                None => 0,
                Some(ld) => {
                    let mine = self.fan_fast[b * 20 + f] as usize;
                    let toward = CCW.iter().copied().find(|d| UNIT[*d].scale(2) == e(0, 0) - z).unwrap();
                    let off = (CCW_POS[ld as usize] as i32 - CCW_POS[toward] as i32).rem_euclid(6);
                    let off = if off > 3 { off - 6 } else { off };
                    assert!(off.abs() <= 1, "model: pentagon spill");
                    let sec = (mine as i32 + off).rem_euclid(5) as usize;
                    (CCW_POS[SECTOR_DIGIT[sec]] as i32 - CCW_POS[ld as usize] as i32).rem_euclid(6)
                }
            }
        } else {
            brot
        };
        for d in ds.iter_mut().take(r as usize) {
            *d = rot_digit(*d as usize, turn) as u8;
        }
        (mk(r, b, &ds), (rot + turn) % 6)
    }

    /// Neighbour of a cell in one of its own digit directions 1..=6, with the
    /// rotation taking the origin's directions to the neighbour's directions.
    /// None for the deleted direction of a pentagon.
    pub fn neighbor(&self, h: u64, d: usize) -> Option<(u64, i32)> {
        let r = res(h);
        if is_pent_cell(h) {
            let sec = SECTOR_DIGIT.iter().position(|x| *x == d)?;
            let (f, p) = self.pent[&bc(h)][sec];
            let mut z = p;
            for q in 1..=r {
                z = z * alpha(q);
            }
            let toward = CCW.iter().copied().find(|x| UNIT[*x].scale(2) == e(0, 0) - p).unwrap();
            let (g, rot) = self.locate(f, z + UNIT[toward], r);
            // origin frame direction d is `toward` in face frame
            let rr = (CCW_POS[toward] as i32 - CCW_POS[d] as i32 + rot).rem_euclid(6);
            return Some((g, rr));
        }
        let p = self.place(h);
        let (g, rot) = self.locate(p.face, p.z + UNIT[rot_digit(d, p.rot)], r);
        Some((g, (p.rot + rot) % 6))
    }

    /// Distinct neighbours (6, or 5 for a pentagon), in direction order 1..=6.
    pub fn neighbors(&self, h: u64) -> Vec<u64> {
        if is_pent_cell(h) {
            return (1..=6).filter_map(|d| self.neighbor(h, d).map(|x| x.0)).collect();
        }
        let r = res(h);
        let p = self.place(h);
        (1..=6)
            .map(|d| self.locate(p.face, p.z + UNIT[rot_digit(d, p.rot)], r).0)
            .collect()
    }

    // ------------------------------------------------------------ the sphere

    /// Unit vector of a point given in face-plane coordinates (res 0 units).
    pub fn plane_to_v(&self, f: usize, x: f64, y: f64) -> V3 {
        let mut v = [0.0; 3];
        for q in 0..3 {
            v[q] = self.n[f][q] + RES0_U * (x * self.ex[f][q] + y * self.ey[f][q]);
        }
        unit(v)
    }
    /// Unit vector of a cell centre.
    pub fn center(&self, h: u64) -> V3 {
        let r = res(h);
        let p = self.place(h);
        let s = pow7(Self::r2(r) / 2) as f64;
        let (x, y) = Self::to2(p.z, r).xy();
        self.plane_to_v(p.face, x / s, y / s)
    }
    /// Point at offset (num/den) * (native displacement w, in the cell's own
    /// directions) from the centre of a cell.  For a pentagon, w must point at
    /// most 30 degrees away from the direction of sector digit `sector`.
    pub fn offset_point(&self, h: u64, w: E, num: i64, den: i64, sector: usize) -> (usize, f64, f64) {
        let r = res(h);
        let s = pow7(Self::r2(r) / 2);
        let (f, z, rot) = if is_pent_cell(h) {
            let sec = SECTOR_DIGIT.iter().position(|x| *x == sector).unwrap();
            let (f, p) = self.pent[&bc(h)][sec];
            let mut z = p;
            for q in 1..=r {
                z = z * alpha(q);
            }
            let toward = CCW.iter().copied().find(|x| UNIT[*x].scale(2) == e(0, 0) - p).unwrap();
            (f, z, (CCW_POS[toward] as i32 - CCW_POS[sector] as i32).rem_euclid(6))
        } else {
            let p = self.place(h);
            (p.face, p.z, p.rot)
        };
        let zz = Self::to2(z.scale(den) + w.rot(rot).scale(num), r);
        let (f, zz, _) = self.fold(f, zz, s * den);
        let (x, y) = zz.xy();
        let q = (s * den) as f64;
        (f, x / q, y / q)
    }
    /// Nearest face of a unit vector, and the gap to the second nearest (dot products).
    pub fn nearest_face(&self, v: V3) -> (usize, f64) {
        let mut best = (-2.0, 0usize);
        let mut second = -2.0;
        for f in 0..20 {
            let d = dot(v, self.n[f]);
            if d > best.0 {
                second = best.0;
                best = (d, f);
            } else if d > second {
                second = d;
            }
        }
        (best.1, best.0 - second)
    }
    /// Face-plane coordinates (res 0 units) of a unit vector on face f.
    pub fn v_to_plane(&self, f: usize, v: V3) -> (f64, f64) {
        let w = dot(v, self.n[f]);
        (
            dot(v, self.ex[f]) / w / RES0_U,
            dot(v, self.ey[f]) / w / RES0_U,
        )
    }
    /// Cells whose closed hexagon contains the point, up to a tolerance `tol`
    /// in native lattice units: one when unambiguous.
    pub fn containing(&self, v: V3, r: i32, tol: f64) -> Vec<u64> {
        let (f, _) = self.nearest_face(v);
        let (mut x, mut y) = self.v_to_plane(f, v);
        // to native units
        let m = 7f64.powi(r / 2);
        x *= m;
        y *= m;
        if r & 1 == 1 {
            // multiply by ALPHA_ODD = 2 - w
            let (c, d) = ALPHA_ODD.xy();
            let (nx, ny) = (x * c - y * d, x * d + y * c);
            x = nx;
            y = ny;
        }
        let b = y / (3f64.sqrt() * 0.5);
        let a = x + b * 0.5;
        let (a0, b0) = (a.round() as i64, b.round() as i64);
        let mut c: Vec<(f64, E)> = Vec::new();
        for da in -2..=2 {
            for db in -2..=2 {
                let z = e(a0 + da, b0 + db);
                let (px, py) = z.xy();
                c.push(((px - x).hypot(py - y), z));
            }
        }
        c.sort_by(|p, q| p.0.partial_cmp(&q.0).unwrap());
        let mut out: Vec<u64> = Vec::new();
        for (d, z) in c.iter().take(4) {
            if d - c[0].0 <= 2.0 * tol {
                let h = self.locate(f, *z, r).0;
                if !out.contains(&h) {
                    out.push(h);
                }
            }
        }
        out
    }
}

// ---------------------------------------------------------------- descendants

/// First descendant of a valid cell at resolution cr (all new digits zero).
pub fn first_child(h: u64, cr: i32) -> u64 {
    let mut x = (h & !(15u64 << 52)) | ((cr as u64) << 52);
    for q in res(h) + 1..=cr {
        x = set_digit(x, q, 0);
    }
    x
}
/// The next descendant of `h` after `x` in index order.
pub fn next_child(h: u64, mut x: u64, cr: i32) -> Option<u64> {
    let pr = res(h);
    let pent = is_pent_cell(h);
    let mut q = cr;
    while q > pr {
        let mut d = digit(x, q) + 1;
        if d == 1 && pent && (pr + 1..q).all(|p| digit(x, p) == 0) {
            d = 2;
        }
        if d <= 6 {
            return Some(set_digit(x, q, d));
        }
        x = set_digit(x, q, 0);
        q -= 1;
    }
    None
}
/// The descendant at a position of the ordered enumeration.
pub fn nth_child(h: u64, cr: i32, mut pos: i64) -> u64 {
    let mut x = h;
    for q in res(h) + 1..=cr {
        let up = (x & !(15u64 << 52)) | ((q as u64) << 52);
        let mut found = false;
        for d in 0..7 {
            let c = set_digit(up, q, d);
            if d == 1 && is_pent_cell(x) {
                continue;
            }
            let n = n_children(c, cr);
            if pos < n {
                x = c;
                found = true;
                break;
            }
            pos -= n;
        }
        assert!(found, "model: position out of range");
    }
    x
}
