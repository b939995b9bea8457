//! The finite sets of cells that the checks enumerate.

use crate::engine::{Ctx, Engine};
use crate::model::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

/// A cheap mixer for cell keys.
#[derive(Default)]
pub struct Mix(u64);
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        let y = (x ^ (x >> 31)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        self.0 = y ^ (y >> 29);
    }
}
pub type CellMap<V> = HashMap<u64, V, BuildHasherDefault<Mix>>;

/// All valid cells up to resolution `low`, plus for every finer resolution the
/// deviation-bounded families described in DESIGN.md.
#[derive(Clone)]
pub struct Domain {
    pub low: i32,
    /// digit paths made of at most `runs` constant runs
    pub runs: usize,
    /// digit paths differing from a constant path in at most `dev` places
    pub dev: usize,
    /// constant paths with one window of this many consecutive free digits
    pub win: usize,
    /// cells within this many steps of a pentagon
    pub pent: u32,
    /// cells along icosahedron edges: sample count per edge
    pub edge: i64,
    /// resolutions above `low` that are covered
    pub max_res: i32,
}

fn push_runs(r: usize, runs: usize, out: &mut Vec<[u8; 15]>) {
    fn rec(r: usize, pos: usize, left: usize, prev: u8, ds: &mut [u8; 15], out: &mut Vec<[u8; 15]>) {
        if pos == r {
            out.push(*ds);
            return;
        }
        if left == 0 {
            return;
        }
        for d in 0..7u8 {
            if d == prev {
                continue;
            }
            for end in (pos + 1)..=r {
                if left == 1 && end != r {
                    continue;
                }
                for q in pos..end {
                    ds[q] = d;
                }
                rec(r, end, left - 1, d, ds, out);
            }
        }
    }
    rec(r, 0, runs, 9, &mut [0; 15], out);
}
fn push_dev(r: usize, dev: usize, out: &mut Vec<[u8; 15]>) {
    fn rec(r: usize, pos: usize, left: usize, bg: u8, ds: &mut [u8; 15], out: &mut Vec<[u8; 15]>) {
        out.push(*ds);
        if left == 0 {
            return;
        }
        for p in pos..r {
            for d in 0..7u8 {
                if d != bg {
                    ds[p] = d;
                    rec(r, p + 1, left - 1, bg, ds, out);
                    ds[p] = bg;
                }
            }
        }
    }
    for bg in 0..7u8 {
        let mut ds = [bg; 15];
        rec(r, 0, dev, bg, &mut ds, out);
    }
}

fn push_win(r: usize, win: usize, out: &mut Vec<[u8; 15]>) {
    let w = win.min(r);
    for bg in 0..7u8 {
        for p in 0..=(r - w) {
            for n in 0..pow7(w as i32) {
                let mut ds = [bg; 15];
                let mut n = n;
                for q in p..p + w {
                    ds[q] = (n % 7) as u8;
                    n /= 7;
                }
                out.push(ds);
            }
        }
    }
}

/// Periodic paths (periods 2 to `per`), the shorter periods also behind zeros.
fn push_periodic(r: usize, per: usize, out: &mut Vec<[u8; 15]>) {
    for w in 2..=per {
        for n in 0..pow7(w as i32) {
            let mut word = [0u8; 8];
            let mut m = n;
            for q in 0..w {
                word[q] = (m % 7) as u8;
                m /= 7;
            }
            for zeros in 0..if w <= 3 { r } else { 1 } {
                let mut ds = [0u8; 15];
                for q in zeros..r {
                    ds[q] = word[(q - zeros) % w];
                }
                out.push(ds);
            }
        }
    }
}

/// Digit paths of length r in the deviation-bounded families, without duplicates.
pub fn paths(r: i32, runs: usize, dev: usize, win: usize) -> Vec<[u8; 15]> {
    let mut v = Vec::new();
    if runs > 0 {
        push_runs(r as usize, runs, &mut v);
    }
    if dev > 0 {
        push_dev(r as usize, dev, &mut v);
    }
    if win > 0 {
        push_win(r as usize, win, &mut v);
    }
    if dev > 0 {
        push_periodic(r as usize, dev + 2, &mut v);
    }
    for d in v.iter_mut() {
        for q in (r as usize)..15 {
            d[q] = 7;
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn ball(h: u64, k: u32) -> Vec<(u64, u32)> {
    let m = model();
    let mut seen: CellMap<()> = CellMap::default();
    let mut order = vec![(h, 0)];
    seen.insert(h, ());
    let mut i = 0;
    while i < order.len() {
        let (x, d) = order[i];
        i += 1;
        if d == k {
            continue;
        }
        for y in m.neighbors(x) {
            if seen.insert(y, ()).is_none() {
                order.push((y, d + 1));
            }
        }
    }
    order
}

pub fn pentagons(r: i32) -> Vec<u64> {
    (0..122).filter(|b| model().is_pent[*b]).map(|b| mk(r, b, &[0; 15])).collect()
}

/// Cells around points spread evenly along the 30 icosahedron edges.
pub fn edge_cells(r: i32, n: i64) -> Vec<u64> {
    let m = model();
    let s = pow7(Model::r2(r) / 2);
    let vert = [UNIT[4], UNIT[2], UNIT[1]];
    let ev = [(0, 1), (1, 2), (2, 0)];
    let mut out = Vec::new();
    for f in 0..20 {
        for (k, (p, q)) in ev.iter().enumerate() {
            if m.edges[f][k].to < f {
                continue;
            }
            for i in 0..=n {
                // substrate point on the edge, at fraction i/n
                let z2 = vert[*p].scale(2 * s * (n - i) / n) + vert[*q].scale(2 * s - 2 * s * (n - i) / n);
                // nearest native lattice point
                let z = if r & 1 == 1 {
                    let q = z2 * ALPHA_EVEN.conj();
                    e((q.a as f64 / 7.0).round() as i64, (q.b as f64 / 7.0).round() as i64)
                } else {
                    z2
                };
                let (h, _) = m.locate(f, z, r);
                out.push(h);
                for g in m.neighbors(h) {
                    out.push(g);
                }
            }
        }
    }
    out
}

/// Cells around points spread evenly over all 20 faces, `n` steps along each edge.
pub fn face_cells(r: i32, n: i64) -> Vec<u64> {
    let m = model();
    let s = pow7(Model::r2(r) / 2);
    let mut out = Vec::new();
    for f in 0..20 {
        for x in 0..=n {
            for y in 0..=n - x {
                // i, j, k corners at weights x, y and the rest
                let (a, b) = (2 * s * x / n, 2 * s * y / n);
                let z2 = UNIT[4].scale(a) + UNIT[2].scale(b) + UNIT[1].scale(2 * s - a - b);
                let z = if r & 1 == 1 {
                    let q = z2 * ALPHA_EVEN.conj();
                    e((q.a as f64 / 7.0).round() as i64, (q.b as f64 / 7.0).round() as i64)
                } else {
                    z2
                };
                out.push(m.locate(f, z, r).0);
            }
        }
    }
    out
}

/// Cells at special places of the sphere: poles, points of the antimeridian, the
/// Greenwich meridian and the equator, face centres, and `k` steps around them.
pub fn special_cells(r: i32, k: u32) -> Vec<u64> {
    use std::f64::consts::PI;
    let m = model();
    let mut pts: Vec<V3> = vec![[0.0, 0.0, 1.0], [0.0, 0.0, -1.0]];
    pts.extend(m.n);
    for i in -5..=5 {
        let la = i as f64 * PI / 12.0;
        for j in 0..4 {
            pts.push(ll_to_v(la, j as f64 * PI / 2.0 - PI));
        }
    }
    let mut out = Vec::new();
    for (i, v) in pts.into_iter().enumerate() {
        let kk = if i < 22 { k } else { 1 };
        for h in m.containing(v, r, 1e-6) {
            out.extend(ball(h, kk).into_iter().map(|x| x.0));
        }
    }
    out
}

impl Domain {
    pub fn extras(&self, r: i32) -> HashMap<usize, Vec<u64>> {
        let mut v: Vec<u64> = Vec::new();
        if self.pent > 0 {
            for p in pentagons(r) {
                v.extend(ball(p, self.pent).into_iter().map(|x| x.0));
            }
        }
        if self.edge > 0 {
            v.extend(edge_cells(r, self.edge));
            v.extend(face_cells(r, match self.edge {
                100.. => 600,
                40.. => 300,
                _ => 120,
            }));
        }
        v.extend(special_cells(r, self.pent.min(8)));
        let mut m: HashMap<usize, Vec<u64>> = HashMap::new();
        for h in v {
            m.entry(bc(h)).or_default().push(h);
        }
        m
    }

    /// Run `f` on every cell of the domain; counts each distinct cell once as a state.
    pub fn explore<F>(&self, eng: &mut Engine, f: F)
    where
        F: Fn(u64, &mut Ctx) + Sync,
    {
        for r in 0..=self.low {
            let per = pow7(r.min(3));
            let tail = pow7(r - r.min(3));
            eng.phase(&format!("all cells of resolution {r}"), 122 * per as u64, |i, cx| {
                let b = (i as i64 / per) as usize;
                let head = i as i64 % per;
                let mut ds = [7u8; 15];
                for t in 0..tail {
                    let mut n = head * tail + t;
                    for q in (0..r).rev() {
                        ds[q as usize] = (n % 7) as u8;
                        n /= 7;
                    }
                    let h = mk(r, b, &ds);
                    if valid_cell(h) {
                        cx.obs.states += 1;
                        f(h, cx);
                        if cx.stopped() {
                            return;
                        }
                    }
                }
            });
        }
        for r in (self.low + 1)..=self.max_res {
            let ps = paths(r, self.runs, self.dev, self.win);
            let ex = self.extras(r);
            let none = Vec::new();
            const CH: usize = 512;
            let chunks = ps.len().div_ceil(CH).max(1);
            eng.phase(
                &format!("res {r}: <={} runs, <={} deviations, window {}, periodic, special places", self.runs, self.dev, self.win),
                122 * chunks as u64,
                |i, cx| {
                    let b = i as usize / chunks;
                    let c = i as usize % chunks;
                    for d in ps.iter().skip(c * CH).take(CH) {
                        let h = mk(r, b, d);
                        if valid_cell(h) {
                            cx.obs.states += 1;
                            f(h, cx);
                            if cx.stopped() {
                                return;
                            }
                        }
                    }
                    if c == 0 {
                        let mut e: Vec<u64> = ex.get(&b).unwrap_or(&none).clone();
                        e.sort_unstable();
                        e.dedup();
                        for h in e {
                            let mut ds = [7u8; 15];
                            for q in 1..=r {
                                ds[(q - 1) as usize] = digit(h, q) as u8;
                            }
                            if ps.binary_search(&ds).is_ok() {
                                continue;
                            }
                            cx.obs.states += 1;
                            f(h, cx);
                            if cx.stopped() {
                                return;
                            }
                        }
                    }
                },
            );
        }
    }
}

/// Distances of all cells within `k` steps as a map; and the smallest distance to a pentagon.
pub fn ball_map(h: u64, k: u32) -> (Vec<(u64, u32)>, Option<u32>) {
    let b = ball(h, k);
    let p = b.iter().filter(|x| is_pent_cell(x.0)).map(|x| x.1).min();
    (b, p)
}

/// Origins and largest radius for the disk and ring checks.
/// `scale` 0: quick, 1: thorough.
pub fn disk_jobs(thorough: bool) -> Vec<(String, Vec<(u64, u32)>)> {
    let all = |r: i32, k: u32| -> Vec<(u64, u32)> {
        let mut v = Vec::new();
        for b in 0..122 {
            let root = mk(0, b, &[]);
            let mut x = Some(first_child(root, r));
            while let Some(h) = x {
                v.push((h, k));
                x = next_child(root, h, r);
            }
        }
        v
    };
    let mut out = Vec::new();
    let kk: [u32; 6] = if thorough { [30, 30, 15, 7, 4, 2] } else { [20, 26, 12, 6, 3, 1] };
    for r in 0..6 {
        if kk[r] > 0 {
            out.push((format!("all cells of resolution {r}, k <= {}", kk[r]), all(r as i32, kk[r])));
        }
    }
    // whole-globe disks at resolutions 1 and 2
    let mut v: Vec<(u64, u32)> = Vec::new();
    for b in [0, 4, 14, 20, 58, 71, 117, 121] {
        v.push((mk(1, b, &[0; 15]), 26));
        v.push((mk(1, b, &[3; 15]), 26));
        v.push((mk(2, b, &[5; 15]), if thorough { 64 } else { 30 }));
    }
    out.push(("whole-globe disks at resolutions 1 and 2".to_string(), v));
    // pentagon neighborhoods at every resolution
    let (near, k) = if thorough { (9, 16) } else { (6, 12) };
    for r in 2..16 {
        let mut v: Vec<u64> = Vec::new();
        for p in pentagons(r) {
            v.extend(ball(p, near).into_iter().map(|x| x.0));
        }
        v.sort_unstable();
        v.dedup();
        out.push((format!("res {r}: cells within {near} of a pentagon, k <= {k}"), v.into_iter().map(|h| (h, k)).collect()));
    }
    // pentagons a little farther away: only large radii reach them
    let (far, k) = if thorough { (24, 26) } else { (14, 15) };
    for r in [3, 4, 5, 8, 11, 15] {
        let mut v: Vec<u64> = Vec::new();
        for p in pentagons(r) {
            // a thin set of origins: every 5th cell of the outer shells
            v.extend(ball(p, far).into_iter().filter(|x| x.1 + 2 >= far).map(|x| x.0).step_by(5));
        }
        v.sort_unstable();
        v.dedup();
        out.push((format!("res {r}: cells {far} away from a pentagon, k <= {k}"), v.into_iter().map(|h| (h, k)).collect()));
    }
    // face edges, poles, and the digit-path families
    let k = if thorough { 8 } else { 4 };
    for r in 3..16 {
        let mut v = edge_cells(r, if thorough { 30 } else { 16 });
        v.extend(special_cells(r, 1));
        let ps = if thorough { paths(r, 2, 1, 2) } else { paths(r, 2, 0, 0) };
        for b in 0..122 {
            if !thorough && b % 2 != (r as usize) % 2 {
                continue;
            }
            for d in &ps {
                let h = mk(r, b, d);
                if valid_cell(h) {
                    v.push(h);
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        out.push((format!("res {r}: face edges, poles, digit-path families, k <= {k}"), v.into_iter().map(|h| (h, k)).collect()));
    }
    out
}

/// Values that differ from the cell or one of its neighbors in one bit, one digit or the
/// base cell, and are none of them.
pub fn near_misses(h: u64) -> Vec<u64> {
    let nb = model().neighbors(h);
    let mut v = Vec::new();
    for x in nb.iter().copied().chain([h]) {
        v.extend((0..64).map(|b| x ^ 1u64 << b));
        for q in 1..=res(h) {
            v.extend((0..7).map(|d| set_digit(x, q, d)));
        }
        for b in (0..122u64).step_by(if x == h { 1 } else { 7 }) {
            v.push(x & !(127 << 45) | b << 45);
        }
        for r in 0..16u64 {
            v.push(x & !(15 << 52) | r << 52);
        }
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|x| !nb.contains(x));
    v
}
/// Cells for checks of many values each
pub fn thin_cells(thorough: bool) -> Vec<u64> {
    let mut v = Vec::new();
    for r in 0..16 {
        for b in 0..122 {
            let far = model().is_pent[b] || b % 5 == r as usize % 5;
            for d in 0..7u8 {
                v.push(mk(r, b, &[d; 15]));
                for p in 1..=r as usize {
                    if !thorough && !far && p < r as usize {
                        continue;
                    }
                    for x in 0..7u8 {
                        let mut ds = [d; 15];
                        ds[p - 1] = x;
                        v.push(mk(r, b, &ds));
                    }
                }
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|h| valid_cell(*h));
    v
}
/// The cell a steps towards the middle of a face from a pentagon, then b <= a steps
/// to one side (half a face at most): a + b steps from the pentagon.
pub fn off_pentagon(p: u64, sec: usize, a: i64, b: i64, left: bool) -> u64 {
    let m = model();
    let r = res(p);
    let (f, z0) = m.pent[&bc(p)][sec];
    let mut z = z0;
    for q in 1..=r {
        z = z * alpha(q);
    }
    let toward = CCW.iter().copied().find(|x| UNIT[*x].scale(2) == e(0, 0) - z0).unwrap();
    let t = UNIT[toward];
    m.locate(f, z + t.scale(a) + t.rot(if left { 1 } else { 5 }).scale(b), r).0
}
/// The ring of radius k in walking order, by carrying the direction along; there must be
/// no pentagon within k steps.
pub fn walk_ring(h: u64, k: u32) -> Vec<u64> {
    let m = model();
    let (mut x, mut rot) = (h, 0);
    let mut step = |d: usize| {
        let (y, r) = m.neighbor(x, rot_digit(d, rot)).expect("model: a ring through a pentagon");
        x = y;
        rot = (rot + r) % 6;
        y
    };
    for _ in 0..k {
        step(CCW[0]);
    }
    let mut out = Vec::with_capacity(6 * k as usize);
    for side in 0..6 {
        for _ in 0..k {
            out.push(step(CCW[(side + 2) % 6]));
        }
    }
    out
}
fn hex_dist(z: E) -> i64 {
    z.a.abs().max(z.b.abs()).max((z.a - z.b).abs())
}
/// Cells spread over the faces, those next to the face centers among them, with the distance
/// to the nearest pentagon: on the unfolded surface it is a corner of the face, or the corner
/// of an adjacent face that lies across an edge.
pub fn spread_cells(r: i32, n: i64, faces: &[usize]) -> Vec<(u64, u64)> {
    let m = model();
    let mut out = Vec::new();
    let mut c = [4, 2, 1].map(|d| UNIT[d].scale(2));
    for q in 1..=r {
        c = c.map(|z| z * alpha(q));
    }
    let mut at = Vec::new();
    for i in 0..=n {
        for j in 0..=n - i {
            let sum = c[0].scale(i) + c[1].scale(j) + c[2].scale(n - i - j);
            at.push(e(sum.a.div_euclid(n), sum.b.div_euclid(n)));
        }
    }
    for d in 0..7 {
        for e in 0..7 {
            at.push(UNIT[d] + UNIT[e]);
            at.push(UNIT[d].scale(1 + (1 << r.min(12)) / 10) + UNIT[e]);
        }
    }
    for f in faces {
        for z in &at {
            let d = (0..3).map(|k| hex_dist(c[k] - *z).min(hex_dist(c[(k + 1) % 3] + c[(k + 2) % 3] - c[k] - *z))).min().unwrap();
            if d > 1 {
                out.push((m.locate(*f, *z, r).0, d as u64));
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}
/// (cell, distance to the nearest pentagon), some of it very large
pub fn remote(thorough: bool, most: u64) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    for r in 5..16 {
        let s = 7f64.powf(r as f64 / 2.0);
        let ps = pentagons(r);
        for (n, d) in [200u64, 257, 500, 1000, 2500, 4096, 10_000, 32_768, 65_535, 65_536, 65_537, 100_003, 131_072, 200_000, 524_289].into_iter().enumerate() {
            if d > most || d as f64 > 0.5 * s {
                continue;
            }
            for (i, p) in ps.iter().enumerate() {
                if !thorough && (i + n + r as usize) % 4 != 0 {
                    continue;
                }
                let b = [0, d / 3, d / 2, 1][(i + n) % 4];
                v.push((off_pentagon(*p, (i + n) % 5, (d - b) as i64, b as i64, i % 2 == 0), d));
            }
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    v
}

/// Origins with a few large radii each (zero: unused): long walks without a
/// pentagon, pentagons first met at a large distance, whole globes.
pub fn far_jobs(thorough: bool) -> Vec<(String, Vec<(u64, [u64; 5])>)> {
    let mut out = Vec::new();
    // walks of hundreds of steps inside and across base cells
    let mut v = Vec::new();
    for r in 6..16 {
        for (n, b) in [(0usize, 16usize), (1, 40), (2, 66), (3, 101), (4, 9), (5, 31)] {
            if !thorough && n as i32 % 2 != r % 2 {
                continue;
            }
            let d = [[3u8; 15], [1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6, 1, 2, 3], [6; 15], [0; 15], [2, 0, 5, 0, 3, 0, 4, 0, 6, 0, 1, 0, 2, 0, 5], [5; 15]][n];
            let h = mk(r, b, &d);
            v.push((h, [31, 32, 33, 63, 64]));
            v.push((h, [65, 100, 127, 128, 129]));
            v.push((h, [147, 148, 181, 182, 255]));
            v.push((h, [256, 257, 0, 0, 0]));
        }
        if thorough || r % 3 == 0 {
            v.push((mk(r, 27 + r as usize, &[4; 15]), [590, 591, 600, 0, 0]));
        }
    }
    out.push(("radii up to 257 (some 600) at resolutions 6 to 15".to_string(), v));
    let mut v = Vec::new();
    for r in [4, 5, 7, 10, 13, 15] {
        for (n, p) in pentagons(r).into_iter().enumerate() {
            if !thorough && n % 3 != r as usize % 3 {
                continue;
            }
            // a straight walk away from the pentagon
            let m = model();
            let (mut a, mut x) = (p, m.neighbors(p)[n % 5]);
            let mut d = 1u64;
            let stops: &[u64] = if r < 6 { &[20, 33] } else { &[20, 33, 64, 100, 129] };
            for stop in stops {
                while d < *stop {
                    // the neighbor that is not next to the previous cell nor to its neighbors
                    let near = m.neighbors(a);
                    let y = m.neighbors(x).into_iter().find(|y| *y != a && !near.contains(y) && m.neighbors(*y).iter().filter(|z| near.contains(z)).count() == 1);
                    let Some(y) = y else { break };
                    a = x;
                    x = y;
                    d += 1;
                }
                v.push((x, [d - 1, d, d + 1, d + 6, d + d / 2]));
            }
        }
    }
    out.push(("cells 20 to 129 steps from a pentagon".to_string(), v));
    let mut v = Vec::new();
    for r in 0..=(if thorough { 6 } else { 5 }) {
        let root = if r < 2 { 0 } else { 1 };
        for b in 0..122 {
            if r >= 2 && b % [1, 1, 5, 20, 61, 122, 122][r as usize] != 0 {
                continue;
            }
            for d in if root == 0 { 0..7 } else { 3..4u8 } {
                let h = mk(r, b, &[d; 15]);
                if valid_cell(h) && (r > 0 || d == 0) {
                    v.push((h, [300, 1000, 65_536, 13_780_510, u32::MAX as u64]));
                }
            }
        }
    }
    out.push(("radii larger than the globe".to_string(), v));
    out
}
