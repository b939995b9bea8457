//! C22: malformed indexes never crash or hang a query.
use h3_rs::algos::*;
use h3_rs::directed_edge::*;
use h3_rs::error::Error;
use h3_rs::h3_index::*;
use h3_rs::iterators::IterCellsChildren;
use h3mc::domain::pentagons;
use h3mc::engine::*;
use h3mc::model::{mk, model, valid_cell};
use h3mc::*;
use std::hint::black_box as bb;

const GROUPS: [&str; 10] = [
    "validation and fields",
    "cellToLatLng",
    "h3NeighborRotations in every direction after 0..11 turns",
    "directionForNeighbor and the edge queries",
    "gridDiskDistances for k = 0, 1, 2",
    "gridDiskDistancesUnsafe and gridRingUnsafe for k = 0..3",
    "child counts, children and child positions",
    "child iterator steps",
    "gridDiskDistances for k = 3..7",
    "disks and rings with radii up to 2^32 - 1",
];

/// values used as the other argument of two-argument queries
fn partners(h: u64) -> [u64; 8] {
    [h, !h, h ^ (1 << 45), h ^ 1, (h & !(127 << 56)) | (1 << 59), (h & !(127 << 56)) | (2 << 59) | (1 << 56), 0x8009fffffffffff, 0]
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let bc = (h >> 45) & 127;
    let r = ((h >> 52) & 15) as i32;
    o.transitions += 1;
    match c.kind {
        0 => {
            bb(isValidCell(h));
            bb(isValidDirectedEdge(h));
            bb(getResolution(h));
            bb(isPentagon(h));
            bb((H3_GET_HIGH_BIT(h), H3_GET_MODE(h), H3_GET_RESERVED_BITS(h), H3_GET_BASE_CELL(h)));
            for q in 1..=15 {
                bb(H3_GET_INDEX_DIGIT(h, q));
            }
        }
        1 => {
            let x = cellToLatLng(h);
            o.mark(x.is_ok() as usize);
            if bc > 121 {
                ensure!(matches!(x, Err(Error::CellInvalid)), "base cell {bc}, but cellToLatLng gives {:?}", x.map(|p| (p.lat, p.lng)));
            }
        }
        2 => {
            for d in 0..8usize {
                for t in 0..12 {
                    let mut rot = t;
                    let x = h3NeighborRotations(h, dir!(d), &mut rot);
                    o.mark(2 + x.is_ok() as usize);
                    if bc > 121 && (1..7).contains(&d) {
                        ensure!(x == Err(Error::CellInvalid), "base cell {bc}, but moving in direction {d} after {t} turns gives {x:?}");
                    }
                }
            }
        }
        3 => {
            bb(directionForNeighbor(h, h));
            for x in partners(h) {
                bb(directionForNeighbor(h, x));
                bb(directionForNeighbor(x, h));
                bb(cellsToDirectedEdge(h, x).is_ok());
                bb(cellsToDirectedEdge(x, h).is_ok());
            }
            bb(getDirectedEdgeOrigin(h).is_ok());
            bb(getDirectedEdgeDestination(h).is_ok());
            bb(directedEdgeToCells(h).is_ok());
            bb(originToDirectedEdges(h));
            for v in 0..8u64 {
                // the same body as an edge
                let e = (h & !(127 << 56)) | (2 << 59) | (v << 56);
                bb(isValidDirectedEdge(e));
                o.mark(4 + getDirectedEdgeDestination(e).is_ok() as usize);
                bb(directedEdgeToCells(e).is_ok());
            }
        }
        4 => {
            for k in 0..=2 {
                let x = gridDiskDistances(h, k);
                o.mark(6 + x.is_ok() as usize);
            }
        }
        5 => {
            for k in 0..=3 {
                let x = gridDiskDistancesUnsafe(h, k);
                o.mark(8 + x.is_ok() as usize);
                let x = gridRingUnsafe(h, k);
                o.mark(10 + x.is_ok() as usize);
            }
        }
        6 => {
            for cr in (-1..=17).chain([i32::MIN, i32::MAX, 100]) {
                let n = cellToChildrenSize(h, cr);
                o.mark(12 + n.is_ok() as usize);
                if cr <= r + 2 {
                    bb(cellToChildren(h, cr).map(|v| v.len()).unwrap_or(0));
                }
                let n = n.unwrap_or(0);
                for p in [0, 1, 2, 7, 48, n / 2, n - 2, n - 1, n, n + 1, -1, i64::MIN, i64::MAX] {
                    bb(validateChildPos(p, h, cr).is_ok());
                    bb(childPosToCell(p, h, cr).is_ok());
                }
            }
        }
        8 => {
            for k in 3..=7 {
                let x = gridDiskDistances(h, k);
                o.mark(6 + x.is_ok() as usize);
                let x = gridRingUnsafe(h, k);
                o.mark(10 + x.is_ok() as usize);
            }
        }
        9 => {
            for k in [100, 65_535, 1 << 20, u32::MAX] {
                let x = gridDiskDistancesUnsafe(h, k);
                o.mark(8 + x.is_ok() as usize);
                let x = gridRingUnsafe(h, k);
                o.mark(10 + x.is_ok() as usize);
                let x = gridDiskDistances(h, k);
                o.mark(6 + x.is_ok() as usize);
            }
        }
        _ => {
            for cr in (-1..=17).chain([i32::MIN, i32::MAX]) {
                let mut it = IterCellsChildren::from_parent(h, cr);
                for _ in 0..120 {
                    if bb(it.next()).is_none() {
                        break;
                    }
                }
                bb(it.next());
            }
        }
    }
    Ok(())
}
fn head(x: u64, r: u64, bc: u64) -> u64 {
    // x: high bit, mode, reserved
    (x << 56) | (r << 52) | (bc << 45)
}
fn digits(d: u64, n: u64) -> u64 {
    let mut x = 0;
    for q in 0..15 {
        x |= (if q < n { d } else { 7 }) << ((14 - q) * 3);
    }
    x
}
fn put(h: u64, q: u64, d: u64) -> u64 {
    let s = (14 - q) * 3;
    (h & !(7 << s)) | (d << s)
}
fn all(h: u64, cx: &mut Ctx) {
    cx.obs.states += 1;
    for k in 0..8 {
        cx.run(case(k, &[h]));
        if cx.stopped() {
            return;
        }
    }
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    e.phase("all 524288 headers x digit strings", 128 * 16, |i, cx| {
        let (b, r) = (i / 16, i % 16);
        for x in 0..256 {
            let hd = head(x, r, b);
            let some: &[(u64, u64)] = if x == 8 || th { &[(0, 0), (0, 15), (1, 15), (4, 15), (5, 15), (0, 1), (6, 2), (7, 15)] } else { &[(0, 15), (7, 15)] };
            for &(d, n) in some {
                all(hd | digits(d, n), cx);
            }
            all(hd | digits((x + b) % 7, r), cx);
            if cx.stopped() {
                return;
            }
        }
    });
    let reps: Vec<u64> = if th { (0..128).collect() } else { vec![0, 4, 7, 8, 14, 20, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117, 118, 121, 122, 127] };
    e.phase("resolution x base cell x one digit deviation", 16 * 128, |i, cx| {
        let (r, b) = (i / 128, i % 128);
        let bgs: &[u64] = if th { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 4, 6] };
        for &bg in bgs {
            let base = head(8, r, b) | digits(bg, r);
            for p in 0..15 {
                for d in 0..8 {
                    all(put(base, p, d), cx);
                }
            }
            if cx.stopped() {
                return;
            }
        }
    });
    let nr = reps.len() as u64;
    e.phase("resolution x base cell x two digit deviations", 16 * nr, |i, cx| {
        let (r, b) = (i / nr, reps[(i % nr) as usize]);
        let base = head(8, r, b) | digits(0, r);
        for p in 0..r {
            for q in p + 1..r {
                for d in 1..8 {
                    for f in 1..8 {
                        all(put(put(base, p, d), q, f), cx);
                    }
                }
            }
            if cx.stopped() {
                return;
            }
        }
    });
    // whole digit spaces of the low resolutions, deleted subsequences and digit 7 included
    let top = if th { 5 } else { 3 };
    e.phase(&format!("every digit string (0..7) of resolutions 0..{top}"), 128, |b, cx| {
        for r in 0..=top {
            for n in 0..1u64 << (3 * r) {
                let s = 45 - 3 * r;
                all(head(8, r, b) | (n << s) | ((1 << s) - 1), cx);
            }
            if cx.stopped() {
                return;
            }
        }
    });
    // larger disks, which start in or reach deleted subsequences
    let top = if th { 4 } else { 3 };
    e.phase(&format!("disks of radius 3..7 around every digit string (0..7) of resolutions 0..{top}, pentagons and their surroundings"), 122, |b, cx| {
        for r in 0..=top {
            for n in 0..1u64 << (3 * r) {
                let s = 45 - 3 * r;
                cx.obs.states += 1;
                cx.run(case(8, &[head(8, r, b) | (n << s) | ((1 << s) - 1)]));
            }
            if cx.stopped() {
                return;
            }
        }
    });
    e.phase("radii up to 2^32 - 1 around digit strings (0..7) of resolutions 0..2", 256 * 128, |i, cx| {
        let (x, b) = (i / 128, i % 128);
        for r in 0..=2 {
            if r > 0 && x != 8 && x != 0x11 {
                continue;
            }
            for n in 0..1u64 << (3 * r) {
                if r == 2 && !th && n % 8 != b % 8 {
                    continue;
                }
                let s = 45 - 3 * r;
                cx.obs.states += 1;
                cx.run(case(9, &[head(x, r, b) | (n << s) | ((1 << s) - 1)]));
            }
            if cx.stopped() {
                return;
            }
        }
    });
    // neighborhoods of pentagons with every short digit suffix
    let w = if th { 4 } else { 2 };
    let pents: Vec<u64> = (0..16).flat_map(pentagons).collect();
    e.phase("pentagon base cells: every window of digits (0..7)", pents.len() as u64, |i, cx| {
        let h = pents[i as usize];
        let r = (h >> 52) & 15;
        if r < w {
            return;
        }
        for p in 0..=(r - w) {
            for n in 0..1u64 << (3 * w) {
                let s = 45 - 3 * (p + w);
                all((h & !(((1 << (3 * w)) - 1) << s)) | (n << s), cx);
            }
            if cx.stopped() {
                return;
            }
        }
    });
    let mut cells: Vec<u64> = pents.clone();
    for r in 0..16 {
        for b in [0, 14, 20, 58, 121] {
            for d in 1..7 {
                let h = mk(r, b, &[d; 15]);
                if valid_cell(h) {
                    cells.push(h);
                }
            }
        }
    }
    e.phase("one- and two-bit flips of valid cells and edges", cells.len() as u64, |i, cx| {
        for h in [cells[i as usize], (cells[i as usize] & !(127 << 56)) | (2 << 59) | (2 << 56)] {
            for a in 0..64 {
                all(h ^ (1 << a), cx);
                if th || i % 4 == 0 {
                    for b in a + 1..64 {
                        all(h ^ (1 << a) ^ (1 << b), cx);
                    }
                }
            }
            if cx.stopped() {
                return;
            }
        }
    });
    e.phase("uniform patterns", 64, |i, cx| {
        for b in 0..64 {
            // runs of ones and zeros
            let x = (!0u64 >> i) & (!0u64).wrapping_shl(b as u32);
            all(x, cx);
            all(!x, cx);
        }
        all(i.wrapping_mul(0x0101010101010101), cx);
        all(i.wrapping_mul(0x1111111111111111), cx);
        all(!0 - i, cx);
        all(i, cx);
    });
}
fn main() {
    let _ = model();
    engine::main(Spec {
        id: "C22",
        rule: "states: 64-bit values of the stated families, which overlap a little (every header; every digit string of low resolutions with digit 7 and deleted subsequences; digit deviations and windows; bit flips; runs); each is given to every query with small radii and depths, under a monitor that turns a panic, an abort or a hang (45 s) into a violation, and base cells above 121 must be rejected by the center query and every move",
        assumptions: &["digits are examined through the families, not all 2^45 strings", "children are enumerated two levels deep or 120 steps far"],
        check,
        describe: |c| format!("{} of {:#x}", GROUPS[c.kind.min(9) as usize], c.a[0]),
        explore,
        extra: |o| vec![("query_results_seen".to_string(), o.cover.first().copied().unwrap_or(0).count_ones().to_string())],
    })
}
