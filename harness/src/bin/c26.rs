//! C26: face addresses.
use h3_rs::h3_index::{_faceIjkToH3, _h3ToFaceIjk, _h3ToFaceIjkWithInitializedFijk, isResolutionClassIII};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

/// normalized coordinates of a lattice point
fn ijk(z: E) -> (i64, i64, i64) {
    let m = z.a.min(z.b).min(0);
    (z.a - m, z.b - m, -m)
}
fn s_of(r: i32) -> i64 {
    pow7(Model::r2(r) / 2)
}
/// the point in the even lattice
fn z2(z: E, r: i32) -> E {
    if r & 1 == 1 {
        z * ALPHA_EVEN
    } else {
        z
    }
}
fn inside(z: E, r: i32) -> bool {
    edge_fn(z2(z, r)).iter().all(|l| *l <= 2 * s_of(r))
}
fn canon(f: usize, z: E, r: i32) -> (usize, E) {
    let p = model().reps(f, z2(z, r), s_of(r)).into_iter().min().unwrap();
    (p.0, p.1)
}
/// position in the coarsest lattice
fn base_pos(mut z: E, r: i32) -> E {
    for q in (1..=r).rev() {
        z = up(z, q).0;
    }
    z
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let m = model();
    o.transitions += 1;
    match c.kind {
        0 => {
            let h = c.a[0];
            let r = res(h);
            let a = _h3ToFaceIjk(h).map_err(|e| format!("its face address is an error: {e:?}"))?;
            let (i, j, k) = (a.coord.i as i64, a.coord.j as i64, a.coord.k as i64);
            ensure!((0..20).contains(&a.face), "its face is {}", a.face);
            ensure!(i >= 0 && j >= 0 && k >= 0 && i.min(j).min(k) == 0, "its address on face {} is not normalized: {i} {j} {k}", a.face);
            let z = e(i - k, j - k);
            let p = m.place(h);
            ensure!(inside(z, r), "its address {i} {j} {k} is outside face {}", a.face);
            ensure!(
                canon(a.face as usize, z, r) == canon(p.face, p.z, r),
                "its address {i} {j} {k} on face {} is not its place: {:?} on face {}",
                a.face,
                ijk(p.z),
                p.face
            );
            let b = _faceIjkToH3(&a, r);
            ensure!(b == h, "its address {i} {j} {k} on face {} leads to {b:x}", a.face);
            o.transitions += 1;
            // the same position without unfolding
            let home = _h3ToFaceIjk(mk(0, bc(h), &[])).unwrap();
            let (hf, hz) = m.home[bc(h)];
            let mut q = home;
            q.face = hf as i32;
            let t = ijk(hz);
            q.coord.i = t.0 as i32;
            q.coord.j = t.1 as i32;
            q.coord.k = t.2 as i32;
            let over = _h3ToFaceIjkWithInitializedFijk(h, &mut q);
            let mut w = hz;
            for x in 1..=r {
                w = w * alpha(x) + UNIT[digit(h, x)];
            }
            let t = ijk(w);
            let got = (q.coord.i as i64, q.coord.j as i64, q.coord.k as i64);
            ensure!(got == t && q.face as usize == hf, "following its digits from its base cell leads to {got:?} on face {}, not {t:?} on face {hf}", q.face);
            ensure!(over || inside(w, r), "it is said to lie on face {hf} but does not");
            o.outcome(if over { "possible overage" } else { "no overage" });
        }
        1 => {
            // a lattice point of a face
            let (f, r) = (c.a[0] as usize, c.a[1] as i32);
            let z = e(c.a[2] as i64, c.a[3] as i64);
            let t = ijk(z);
            let mut q = _h3ToFaceIjk(mk(0, 0, &[])).unwrap();
            q.face = f as i32;
            q.coord.i = t.0 as i32;
            q.coord.j = t.1 as i32;
            q.coord.k = t.2 as i32;
            let got = _faceIjkToH3(&q, r);
            if inside(z, r) {
                let want = m.locate(f, z, r).0;
                ensure!(got == want, "the cell there is {want:x}, not {got:x}");
                let a = _h3ToFaceIjk(got).map_err(|e| format!("{e:?}"))?;
                let w = e(a.coord.i as i64 - a.coord.k as i64, a.coord.j as i64 - a.coord.k as i64);
                ensure!((0..20).contains(&a.face) && inside(w, r) && canon(a.face as usize, w, r) == canon(f, z, r), "its cell {got:x} is given the address {:?} on face {}", ijk(w), a.face);
                o.outcome("on the face");
            } else {
                let b = ijk(base_pos(z, r));
                if b.0 > 2 || b.1 > 2 || b.2 > 2 {
                    ensure!(got == 0, "it is out of range but leads to {got:x}");
                    o.outcome("out of range");
                } else {
                    o.outcome("outside, not compared");
                }
            }
        }
        _ => {
            for n in c.a[0]..c.a[1] {
                let r = n as u32 as i32;
                ensure!(isResolutionClassIII(r) == (r & 1 == 1), "resolution {r}: class III is {}", isResolutionClassIII(r));
            }
            o.transitions += c.a[1] - c.a[0];
        }
    }
    Ok(())
}
fn explore(e_: &mut Engine) {
    let th = e_.thorough;
    let d = if th {
        Domain { low: 8, runs: 4, dev: 3, win: 4, pent: 14, edge: 60, max_res: 15 }
    } else {
        Domain { low: 6, runs: 3, dev: 3, win: 3, pent: 8, edge: 40, max_res: 15 }
    };
    d.explore(e_, |h, cx| cx.run(case(0, &[h])));
    // every lattice point of a box around every face
    for r in 0..=(if th { 6 } else { 5 }) {
        // native lattice radius of the face corners, times two
        let n = (2.0 * 2.0 * 7f64.powf(r as f64 / 2.0) * 1.2).ceil() as i64 + 3;
        let side = (2 * n + 1) as u64;
        e_.phase(&format!("res {r}: all lattice points within {n} of the center of every face"), 20 * side, |i, cx| {
            let f = i / side;
            let a = (i % side) as i64 - n;
            for b in -n..=n {
                cx.obs.states += 1;
                cx.run(case(1, &[f, r as u64, a as u64, b as u64]));
            }
        });
    }
    // finer: around corners, edges and center of every face, and every power of two away
    for r in 5..16 {
        let s = s_of(r);
        let k = if th { 16 } else { 10 };
        e_.phase(&format!("res {r}: lattice points within {k} of marked places of every face"), 20, |f, cx| {
            let mut at: Vec<E> = vec![e(0, 0)];
            let vs = [UNIT[4], UNIT[2], UNIT[1]];
            let den = 16;
            for x in 0..=den {
                for y in 0..=(den - x) {
                    let w = [x, y, den - x - y];
                    let mut z = e(0, 0);
                    for q in 0..3 {
                        z = z + vs[q].scale(2 * s / den * w[q] + (2 * s % den) * w[q] / den);
                    }
                    at.push(z);
                }
            }
            for p in 0..30 {
                for q in 1..7 {
                    at.push(UNIT[q].scale(1 << p));
                }
            }
            for z in at {
                // a class III lattice is coarser by alpha
                let z = if r & 1 == 1 {
                    let q = z * ALPHA_EVEN.conj();
                    e(q.a.div_euclid(7), q.b.div_euclid(7))
                } else {
                    z
                };
                for a in -k..=k {
                    for b in -k..=k {
                        let z = z + e(a, b);
                        let t = ijk(z);
                        if t.0.max(t.1).max(t.2) > 1 << 28 {
                            continue;
                        }
                        cx.obs.states += 1;
                        cx.run(case(1, &[f, r as u64, z.a as u64, z.b as u64]));
                    }
                }
            }
        });
    }
    e_.phase("class of all 2^32 resolutions", 1 << 12, |i, cx| {
        cx.obs.states += 1 << 20;
        cx.run(case(2, &[i << 20, (i + 1) << 20]));
    });
}
fn main() {
    engine::main(Spec {
        id: "C26",
        rule: "states: distinct valid cells of the model's state space, lattice points of the faces, and resolutions; transitions: addresses compared with the model's exact lattice positions and turned back into cells",
        assumptions: &["resolutions above the exhaustive ones are covered by the families named in the phases", "addresses beyond the edge of their face are compared only when their base cell position is out of range"],
        check,
        describe: |c| match c.kind {
            0 => format!("face address of {}", cell_name(c.a[0])),
            1 => format!("address {:?} on face {} at resolution {}", ijk(e(c.a[2] as i64, c.a[3] as i64)), c.a[0], c.a[1]),
            _ => format!("class of resolutions {:#x}..{:#x}", c.a[0], c.a[1]),
        },
        explore,
        extra: no_extra,
    })
}
