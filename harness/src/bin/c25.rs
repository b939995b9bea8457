//! C25: base cell data.
use h3_rs::base_cells::*;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

/// every neighbor of the pentagon b has it in its own direction 4
fn polar(b: usize) -> bool {
    let m = model();
    let p = mk(0, b, &[]);
    m.is_pent[b] && m.neighbors(p).iter().all(|x| m.neighbor(*x, 4).map(|y| y.0) == Some(p))
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let m = model();
    match c.kind {
        0 => {
            // a block of base cell numbers
            for n in c.a[0]..c.a[0] + 65536 {
                let b = n as u32 as i32;
                let known = (0..122).contains(&b);
                let (p, q) = (known && m.is_pent[b as usize], known && polar(b as usize));
                ensure!(_isBaseCellPentagon(b) == p, "_isBaseCellPentagon({b}) is {}", !p);
                ensure!(_isBaseCellPolarPentagon(b) == q, "_isBaseCellPolarPentagon({b}) is {}", !q);
            }
            o.transitions += 65536;
        }
        1 => {
            let b = c.a[0] as usize;
            let h = mk(0, b, &[]);
            let d = &baseCellData[b];
            let (f, z) = m.home[b];
            let (i, j, k) = (d.homeFijk.coord.i as i64, d.homeFijk.coord.j as i64, d.homeFijk.coord.k as i64);
            ensure!((d.isPentagon != 0) == m.is_pent[b], "it is listed as {}pentagon", if d.isPentagon != 0 { "" } else { "no " });
            ensure!(d.homeFijk.face as usize == f && e(i - k, j - k) == z && i.min(j).min(k) == 0, "its home is listed as face {}, ({i}, {j}, {k})", d.homeFijk.face);
            ensure!(_faceIjkToBaseCell(&d.homeFijk) == b as i32 && _faceIjkToBaseCellCCWrot60(&d.homeFijk) == 0, "at its home the lookup gives base cell {} after {} turns", _faceIjkToBaseCell(&d.homeFijk), _faceIjkToBaseCellCCWrot60(&d.homeFijk));
            o.transitions += 4;
            ensure!(baseCellNeighbors[b][0] == b as i32 && baseCellNeighbor60CCWRots[b][0] == 0, "direction 0 is listed as {} after {} turns", baseCellNeighbors[b][0], baseCellNeighbor60CCWRots[b][0]);
            for d in 1..7 {
                let (got, rot) = (baseCellNeighbors[b][d], baseCellNeighbor60CCWRots[b][d]);
                o.transitions += 2;
                match m.neighbor(h, d) {
                    None => ensure!(got == INVALID_BASE_CELL && rot == -1, "in the deleted direction {d} it lists base cell {got} and {rot} turns"),
                    Some((x, r)) => {
                        ensure!(got == bc(x) as i32, "in direction {d} it lists base cell {got}, not {}", bc(x));
                        if !is_pent_cell(x) {
                            ensure!(rot == r, "in direction {d} it lists {rot} turns, not {r}");
                        }
                    }
                }
            }
            // the faces for which a move into the deleted sequence turns clockwise
            for t in -2..25 {
                let got = _baseCellIsCwOffset(b as i32, t);
                let listed = d.cwOffsetPent.contains(&t);
                ensure!(got == listed, "_baseCellIsCwOffset({t}) is {got}");
                o.transitions += 1;
            }
        }
        _ => {
            // a position on a face
            let (f, i, j, k) = (c.a[0] as usize, c.a[1] as i64, c.a[2] as i64, c.a[3] as i64);
            let mut p = baseCellData[0].homeFijk;
            p.face = f as i32;
            p.coord.i = i as i32;
            p.coord.j = j as i32;
            p.coord.k = k as i32;
            let (h, rot) = m.locate(f, e(i - k, j - k), 0);
            let (got, r) = (_faceIjkToBaseCell(&p), _faceIjkToBaseCellCCWrot60(&p));
            o.transitions += 2;
            ensure!(got == bc(h) as i32, "base cell {got} is given, not {}", bc(h));
            ensure!(is_pent_cell(h) || r == rot, "{r} turns are given, not {rot}");
            let t = &faceIjkBaseCells[f][i as usize][j as usize][k as usize];
            ensure!(t.baseCell == got && t.ccwRot60 == r, "the table differs from the lookup");
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    e.phase("all 2^32 base cell numbers", 65536, |i, cx| {
        cx.obs.states += 65536;
        cx.run(case(0, &[i * 65536]));
    });
    e.phase("base cells", 122, |b, cx| {
        cx.obs.states += 1;
        cx.run(case(1, &[b]));
    });
    let mut pos = Vec::new();
    for f in 0..20u64 {
        for i in 0..3u64 {
            for j in 0..3u64 {
                for k in 0..3u64 {
                    let lo = i.min(j).min(k);
                    // on the face: all three edge functionals at most 2
                    let z = h3mc::model::e(i as i64 - k as i64, j as i64 - k as i64);
                    if lo == 0 && edge_fn(z).iter().all(|l| *l <= 2) {
                        pos.push([f, i, j, k]);
                    }
                }
            }
        }
    }
    e.phase("all base cell positions on the 20 faces", pos.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(2, &pos[i as usize]));
    });
}
fn main() {
    engine::main(Spec {
        id: "C25",
        rule: "states: all 32-bit base cell numbers, the 122 base cells and all base cell positions on the 20 faces; transitions: answers compared with the geometry derived by the model",
        assumptions: &["the turns listed for a pentagon are a convention and not compared"],
        check,
        describe: |c| match c.kind {
            0 => format!("base cell numbers {}..", c.a[0] as u32 as i32),
            1 => format!("base cell {}", c.a[0]),
            _ => format!("face {} position ({}, {}, {})", c.a[0], c.a[1], c.a[2], c.a[3]),
        },
        explore,
        extra: no_extra,
    })
}
