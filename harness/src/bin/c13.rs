//! C13: direction labels and turns.
use h3_rs::algos::{directionForNeighbor, h3NeighborRotations};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn labels(h: u64, o: &mut Obs) -> Result<(), String> {
    let m = model();
    let pent = is_pent_cell(h);
    let nb = m.neighbors(h);
    for (i, x) in nb.iter().enumerate() {
        let d = if pent { i + 2 } else { i + 1 };
        let got = directionForNeighbor(h, *x) as usize;
        o.transitions += 1;
        ensure!(got == d, "the direction to its neighbor {x:x} is reported as {got}, not {d}");
    }
    let mut others: Vec<u64> = vec![h, 0, !0];
    for x in &nb {
        for y in m.neighbors(*x) {
            if y != h && !nb.contains(&y) && !others.contains(&y) {
                others.push(y);
            }
        }
    }
    let r = res(h);
    if r > 0 {
        others.push(parent(h, r - 1));
    }
    if r < 15 {
        others.push(first_child(h, r + 1));
        others.push(first_child(nb[0], r + 1));
    }
    for x in others {
        let got = directionForNeighbor(h, x) as usize;
        o.transitions += 1;
        ensure!(got == 7, "{x:x} is no neighbor, but direction {got} is reported");
    }
    Ok(())
}
fn turns(h: u64, o: &mut Obs) -> Result<(), String> {
    let m = model();
    let pent = is_pent_cell(h);
    let mut base = [(0u64, 0i32); 7];
    for d in 1..=6usize {
        if pent && d == 1 {
            continue;
        }
        let mut rot = 0;
        let x = h3NeighborRotations(h, dir!(d), &mut rot).map_err(|e| format!("direction {d}: {e:?}"))?;
        base[d] = (x, rot);
        o.transitions += 1;
        ensure!((0..6).contains(&rot), "direction {d}: {rot} turns");
        let (w, wr) = m.neighbor(h, d).unwrap();
        ensure!(x == w, "direction {d} leads to {x:x}, not {w:x}");
        if is_pent_cell(x) {
            continue; // the frame of a pentagon is ambiguous
        }
        ensure!(rot == wr, "direction {d}: {rot} turns are reported for the move to {x:x}, a straight path needs {wr}");
        // straight back
        let opp = rot_digit(d, 3);
        let mut back = rot;
        let y = h3NeighborRotations(x, dir!(opp), &mut back);
        o.transitions += 1;
        ensure!(y == Ok(h), "moving {d} to {x:x} and straight back ({opp} after {rot} turns) leads to {y:x?}");
    }
    for k in 1..6 {
        for d in 1..=6usize {
            let t = rot_digit(d, k);
            if pent && t == 1 {
                continue;
            }
            let mut rot = k;
            let x = h3NeighborRotations(h, dir!(d), &mut rot);
            o.transitions += 1;
            ensure!(x == Ok(base[t].0), "direction {d} after {k} turns leads to {x:x?}, direction {t} leads to {:x}", base[t].0);
            let want = (base[t].1 + k) % 6;
            ensure!(rot == want, "direction {d} after {k} turns reports {rot} turns, not {want}");
        }
    }
    Ok(())
}
/// walk: a[1] is a word of directions in base 8 (first step in the low digit), ended by 0
fn walk(h: u64, word: u64, o: &mut Obs) -> Result<(), String> {
    let m = model();
    let (mut x, mut rot) = (h, 0);
    let (mut w, mut wr) = (h, 0);
    let mut word = word;
    let mut n = 0;
    while word != 0 {
        let d = (word & 7) as usize;
        word >>= 3;
        let t = rot_digit(d, wr);
        let (w2, r2) = match m.neighbor(w, t) {
            Some(y) => y,
            None => return Ok(()), // deleted direction
        };
        let got = h3NeighborRotations(x, dir!(d), &mut rot);
        o.transitions += 1;
        n += 1;
        ensure!(got == Ok(w2), "step {n} of the walk leads to {got:x?}, not {w2:x}");
        if is_pent_cell(w2) {
            return Ok(()); // the frame of a pentagon is ambiguous
        }
        x = w2;
        w = w2;
        wr = (wr + r2) % 6;
        ensure!(rot == wr, "after step {n} of the walk {rot} turns are reported, not {wr}");
    }
    Ok(())
}
/// a[1]: any number of turns
fn many(h: u64, k: i32, o: &mut Obs) -> Result<(), String> {
    for d in 1..=6usize {
        let t = rot_digit(d, k % 6);
        if is_pent_cell(h) && t == 1 {
            continue;
        }
        let (mut r0, mut r1) = (0, k);
        let x = h3NeighborRotations(h, dir!(t), &mut r0);
        let y = h3NeighborRotations(h, dir!(d), &mut r1);
        o.transitions += 1;
        ensure!(x == y, "direction {d} after {k} turns leads to {y:x?}, direction {t} leads to {x:x?}");
        let want = (r0 + k) % 6;
        ensure!(r1 == want, "direction {d} after {k} turns reports {r1} turns, not {want}");
    }
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    match c.kind {
        0 => labels(c.a[0], o),
        1 => turns(c.a[0], o),
        4 => {
            for x in domain::near_misses(c.a[0]) {
                let got = directionForNeighbor(c.a[0], x) as usize;
                o.transitions += 1;
                ensure!(got == 7, "{x:x} is no neighbor, but direction {got} is reported");
            }
            Ok(())
        }
        3 => many(c.a[0], c.a[1] as i32, o),
        _ => walk(c.a[0], c.a[1], o),
    }
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    let d = if th {
        Domain { low: 6, runs: 3, dev: 2, win: 4, pent: 12, edge: 120, max_res: 15 }
    } else {
        Domain { low: 5, runs: 3, dev: 1, win: 2, pent: 8, edge: 30, max_res: 15 }
    };
    d.explore(e, |h, cx| {
        cx.run(case(0, &[h]));
        cx.run(case(1, &[h]));
    });
    let thin = domain::thin_cells(th);
    e.phase("directions to values one bit, digit or base cell away from a neighbor", thin.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(4, &[thin[i as usize]]));
    });
    // all walks of a length
    let len = if th { 5 } else { 4 };
    let mut or: Vec<u64> = Vec::new();
    for r in 0..16 {
        for p in domain::pentagons(r) {
            or.extend(domain::ball(p, if th { 3 } else { 1 }).into_iter().map(|x| x.0));
        }
    }
    or.extend((0..122).map(|b| mk(0, b, &[])));
    or.extend((0..122).map(|b| mk(1, b, &[4; 15])));
    or.extend((0..122).map(|b| mk(2, b, &[6; 15])));
    or.sort_unstable();
    or.dedup();
    let words = 6u64.pow(len);
    e.phase(&format!("all walks of {len} steps near pentagons and base-cell borders"), or.len() as u64, |i, cx| {
        cx.obs.states += 1;
        for n in 0..words {
            let (mut w, mut n) = (0, n);
            for q in 0..len {
                w |= (n % 6 + 1) << (3 * q);
                n /= 6;
            }
            cx.run(case(2, &[or[i as usize], w]));
        }
    });
    let ks: Vec<u64> = (6..=70).chain((6..=24).flat_map(|q| [(1 << q) - 1, 1 << q, (1 << q) + 1])).collect();
    e.phase("more turns than five", or.len() as u64, |i, cx| {
        for k in &ks {
            if *k < 70 || i % 64 == 0 && *k < 100_000 || i == 0 {
                cx.obs.states += 1;
                cx.run(case(3, &[or[i as usize], *k]));
            }
        }
    });
    // long straight walks from the low resolutions
    e.phase("straight walks of 20 steps, all cells of resolutions 0..3", 122, |b, cx| {
        for r in 0..=3 {
            let root = mk(0, b as usize, &[]);
            let mut x = Some(first_child(root, r));
            while let Some(h) = x {
                for d in 1..=6u64 {
                    let mut w = 0;
                    for q in 0..20 {
                        w |= d << (3 * q);
                    }
                    cx.run(case(2, &[h, w]));
                }
                x = next_child(root, h, r);
            }
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C13",
        rule: "states: distinct valid cells (and walk origins); transitions: direction lookups for every neighbor and for every cell two steps away, (direction, initial turns) moves, and steps of all walk words, compared with the frames of the model's unfolded icosahedron",
        assumptions: &["turns reported on arrival at a pentagon are not compared with the model (its frame is ambiguous), only for consistency over initial turns; walks end there"],
        check,
        describe: |c| match c.kind {
            0 => format!("directionForNeighbor({}, every cell within two steps)", cell_name(c.a[0])),
            1 => format!("h3NeighborRotations({}, every direction, every initial turn)", cell_name(c.a[0])),
            4 => format!("directionForNeighbor({}, values like its neighbors)", cell_name(c.a[0])),
            3 => format!("h3NeighborRotations({}, every direction, {} turns)", cell_name(c.a[0]), c.a[1]),
            _ => format!("walk from {} in directions (octal, first step last) {:o}", cell_name(c.a[0]), c.a[1]),
        },
        explore,
        extra: no_extra,
    })
}
