//! C16: hollow rings.
use h3_rs::algos::gridRingUnsafe;
use h3_rs::error::Error;
use h3mc::domain::*;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn ring(h: u64, k: u32, pent_within: bool, truth: &[u64], o: &mut Obs) -> Result<(), String> {
    let got = gridRingUnsafe(h, k);
    if k > 0 && pent_within {
        o.transitions += 1;
        o.mark(0);
        return match got {
            Err(Error::Pentagon) => Ok(()),
            Ok(v) => Err(format!("k = {k}: a pentagon lies within {k} steps, but {} cells are returned", v.len())),
            Err(e) => Err(format!("k = {k}: {e:?}")),
        };
    }
    o.mark(1);
    let got = got.map_err(|e| format!("k = {k}: {e:?}, but no pentagon lies within {k} steps"))?;
    o.transitions += truth.len() as u64;
    if k == 0 {
        ensure!(got == [h], "k = 0: {got:x?}");
        return Ok(());
    }
    ensure!(got.len() == 6 * k as usize, "k = {k}: {} cells", got.len());
    let m = model();
    let mut sorted = truth.to_vec();
    sorted.sort_unstable();
    for (i, x) in got.iter().enumerate() {
        let y = got[(i + 1) % got.len()];
        ensure!(sorted.binary_search(x).is_ok(), "k = {k}: {x:x} is not at distance {k}");
        ensure!(m.neighbors(*x).contains(&y), "k = {k}: consecutive cells {x:x} and {y:x} are not neighbors");
    }
    let mut s = got;
    s.sort_unstable();
    s.dedup();
    ensure!(s.len() == 6 * k as usize && truth.len() == s.len(), "k = {k}: {} distinct cells, {} at that distance", s.len(), truth.len());
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    if c.kind == 1 {
        // larger than any disk without a pentagon (see DESIGN.md)
        for k in &c.a[1..] {
            ring(h, *k as u32, true, &[], o)?;
        }
        return Ok(());
    }
    if c.kind == 3 {
        // a pentagon a[1] steps away, none nearer
        let d = c.a[1] as u32;
        for k in [d - 1, d / 2] {
            o.transitions += 6 * k as u64;
            let want = walk_ring(h, k);
            let got = gridRingUnsafe(h, k).map_err(|e| format!("k = {k}: {e:?}, but no pentagon lies within {k} steps"))?;
            ensure!(got.len() == want.len(), "k = {k}: {} cells", got.len());
            // the walk may start anywhere and go either way
            let n = want.len();
            let Some(at) = want.iter().position(|x| *x == got[0]) else {
                return Err(format!("k = {k}: the first cell is not at distance {k}"));
            };
            let ok = |dir: usize| (0..n).all(|i| got[i] == want[(at + dir * i) % n]);
            ensure!(ok(1) || ok(n - 1), "k = {k}: not the cells at distance {k} in walking order");
            o.mark(1);
        }
        for k in [d, d + 1, d + d / 7, 2 * d] {
            ring(h, k, true, &[], o)?;
        }
        return Ok(());
    }
    let ks: Vec<u32> = if c.kind == 0 { (0..=c.a[1] as u32).collect() } else { c.a[1..].iter().map(|k| *k as u32).collect() };
    let (b, pent) = ball_map(h, *ks.iter().max().unwrap());
    for k in ks {
        let truth: Vec<u64> = b.iter().filter(|x| x.1 == k).map(|x| x.0).collect();
        ring(h, k, pent.is_some_and(|p| p <= k), &truth, o)?;
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    for (name, jobs) in disk_jobs(th) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(0, &[h, k as u64]));
        });
    }
    // rings that run once around several pentagons: all origins of resolutions 0..2, large radii
    let top: i32 = if th { 3 } else { 2 };
    for r in 0..=top {
        let kcap: u64 = [14, 30, 40, 50][r as usize];
        e.phase(&format!("all cells of resolution {r}, every k with a pentagon inside up to {kcap}"), 122, |b, cx| {
            let root = mk(0, b as usize, &[]);
            let mut x = Some(first_child(root, r));
            while let Some(h) = x {
                // radius at which the first pentagon appears
                let mut k0 = 0;
                while ball_map(h, k0).1.is_none() {
                    k0 += 1;
                }
                for k in (k0.max(1) as u64)..=kcap {
                    cx.run(case(1, &[h, k, k, k, k, k]));
                }
                cx.obs.states += 1;
                x = next_child(root, h, r);
            }
        });
    }
    e.phase("huge radii", 122 * 16, |i, cx| {
        let (b, r) = ((i % 122) as usize, (i / 122) as i32);
        let s = 7f64.powf(r as f64 / 2.0);
        let first = (4.0 * s) as u64 + 2;
        if first > 5000 {
            cx.run(case(1, &[mk(r, b, &[3; 15]), u32::MAX as u64, 1 << 31, 1 << 30, 2147483647, 1 << 29]));
        } else {
            cx.run(case(1, &[mk(r, b, &[3; 15]), first, first * 3, 100_003, u32::MAX as u64, 1 << 31]));
        }
        cx.obs.states += 1;
    });
    let jobs = remote(th, if th { 1 << 20 } else { 200_000 });
    e.phase("cells 200 to 200000 (thorough: 524289) steps from the nearest pentagon, radii around that distance", jobs.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(3, &[jobs[i as usize].0, jobs[i as usize].1]));
    });
    for r in 1..=(if th { 13 } else { 10 }) {
        let faces: Vec<usize> = (0..20).filter(|f| r < 7 || f % 7 == r as usize % 7).collect();
        let jobs = spread_cells(r, if r < 8 { 8 } else { 3 }, &faces);
        e.phase(&format!("res {r}: cells all over the faces, radii around the distance to the nearest pentagon"), jobs.len() as u64, |i, cx| {
            cx.obs.states += 1;
            cx.run(case(3, &[jobs[i as usize].0, jobs[i as usize].1]));
        });
    }
    for (name, jobs) in far_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(2, &[h, k[0], k[1], k[2], k[3], k[4]]));
        });
    }
}
fn main() {
    engine::main(Spec {
        id: "C16",
        rule: "states: origin cells; each trace computes the rings of every radius of the phase and compares cells, walking order and the pentagon verdict with a breadth-first search of the model; transitions: ring cells and verdicts compared",
        assumptions: &["origins and radii are those of the phases; beyond 4 * sqrt(7)^res steps every disk contains a pentagon"],
        check,
        describe: |c| if c.kind == 0 { format!("gridRingUnsafe({}, 0..={})", cell_name(c.a[0]), c.a[1]) } else { format!("gridRingUnsafe({}, k) for k in {:?}", cell_name(c.a[0]), &c.a[1..]) },
        explore,
        extra: |o| vec![("verdicts_seen".to_string(), o.cover.first().copied().unwrap_or(0).count_ones().to_string())],
    })
}
