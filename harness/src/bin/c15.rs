//! C15: the fast grid disk.
use h3_rs::algos::gridDiskDistancesUnsafe;
use h3_rs::error::Error;
use h3mc::domain::*;
use h3mc::engine::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    if c.kind == 2 {
        // a pentagon a[1] steps away, none nearer
        let d = c.a[1] as u32;
        let got = gridDiskDistancesUnsafe(h, d - 1).map_err(|e| format!("k = {}: {e:?}, but no pentagon lies within as many steps", d - 1))?;
        ensure!(got.len() as u64 == 1 + 3 * (d as u64 - 1) * d as u64, "k = {}: {} entries", d - 1, got.len());
        ensure!(got[0] == (h, 0), "k = {}: the first entry is {:?}", d - 1, got[0]);
        let mut from = 1;
        for k in 1..d {
            let part = &got[from..from + 6 * k as usize];
            from += part.len();
            o.transitions += part.len() as u64;
            let want = walk_ring(h, k);
            let ok = part.iter().all(|x| x.1 == k) && {
                let mut a: Vec<u64> = part.iter().map(|x| x.0).collect();
                let mut b = want;
                a.sort_unstable();
                b.sort_unstable();
                a == b
            };
            ensure!(ok, "k = {}: the entries of distance {k} are not the cells at that distance", d - 1);
        }
        drop(got);
        for k in [d, d + 1] {
            let got = gridDiskDistancesUnsafe(h, k);
            ensure!(got == Err(Error::Pentagon), "k = {k}: a pentagon lies {d} steps away, but the result is {}", show(&got));
        }
        return Ok(());
    }
    let ks: Vec<u32> = if c.kind == 0 { (0..=c.a[1] as u32).collect() } else { c.a[1..].iter().map(|k| *k as u32).collect() };
    let (b, pent) = ball_map(h, *ks.iter().max().unwrap());
    for k in ks {
        let got = gridDiskDistancesUnsafe(h, k);
        if pent.is_some_and(|p| p <= k) {
            o.transitions += 1;
            o.mark(0);
            ensure!(got == Err(Error::Pentagon), "k = {k}: a pentagon lies {} steps away, but the result is {}", pent.unwrap(), show(&got));
            continue;
        }
        o.mark(1);
        let got = got.map_err(|e| format!("k = {k}: {e:?}, but no pentagon lies within {k} steps"))?;
        ensure!(got.windows(2).all(|w| w[0].1 <= w[1].1) && got.first() == Some(&(h, 0)), "k = {k}: not ordered by distance from the cell itself");
        let mut got = got;
        got.sort_unstable();
        let mut want: Vec<(u64, u32)> = b.iter().take_while(|x| x.1 <= k).copied().collect();
        want.sort_unstable();
        o.transitions += want.len() as u64;
        if got != want {
            let extra = got.iter().find(|x| want.binary_search(x).is_err());
            let miss = want.iter().find(|x| got.binary_search(x).is_err());
            return Err(format!("k = {k}: {} entries instead of {}; wrong entry {extra:x?}, missing entry {miss:x?}", got.len(), want.len()));
        }
    }
    Ok(())
}
fn show(r: &Result<Vec<(u64, u32)>, Error>) -> String {
    match r {
        Ok(v) => format!("a list of {} entries", v.len()),
        Err(e) => format!("{e:?}"),
    }
}
fn explore(e: &mut Engine) {
    for (name, jobs) in disk_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(0, &[h, k as u64]));
        });
    }
    let jobs = remote(e.thorough, if e.thorough { 2500 } else { 1000 });
    e.phase("cells 200 to 1000 (thorough: 2500) steps from the nearest pentagon, radii around that distance", jobs.len() as u64, |i, cx| {
        cx.obs.states += 1;
        cx.run(case(2, &[jobs[i as usize].0, jobs[i as usize].1]));
    });
    for r in 1..=(if e.thorough { 7 } else { 5 }) {
        let faces: Vec<usize> = (0..20).filter(|f| e.thorough && r < 7 || r < 5 || f % 7 == r as usize % 7).collect();
        let jobs = spread_cells(r, if r < 5 { 8 } else { 3 }, &faces);
        e.phase(&format!("res {r}: cells all over the faces, radii around the distance to the nearest pentagon"), jobs.len() as u64, |i, cx| {
            cx.obs.states += 1;
            cx.run(case(2, &[jobs[i as usize].0, jobs[i as usize].1]));
        });
    }
    for (name, jobs) in far_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(1, &[h, k[0], k[1], k[2], k[3], k[4]]));
        });
    }
}
fn main() {
    engine::main(Spec {
        id: "C15",
        rule: "states: origin cells; each trace computes the fast disks of every radius from 0 to the phase's bound and compares entries, order and the pentagon verdict with a breadth-first search of the model; transitions: entries and verdicts compared",
        assumptions: &["origins and radii are those of the phases"],
        check,
        describe: |c| if c.kind == 0 { format!("gridDiskDistancesUnsafe({}, 0..={})", cell_name(c.a[0]), c.a[1]) } else { format!("gridDiskDistancesUnsafe({}, k) for k in {:?}", cell_name(c.a[0]), &c.a[1..]) },
        explore,
        extra: |o| vec![("verdicts_seen".to_string(), o.cover.first().copied().unwrap_or(0).count_ones().to_string())],
    })
}
