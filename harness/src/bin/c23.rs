//! C23: the size bound of grid disks.
use h3_rs::algos::{gridDiskDistances, maxGridDiskSize};
use h3mc::domain::*;
use h3mc::engine::*;
use h3mc::*;

const GLOBE: u128 = 569707381193162;
fn bound(k: u32) -> usize {
    let k = k as u128;
    (3 * k * (k + 1) + 1).min(GLOBE) as usize
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    if c.kind == 0 {
        let lo = c.a[0];
        for k in lo..lo + 65536 {
            let g = maxGridDiskSize(k as u32);
            ensure!(g == bound(k as u32), "maxGridDiskSize({k}) is {g}, not {}", bound(k as u32));
        }
        o.transitions += 65536;
        return Ok(());
    }
    let h = c.a[0];
    let ks: Vec<u32> = if c.kind == 1 { (0..=c.a[1] as u32).collect() } else { c.a[1..].iter().map(|k| *k as u32).collect() };
    let (_, pent) = ball_map(h, *ks.iter().max().unwrap());
    for k in ks {
        let n = gridDiskDistances(h, k).map_err(|e| format!("k = {k}: {e:?}"))?.len();
        let m = maxGridDiskSize(k);
        o.transitions += 1;
        ensure!(n <= m, "k = {k}: the disk has {n} cells, the bound is {m}");
        ensure!(pent.is_some_and(|p| p <= k) || n == m, "k = {k}: the disk has {n} cells, the bound is {m}, and no pentagon is inside");
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    e.phase("all 2^32 radii", 65536, |i, cx| {
        cx.obs.states += 65536;
        cx.run(case(0, &[i * 65536]));
    });
    for (name, jobs) in disk_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(1, &[h, k as u64]));
        });
    }
    for (name, jobs) in far_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(2, &[h, k[0], k[1], k[2], k[3], k[4]]));
        });
    }
}
fn main() {
    engine::main(Spec {
        id: "C23",
        rule: "states: all 2^32 radii, compared with the closed form in 128-bit arithmetic; and origin cells whose disks of every radius of the phase are counted",
        assumptions: &["origins and radii of the counted disks are those of the phases"],
        check,
        describe: |c| match c.kind {
            0 => format!("maxGridDiskSize(k) for k in {}..{}", c.a[0], c.a[0] + 65536),
            1 => format!("disk sizes of {}, k <= {}", cell_name(c.a[0]), c.a[1]),
            _ => format!("disk sizes of {}, k in {:?}", cell_name(c.a[0]), &c.a[1..]),
        },
        explore,
        extra: no_extra,
    })
}
