//! C14: grid disks.
use h3_rs::algos::gridDiskDistances;
use h3mc::domain::*;
use h3mc::engine::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    if c.kind == 1 {
        let h = c.a[0];
        let mut b = ball(h, *c.a[1..].iter().max().unwrap() as u32);
        b.sort_unstable();
        for k in c.a[1..].iter().filter(|k| **k > 0) {
            let mut got = gridDiskDistances(h, *k as u32).map_err(|e| format!("k = {k}: {e:?}"))?;
            got.sort_unstable();
            let mut want = b.iter().filter(|x| x.1 as u64 <= *k);
            let n = got.len();
            for x in got {
                let w = want.next();
                ensure!(w == Some(&x), "k = {k}: entry {x:x?} instead of {w:x?}");
            }
            let w = want.next();
            ensure!(w.is_none(), "k = {k}: {n} entries, {w:x?} is missing");
            o.transitions += n as u64;
        }
        return Ok(());
    }
    let (h, kmax) = (c.a[0], c.a[1] as u32);
    let (b, _) = ball_map(h, kmax);
    let mut want: Vec<(u64, u32)> = Vec::new();
    for k in 0..=kmax {
        want.clear();
        want.extend(b.iter().take_while(|x| x.1 <= k));
        want.sort_unstable();
        let mut got = gridDiskDistances(h, k).map_err(|e| format!("k = {k}: {e:?}"))?;
        got.sort_unstable();
        o.transitions += want.len() as u64;
        if got != want {
            let extra = got.iter().find(|x| !want.contains(x));
            let miss = want.iter().find(|x| !got.contains(x));
            return Err(format!("k = {k}: {} entries instead of {}; wrong entry {extra:x?}, missing entry {miss:x?}", got.len(), want.len()));
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    for (name, jobs) in disk_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(0, &[h, k as u64]));
        });
    }
    for (name, jobs) in far_jobs(e.thorough) {
        e.phase(&name, jobs.len() as u64, |i, cx| {
            let (h, k) = jobs[i as usize];
            cx.obs.states += 1;
            cx.run(case(1, &[h, k[0], k[1], k[2], k[3], k[4]]));
        });
    }
}
fn main() {
    engine::main(Spec {
        id: "C14",
        rule: "states: origin cells; each trace computes the disks of every radius from 0 to the phase's bound and compares them with a breadth-first search of the model's neighbor relation; transitions: (cell, distance) entries compared",
        assumptions: &["origins and radii are those of the phases"],
        check,
        describe: |c| if c.kind == 0 { format!("gridDiskDistances({}, 0..={})", cell_name(c.a[0]), c.a[1]) } else { format!("gridDiskDistances({}, k) for k in {:?}", cell_name(c.a[0]), &c.a[1..]) },
        explore,
        extra: no_extra,
    })
}
