//! C09: child counts.
use h3_rs::error::Error;
use h3_rs::h3_index::cellToChildrenSize;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    if c.kind == 1 {
        // a[1]: a block of 2^20 child resolutions
        let lo = ((c.a[1] << 20) as u32) as i32;
        for cr in lo..=lo + 0xfffff {
            if cr < res(h) || cr > 15 {
                o.transitions += 1;
                let got = cellToChildrenSize(h, cr);
                ensure!(got == Err(Error::ResDomain), "at resolution {cr} it is {got:?} instead of ResDomain");
            }
        }
        return Ok(());
    }
    for cr in (-2..19).chain([i32::MIN, i32::MAX, -128, 127, 255, 256, 271]) {
        let got = cellToChildrenSize(h, cr);
        let want = if cr < res(h) || cr > 15 { Err(Error::ResDomain) } else { Ok(n_children(h, cr)) };
        o.transitions += 1;
        if let Ok(n) = want {
            o.mark((cr - res(h)) as usize * 2 + is_pent_cell(h) as usize);
            let depth = (cr - res(h)) as u32;
            let closed = if is_pent_cell(h) { 1 + 5 * (7i64.pow(depth) - 1) / 6 } else { 7i64.pow(depth) };
            assert_eq!(n, closed, "model: child count");
        }
        ensure!(got == want, "at resolution {cr} it is {got:?}, not {want:?}");
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let d = if e.thorough {
        Domain { low: 7, runs: 3, dev: 3, win: 4, pent: 12, edge: 0, max_res: 15 }
    } else {
        Domain { low: 6, runs: 3, dev: 2, win: 3, pent: 8, edge: 0, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(0, &[h])));
    e.phase("all 2^32 child resolutions", 4096, |i, cx| {
        for h in [mk(4, 20, &[3, 1, 0, 5]), mk(0, 14, &[]), mk(15, 83, &[0; 15])] {
            cx.obs.states += 1 << 20;
            cx.run(case(1, &[h, i]));
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C09",
        rule: "states: distinct valid cells of the model's state space; transitions: (cell, child resolution) counts compared with the number obtained by the recurrence over hexagon and pentagon children",
        assumptions: &["the count depends on the cell through its resolution and whether it is a pentagon; both are covered at every resolution for every base cell"],
        check,
        describe: |c| format!("cellToChildrenSize({}, every child resolution)", cell_name(c.a[0])),
        explore,
        extra: |o| vec![("depth_and_shape_pairs_covered".to_string(), o.cover.iter().map(|w| w.count_ones()).sum::<u32>().to_string())],
    })
}
