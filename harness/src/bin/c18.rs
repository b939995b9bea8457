//! C18: exactly the well-formed directed edges are accepted; edge lists.
use h3_rs::directed_edge::{isValidDirectedEdge, originToDirectedEdges};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    o.transitions += 1;
    if c.kind == 0 {
        let want = valid_edge(h);
        let got = isValidDirectedEdge(h);
        o.mark(want as usize);
        ensure!(got == want, "isValidDirectedEdge gives {got}, but the value is {}a valid edge", if want { "" } else { "not " });
    } else {
        let got = originToDirectedEdges(h);
        for d in 1..=6 {
            let want = if d == 1 && is_pent_cell(h) { 0 } else { mk_edge(h, d) };
            ensure!(got[d - 1] == want, "entry {} of the edge list is {:x}, not {want:x}", d - 1, got[d - 1]);
            ensure!(want == 0 || isValidDirectedEdge(want), "its edge {want:x} is not accepted as valid");
        }
    }
    Ok(())
}
fn explore(e: &mut Engine) {
    let rs: &[u64] = if e.thorough { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 6, 7] };
    indexes::explore(e, 2, rs, |h, cx| cx.run(case(0, &[h])));
    let d = if e.thorough {
        Domain { low: 7, runs: 3, dev: 3, win: 4, pent: 12, edge: 0, max_res: 15 }
    } else {
        Domain { low: 7, runs: 3, dev: 2, win: 3, pent: 8, edge: 0, max_res: 15 }
    };
    d.explore(e, |h, cx| cx.run(case(1, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C18",
        rule: "states: 64-bit values enumerated by the stated families (which overlap a little) around directed edges, and valid cells; each value is classified by the implementation and by the specification automaton, each cell's edge list compared entry by entry",
        assumptions: &["the families cover every header, every pair of digits and every digit window"],
        check,
        describe: |c| if c.kind == 0 { format!("isValidDirectedEdge({:#x})", c.a[0]) } else { format!("originToDirectedEdges({})", cell_name(c.a[0])) },
        explore,
        extra: |o| vec![("verdicts_seen".to_string(), o.cover.first().copied().unwrap_or(0).count_ones().to_string())],
    })
}
