//! C06: exactly the well-formed cell indexes are accepted as cells.
use h3_rs::h3_index::isValidCell;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let want = valid_cell(h);
    let got = isValidCell(h);
    o.transitions += 1;
    o.mark(want as usize);
    ensure!(got == want, "isValidCell gives {got}, but the value is {}a valid cell", if want { "" } else { "not " });
    Ok(())
}
fn explore(e: &mut Engine) {
    indexes::explore(e, 1, &[0], |h, cx| cx.run(case(0, &[h])));
}
fn main() {
    engine::main(Spec {
        id: "C06",
        rule: "states: 64-bit values enumerated by the stated families, which overlap a little (every header; digit strings within two digits of a well-formed one; every content of every digit window; bit flips); each is classified by the implementation and by the specification automaton",
        assumptions: &["validity reads header fields and digits only through the first non-zero digit, the count of digits used and each digit by itself; the families cover every header, every pair of digits and every window"],
        check,
        describe: |c| format!("isValidCell({:#x})", c.a[0]),
        explore,
        extra: |o| vec![("verdicts_seen".to_string(), o.cover.first().copied().unwrap_or(0).count_ones().to_string())],
    })
}
