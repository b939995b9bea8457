//! C24: index rotations.
use h3_rs::h3_index::{_h3LeadingNonZeroDigit, _h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw};
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;
use std::f64::consts::TAU;

/// the digits of h turned n times counter-clockwise
fn turned(h: u64, n: i32) -> u64 {
    let mut x = h;
    for q in 1..=res(h) {
        x = set_digit(x, q, rot_digit(digit(h, q), n));
    }
    x
}
/// v turned counter-clockwise about the axis n
fn about(n: V3, v: V3, t: f64) -> V3 {
    let c = cross(n, v);
    let d = dot(n, v);
    let mut w = [0.0; 3];
    for i in 0..3 {
        w[i] = v[i] * t.cos() + c[i] * t.sin() + n[i] * d * (1.0 - t.cos());
    }
    w
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    o.transitions += 1;
    ensure!(_h3LeadingNonZeroDigit(h) as usize == lead(h), "its first non-zero digit is given as {}", _h3LeadingNonZeroDigit(h) as usize);
    if c.kind == 0 {
        let (a, b) = (_h3Rotate60ccw(h), _h3Rotate60cw(h));
        ensure!(a == turned(h, 1), "turned counter-clockwise it is {a:x}, not {:x}", turned(h, 1));
        ensure!(b == turned(h, -1), "turned clockwise it is {b:x}, not {:x}", turned(h, -1));
        o.transitions += 2;
        return Ok(());
    }
    // a cell of a pentagon base cell, turned about the pentagon
    let m = model();
    let axis = m.center(mk(0, bc(h), &[]));
    let v = m.center(h);
    let (a, b) = (_h3RotatePent60ccw(h), _h3RotatePent60cw(h));
    o.transitions += 4;
    for (x, t, name) in [(a, TAU / 5.0, "counter-clockwise"), (b, -TAU / 5.0, "clockwise")] {
        ensure!(valid_cell(x) && res(x) == res(h) && bc(x) == bc(h), "turned {name} it is {x:x}, no cell of that base cell and resolution");
        let e = ang(m.center(x), about(axis, v, t));
        ensure!(e < 1e-12, "turned {name} it is {x:x}, whose center is {e:e} rad away from the center turned by 72 degrees");
    }
    ensure!(_h3RotatePent60cw(a) == h, "turned counter-clockwise ({a:x}) and clockwise it is {:x}", _h3RotatePent60cw(a));
    ensure!(_h3RotatePent60ccw(b) == h, "turned clockwise ({b:x}) and counter-clockwise it is {:x}", _h3RotatePent60ccw(b));
    let mut x = h;
    for _ in 0..5 {
        x = _h3RotatePent60ccw(x);
    }
    ensure!(x == h, "five turns lead to {x:x}");
    Ok(())
}
fn explore(e: &mut Engine) {
    let d = if e.thorough {
        Domain { low: 8, runs: 4, dev: 3, win: 4, pent: 14, edge: 60, max_res: 15 }
    } else {
        Domain { low: 7, runs: 3, dev: 3, win: 3, pent: 6, edge: 10, max_res: 15 }
    };
    let m = model();
    d.explore(e, |h, cx| {
        cx.run(case(0, &[h]));
        if m.is_pent[bc(h)] {
            cx.run(case(1, &[h]));
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C24",
        rule: "states: distinct valid cells of the model's state space; transitions: turns compared with the model's turned digits and, on pentagon base cells, with the center turned about the pentagon on the sphere",
        assumptions: &["resolutions above the exhaustive ones are covered by the families named in the phases"],
        check,
        describe: |c| format!("{} of {}", if c.kind == 0 { "60 degree turns" } else { "turns about the pentagon" }, cell_name(c.a[0])),
        explore,
        extra: no_extra,
    })
}
