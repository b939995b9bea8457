//! C08: child enumeration.
use h3_rs::h3_index::cellToChildren;
use h3_rs::iterators::IterCellsChildren;
use h3mc::domain::Domain;
use h3mc::engine::*;
use h3mc::model::*;
use h3mc::*;

/// The other ways to consume an iterator, from every position.
fn adaptors(h: u64, cr: i32, o: &mut Obs) -> Result<(), String> {
    let mut want = Vec::new();
    if cr >= res(h) && cr <= 15 {
        let mut x = Some(first_child(h, cr));
        while let Some(w) = x {
            want.push(w);
            x = next_child(h, w, cr);
        }
    }
    let n = want.len();
    let new = || IterCellsChildren::from_parent(h, cr);
    let at = |i: usize| {
        let mut it = new();
        for _ in 0..i {
            it.next();
        }
        it
    };
    o.outcome("adaptors");
    for i in 0..=n + 1 {
        let left = n.saturating_sub(i);
        let rest = &want[n - left..];
        let (lo, hi) = at(i).size_hint();
        ensure!(lo <= left && hi.is_none_or(|u| u >= left), "with {left} children left the size hint is {lo}..{hi:?}");
        if n <= 50 || i % 7 == 0 || left < 9 {
            ensure!(at(i).count() == left, "after {i} steps the count is not {left}");
            ensure!(at(i).last() == rest.last().copied(), "after {i} steps the last child is wrong");
            ensure!(at(i).collect::<Vec<u64>>() == rest, "after {i} steps the collected rest is wrong");
            let mut v = Vec::new();
            at(i).for_each(|x| v.push(x));
            ensure!(v == rest, "after {i} steps for_each gives other children");
            let f = at(i).fold((0u64, 0u64), |a, x| (a.0.wrapping_mul(31).wrapping_add(x), a.1 + 1));
            let g = rest.iter().fold((0u64, 0u64), |a, x| (a.0.wrapping_mul(31).wrapping_add(*x), a.1 + 1));
            ensure!(f == g, "after {i} steps fold sees other children");
            ensure!(at(i).min() == rest.iter().copied().min() && at(i).max() == rest.iter().copied().max(), "after {i} steps the smallest or largest child is wrong");
            o.transitions += 7 * left as u64;
        }
        for j in (0..=left + 2).step_by(if n <= 50 { 1 } else { 5 }) {
            let mut it = at(i);
            let x = it.nth(j);
            ensure!(x == rest.get(j).copied(), "after {i} steps nth({j}) is {x:x?}");
            // it goes on behind the element
            for t in j + 1..j + 4 {
                let x = it.next();
                ensure!(x == rest.get(t).copied(), "after {i} steps and nth({j}) the {t}-th child left is {x:x?}");
            }
            o.transitions += 4;
        }
        let mut it = at(i);
        let some: Vec<u64> = it.by_ref().take(3).collect();
        ensure!(some == rest[..left.min(3)], "after {i} steps take(3) gives {some:x?}");
        let rest3 = &rest[left.min(3)..];
        let v: Vec<u64> = it.step_by(2).collect();
        ensure!(v.iter().eq(rest3.iter().step_by(2)), "after {i} steps, every second child behind the next three is wrong");
        let v: Vec<u64> = at(i).skip(2).step_by(3).collect();
        ensure!(v.iter().eq(rest.iter().skip(2).step_by(3)), "after {i} steps, every third child from the second on is wrong");
    }
    Ok(())
}

/// a[0] parent, a[1] child resolution, a[2] number of steps to follow (0: all), a[3] also as a list
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let h = c.a[0];
    let cr = c.a[1] as i64 as i32;
    if c.kind == 1 {
        // a[1]: a block of 2^20 child resolutions
        let lo = ((c.a[1] << 20) as u32) as i32;
        for cr in lo..=lo + 0xfffff {
            if cr < res(h) || cr > 15 {
                o.transitions += 1;
                let x = IterCellsChildren::from_parent(h, cr).next();
                ensure!(x.is_none(), "child resolution {cr}: the iterator yields {x:x?}");
                let l = cellToChildren(h, cr);
                ensure!(l == Ok(vec![]), "child resolution {cr}: the list is {l:x?}");
            }
        }
        return Ok(());
    }
    if c.kind == 2 {
        return adaptors(h, cr, o);
    }
    let mut it = IterCellsChildren::from_parent(h, cr);
    if cr < res(h) || cr > 15 {
        o.transitions += 1;
        let x = it.next();
        ensure!(x.is_none() && it.next().is_none(), "child resolution {cr}: the iterator yields {x:x?}");
        let l = cellToChildren(h, cr);
        ensure!(l == Ok(vec![]), "child resolution {cr}: the list is {l:x?}");
        o.outcome("empty");
        return Ok(());
    }
    let mut want = Some(first_child(h, cr));
    let mut n = 0u64;
    while let Some(w) = want {
        let x = it.next();
        o.transitions += 1;
        ensure!(x == Some(w), "step {n} of the iterator at resolution {cr} yields {x:x?}, not {w:x}");
        n += 1;
        if n % (1 << 20) == 0 {
            alive(); // the model bounds the number of steps
        }
        if n == c.a[2] {
            o.outcome("prefix");
            return Ok(());
        }
        want = next_child(h, w, cr);
    }
    for _ in 0..3 {
        let x = it.next();
        ensure!(x.is_none(), "after its {n} children the iterator goes on with {x:x?}");
    }
    if c.a[3] == 1 {
        let l = cellToChildren(h, cr).map_err(|e| format!("cellToChildren: {e:?}"))?;
        ensure!(l.len() as u64 == n, "the list at resolution {cr} has {} cells, not {n}", l.len());
        let mut w = first_child(h, cr);
        for (i, x) in l.iter().enumerate() {
            ensure!(*x == w, "entry {i} of the list at resolution {cr} is {x:x}, not {w:x}");
            o.transitions += 1;
            w = next_child(h, w, cr).unwrap_or(0);
        }
    }
    o.outcome("complete");
    Ok(())
}
fn explore(e: &mut Engine) {
    let th = e.thorough;
    // deep enumerations: one hexagon, one deviating hexagon, pentagons, per parent resolution
    let deep = if th { 9 } else { 7 };
    let mut jobs: Vec<(u64, i32)> = Vec::new();
    for r in 0..16 {
        let mut ps: Vec<u64> = vec![mk(r, 7, &[3; 15]), mk(r, 14, &[2; 15]), mk(r, 121, &[6; 15]), mk(r, 0, &[0; 15])];
        for b in [4, 14, 58, 117] {
            ps.push(mk(r, b, &[0; 15]));
        }
        for p in ps {
            for cr in (r..=15).rev() {
                if cr - r <= deep {
                    jobs.push((p, cr));
                }
            }
        }
    }
    jobs.sort_by_key(|j| res(j.0) - j.1);
    e.phase(&format!("8 parents per resolution x all depths up to {deep}, complete"), jobs.len() as u64, |i, cx| {
        let (p, cr) = jobs[i as usize];
        cx.obs.states += n_children(p, cr) as u64;
        cx.run(case(0, &[p, cr as u64, 0, (cr - res(p) <= 7) as u64]));
    });
    // some deeper ones, complete; the longest first
    let mut long: Vec<(u64, i32)> = vec![(mk(4, 38, &[0; 15]), 15), (mk(3, 60, &[5; 15]), 14), (mk(5, 117, &[0; 15]), 15), (mk(0, 4, &[0; 15]), 10), (mk(4, 14, &[2; 15]), 14)];
    for r in 0..=6 {
        long.push((mk(r, 58, &[0; 15]), r + 9));
        long.push((mk(r, 90, &[4; 15]), r + 9));
        long.push((mk(r + 1, 24, &[0; 15]), r + 9));
    }
    if th {
        long.insert(0, (mk(3, 83, &[0; 15]), 15));
    }
    e.phase("deep enumerations, complete (2 parents 9 levels, one 8 levels per resolution; 3 parents 10 levels; 2 parents 11 levels; thorough: one 12 levels)", long.len() as u64, |i, cx| {
        let (p, cr) = long[i as usize];
        cx.obs.states += n_children(p, cr) as u64;
        cx.run(case(0, &[p, cr as u64, 0, 0]));
    });
    // deeper ones cannot be finished: follow the first steps
    let steps: u64 = if th { 30_000_000 } else { 300_000 };
    let far: Vec<(u64, i32)> = (0..16).flat_map(|r| (r + deep + 1..16).flat_map(move |cr| [(mk(r, 4, &[0; 15]), cr), (mk(r, 20, &[5; 15]), cr)])).collect();
    e.phase("deeper enumerations, first steps", far.len() as u64, |i, cx| {
        cx.obs.states += steps;
        cx.run(case(0, &[far[i as usize].0, far[i as usize].1 as u64, steps, 0]));
    });
    let d = if th {
        Domain { low: 6, runs: 3, dev: 2, win: 3, pent: 8, edge: 0, max_res: 15 }
    } else {
        Domain { low: 5, runs: 3, dev: 1, win: 2, pent: 4, edge: 0, max_res: 15 }
    };
    let depth = if th { 3 } else { 2 };
    d.explore(e, |h, cx| {
        let r = res(h);
        for cr in [-1, i32::MIN, i32::MAX, 16, 17, r - 1] {
            cx.run(case(0, &[h, cr as i64 as u64, 0, 0]));
        }
        for cr in r..=(r + depth).min(15) {
            cx.obs.states += n_children(h, cr) as u64;
            cx.run(case(0, &[h, cr as u64, 0, (cr - r < 2) as u64]));
        }
    });
    e.phase("other ways to consume the iterator, from every position", 16 * 122, |i, cx| {
        let (r, b) = ((i / 122) as i32, (i % 122) as usize);
        for p in [mk(r, b, &[0; 15]), mk(r, b, &[2, 0, 5, 1, 6, 3, 4, 2, 0, 5, 1, 6, 3, 4, 2])] {
            for cr in r - 1..=(r + if is_pent_cell(p) { 3 } else { 2 }).min(16) {
                cx.run(case(2, &[p, cr as i64 as u64]));
            }
        }
    });
    e.phase("all 2^32 child resolutions", 4096, |i, cx| {
        for h in [mk(4, 20, &[3, 1, 0, 5]), mk(1, 14, &[0])] {
            cx.obs.states += 1 << 20;
            cx.run(case(1, &[h, i]));
        }
    });
    // every pair of resolutions, parents of every base cell
    e.phase("every (resolution, child resolution) pair x base cells, bounds", 16 * 122, |i, cx| {
        let (r, b) = ((i / 122) as i32, (i % 122) as usize);
        for p in [mk(r, b, &[0; 15]), mk(r, b, &[6; 15])] {
            for cr in -2..18 {
                cx.run(case(0, &[p, cr as i64 as u64, 60, 0]));
            }
        }
    });
}
fn main() {
    engine::main(Spec {
        id: "C08",
        rule: "states: (parent, child) pairs of the model's enumeration; transitions: iterator steps and list entries compared with the model's odometer over valid descendants; traces: complete enumerations, or prefixes where the enumeration is too long",
        assumptions: &["enumerations deeper than the stated depth are followed for a prefix"],
        check,
        describe: |c| format!("children of {} at resolution {}{}", cell_name(c.a[0]), c.a[1] as i64, if c.a[2] > 0 { format!(", first {} steps", c.a[2]) } else { String::new() }),
        explore,
        extra: no_extra,
    })
}
