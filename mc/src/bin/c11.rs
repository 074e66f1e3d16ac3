//! C11: all-generated-positions lookup on basic maps.
use mc::cons::*;
use mc::*;

fn check(ch: &mut Ch, d: &Doc, m: &Model, mut c: rusty_source_map::consumer::BasicConsumer) -> Res {
    let (mut lines, mut cols) = m.orig_grid();
    lines.push(i32::MAX);
    cols.push(i32::MAX);
    let n = m.urls.len() as i32;
    let mut srcs: Vec<i32> = vec![0, n - 1];
    for o in m.segs.iter().filter_map(|s| s.orig) {
        for x in [o.src as i32 - 1, o.src as i32, o.src as i32 + 1] {
            if x >= 0 && x < n {
                srcs.push(x)
            }
        }
    }
    for s in uniq(srcs).into_iter().filter(|s| (0..n).contains(s)) {
        let url = m.urls[s as usize].clone();
        // the URL may mean another source (see C16)
        let s = m.lookup(&url).unwrap() as i32;
        for &l in &lines {
            for col in std::iter::once(None).chain(cols.iter().map(|c| Some(*c))) {
                let mut got: Vec<sm::Seg> = all_for(&mut c, &url, l, col)?.iter().map(|r| r.seg).collect();
                got.sort();
                ch.step();
                ch.outcome(&got);
                full(got, m.all_gen(s as u32, l as i64, col.map(|c| c as i64)), || {
                    format!("all_generated_position_for({url:?}, line {l}, column {col:?}) on {} (as a sorted list)", d.json())
                })?;
            }
        }
    }
    for col in [None, Some(0)] {
        let got = all_for(&mut c, "nowhere.js", 1, col)?;
        full(got, vec![], || format!("all_generated_position_for of an unknown source on {}", d.json()))?;
    }
    Ok(())
}

fn main() {
    run::main(Prop {
        id: "C11",
        rule: "state = one map document; transition = one all_generated_position_for call (used and neighbouring sources, every original line and column next to and at every coordinate of the map, and no column) compared with the reference; trace = all queries of one map on one real consumer",
        assumptions: vec!["the order of the answered mappings is not specified", "source and name indices of the map are in range"],
        stages: |thorough| map_stages(thorough, check),
    });
}
