//! C09: original-position lookup on basic maps.
use mc::cons::*;
use mc::*;

fn check(ch: &mut Ch, d: &Doc, m: &Model, mut c: rusty_source_map::consumer::BasicConsumer) -> Res {
    let (mut lines, mut cols) = m.gen_grid();
    lines.push(i32::MAX);
    cols.push(i32::MAX);
    for &l in &lines {
        for &col in &cols {
            for b in BIASES {
                let got = orig_for(&mut c, l, col, b)?;
                ch.step();
                ch.outcome(&got);
                check_orig(m, &m.orig_cands(l as i64, col as i64, lub(b)), &got, || {
                    format!("original_position_for(line {l}, column {col}, {b:?}) on {}", d.json())
                })?;
            }
        }
    }
    Ok(())
}

fn main() {
    run::main(Prop {
        id: "C09",
        rule: "state = one map document; transition = one original_position_for call (every line and column next to and at every coordinate of the map, 3 biases) compared with the reference lookup; trace = all queries of one map on one real consumer",
        assumptions: vec![
            "for mappings sharing a generated position, any of them is an admissible answer",
            "source and name indices of the map are in range",
        ],
        stages: |thorough| map_stages(thorough, check),
    });
}
