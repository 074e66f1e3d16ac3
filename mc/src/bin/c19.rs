//! C19: original-position lookup on indexed maps.
use mc::cons::*;
use mc::*;

fn check(ch: &mut Ch, m: &IModel, mut c: rusty_source_map::consumer::IndexedConsumer) -> Res {
    let (lines, cols) = m.grid();
    let spans = ch.flag();
    if spans {
        must("computed_column_spans", || c.computed_column_spans())?;
    }
    for &l in &lines {
        for &col in &cols {
            for b in BIASES {
                let got = must("original_position_for", || c.original_position_for(pos(l, col), b).map(Ans::of))?;
                ch.step();
                ch.outcome(&got);
                let what = || format!("original_position_for(line {l}, column {col}, {b:?}) on {}", m.json);
                let at = (l as i64 - 1, col as i64);
                match m.section_at(at) {
                    None => full(got, None, what)?,
                    Some(k) => {
                        let s = &m.secs[k];
                        let (ol, oc) = (s.off.0 as i64, s.off.1 as i64);
                        let (rl, rc) = (at.0 - ol, if at.0 == ol { at.1 - oc } else { at.1 });
                        let cands = s.m.orig_cands(rl + 1, rc, lub(b));
                        let want: Vec<Option<Ans>> = cands.iter().map(|g| g.orig.map(|_| Ans { g: {
                            let t = shift_seg(s.off, *g);
                            (t.line as i64 + 1, t.col as i64)
                        }, ..s.m.ans(g) })).collect();
                        let g = got.clone().map(|a| a.nospan());
                        let ok = if want.is_empty() { g.is_none() } else { want.contains(&g) };
                        ensure!(ok, "{} answered {got:?}; admissible from section {k}: {want:?}", what());
                        if let (true, Some(a)) = (spans, &got) {
                            // the end of the mapping's span, where the order on its position is clear
                            let gc = a.g.1;
                            let same = s.m.segs.iter().filter(|x| shift_seg(s.off, **x).gen() == ((a.g.0 - 1) as u32, gc as u32)).count();
                            if same == 1 {
                                let next = s.m.segs.iter().map(|x| shift_seg(s.off, *x)).filter(|x| x.line as i64 == a.g.0 - 1 && x.col as i64 > gc).map(|x| x.col as i64).min();
                                let want = next.or(m.secs.get(k + 1).filter(|n| n.off.0 as i64 == a.g.0 - 1).map(|n| n.off.1 as i64));
                                full(a.span, want, || format!("span end of {}", what()))?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn main() {
    run::main(Prop {
        id: "C19",
        rule: "state = one indexed map; transition = one original_position_for call (every line and column next to and at every offset and mapping, 3 biases) compared with the reference section search and the reference answer of that section; trace = all queries of one map on one real consumer, before or after spans are computed",
        assumptions: vec!["sections do not overlap", "for mappings sharing a generated position, any of them is an admissible answer"],
        stages: |thorough| indexed_stages(thorough, check),
    });
}
