//! C21: enumeration of indexed maps.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::IterOrd;

fn check(ch: &mut Ch, m: &IModel, mut c: rusty_source_map::consumer::IndexedConsumer) -> Res {
    let plan = ch.pick(4);
    let spans_at = ch.pick(3); // never, before all, between
    for k in 0..2 {
        if spans_at == k + 1 {
            must("computed_column_spans", || c.computed_column_spans())?;
            ch.log(|| "computed_column_spans".into());
        }
        let computed = spans_at > 0 && spans_at <= k + 1;
        let by_gen = plan >> k & 1 == 0;
        ch.log(|| format!("enumerate in {} order", if by_gen { "generated" } else { "original" }));
        let got = enumerate(&mut c, if by_gen { IterOrd::GeneratedOrd } else { IterOrd::OriginalOrd })?;
        ch.step();
        ch.outcome(&got);
        let what = || format!("enumeration {k} ({} order) on {}", if by_gen { "generated" } else { "original" }, m.json);
        let mut rest = &got[..];
        for (i, s) in m.secs.iter().enumerate() {
            let n = s.m.segs.iter().filter(|g| by_gen || g.orig.is_some()).count();
            ensure!(rest.len() >= n, "{}: only {} mappings, section {i} is incomplete: {got:?}", what(), got.len());
            let (part, r) = rest.split_at(n);
            rest = r;
            let mut want: Vec<sm::Seg> = s.m.segs.iter().filter(|g| by_gen || g.orig.is_some()).map(|g| shift_seg(s.off, *g)).collect();
            want.sort();
            let segs: Vec<sm::Seg> = part.iter().map(|r| r.seg).collect();
            let mut sorted = segs.clone();
            sorted.sort();
            full(sorted, want, || format!("section {i} of {} (sorted)", what()))?;
            if by_gen {
                ensure!(segs.windows(2).all(|w| w[0].gen() <= w[1].gen()), "section {i} of {}: not in generated order: {segs:?}", what());
                let exp = m.spanned(i, &segs);
                for (g, e) in part.iter().zip(&exp) {
                    ensure!(g == e || !computed && g.span.is_none(), "section {i} of {}: span end of {g:?}, expected {e:?}", what());
                }
            } else {
                let key = |s: &sm::Seg| s.orig.map(|o| (o.src, o.line, o.col));
                ensure!(segs.windows(2).all(|w| key(&w[0]) <= key(&w[1])), "section {i} of {}: not in original order: {segs:?}", what());
                // span ends as multisets per position
                for g in part {
                    let here: Vec<u32> = m.secs[i].m.segs.iter().map(|x| shift_seg(s.off, *x)).filter(|x| x.line == g.seg.line).map(|x| x.col).collect();
                    let next = here.iter().filter(|c| **c > g.seg.col).min().cloned().or(m.clip(i, &g.seg));
                    let ties = here.iter().filter(|c| **c == g.seg.col).count();
                    let ok = !computed && g.span.is_none() || g.span == next || ties > 1 && g.span == Some(g.seg.col);
                    ensure!(ok, "section {i} of {}: span end of {g:?}, expected {next:?}", what());
                }
            }
        }
        ensure!(rest.is_empty(), "{}: {} surplus mappings: {rest:?}", what(), rest.len());
        if by_gen {
            // as the flat map: sorted all over
            ensure!(got.windows(2).all(|w| w[0].seg.gen() <= w[1].seg.gen()), "{}: not the order of the flat map: {got:?}", what());
        }
    }
    Ok(())
}
fn main() {
    run::main(Prop {
        id: "C21",
        rule: "state = one indexed map; transition = one enumeration compared with the shifted reference mappings of every section; trace = one sequence of two enumerations (any orders), spans computed never, before, or in between",
        assumptions: vec!["sections do not overlap", "source and name indices are those of the section"],
        stages: |thorough| indexed_stages(thorough, check),
    });
}
