//! C13: column spans of basic maps.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::IterOrd;

fn check(ch: &mut Ch, d: &Doc, m: &Model, mut c: rusty_source_map::consumer::BasicConsumer) -> Res {
    let url = |s: &sm::Seg| m.urls[s.orig.unwrap().src as usize].clone();
    let compute = |c: &mut rusty_source_map::consumer::BasicConsumer| must("compute_column_spans", || c.compute_column_spans());
    // what happens before the spans are computed
    let before = ch.pick(6);
    ch.log(|| format!("history {before} (0 none, 1 enumerate by generated, 2 by original, 3 original lookup, 4 generated lookup, 5 all-positions lookup), then compute_column_spans"));
    let first = m.urls.first().cloned().unwrap_or("none.js".into());
    let early: Vec<Raw> = match before {
        1 => enumerate(&mut c, IterOrd::GeneratedOrd)?,
        2 => enumerate(&mut c, IterOrd::OriginalOrd)?,
        3 => {
            orig_for(&mut c, 1, 1, None)?;
            vec![]
        }
        4 => {
            gen_for(&mut c, &first, 1, 1, None)?;
            vec![]
        }
        5 => all_for(&mut c, &first, 1, None)?,
        _ => vec![],
    };
    compute(&mut c)?;
    if ch.flag() {
        compute(&mut c)?;
        ch.log(|| "compute_column_spans again".into());
    }
    let e = enumerate(&mut c, IterOrd::GeneratedOrd)?;
    ch.step();
    ch.outcome(&e);
    let segs: Vec<sm::Seg> = e.iter().map(|r| r.seg).collect();
    full(e.clone(), spans_of(&segs), || format!("spans after history {before} in generated order on {}", d.json()))?;
    full(e.len(), m.segs.len(), || format!("number of mappings on {}", d.json()))?;
    let whole: std::collections::HashSet<&Raw> = e.iter().collect();
    let bare: std::collections::HashSet<&sm::Seg> = segs.iter().collect();
    for r in &early {
        ensure!(
            whole.contains(r) || r.span.is_none() && bare.contains(&r.seg),
            "before spans were computed a mapping showed a wrong span: {r:?} on {}",
            d.json()
        );
    }
    let mut o = enumerate(&mut c, IterOrd::OriginalOrd)?;
    o.sort();
    let mut eo: Vec<Raw> = e.iter().filter(|r| r.seg.orig.is_some()).cloned().collect();
    eo.sort();
    full(o, eo.clone(), || format!("spans in original order (sorted) on {}", d.json()))?;
    ch.step();
    for r in thin_out(e.iter().collect()) {
        // a mapping that is alone at its position must be the answer
        let s = r.seg;
        let (l, col) = (s.line as i32 + 1, s.col as i32);
        for b in BIASES {
            if let Some(a) = orig_for(&mut c, l, col, b)? {
                ch.step();
                let span = a.span;
                let ok = e.iter().any(|x| x.seg.orig.is_some() && m.ans(&x.seg) == a.clone().nospan() && x.span.map(|x| x as i64) == span);
                ensure!(ok, "original_position_for({l}, {col}, {b:?}) after spans: {a:?}; enumeration shows {e:?} on {}", d.json());
            }
        }
        // (the URL may mean another source, see C16)
        if let Some(orig) = s.orig.filter(|o| m.lookup(&url(&s)) == Some(o.src)) {
            let (l, col) = (orig.line as i32 + 1, orig.col as i32);
            for b in BIASES {
                let a = gen_for(&mut c, &url(&s), l, col, b)?;
                ch.step();
                let Some(a) = a else { viol!("generated_position_for finds nothing at an existing original {s:?} on {}", d.json()) };
                let ok = e.iter().any(|x| {
                    x.seg.orig.is_some() && m.ans(&x.seg) == a.clone().nospan() && a.span == Some(x.span.map_or(-1, |x| x as i64))
                });
                ensure!(ok, "generated_position_for({:?}, {l}, {col}, {b:?}) after spans: {a:?}; enumeration shows {e:?} on {}", url(&s), d.json());
            }
            for col in [None, Some(col)] {
                let got = all_for(&mut c, &url(&s), l, col)?;
                ch.step();
                for g in &got {
                    ensure!(e.contains(g), "all_generated_position_for({:?}, {l}, {col:?}) after spans: {g:?}; enumeration shows {e:?} on {}", url(&s), d.json());
                }
                let n = eo.iter().filter(|x| x.seg.orig.map(|o| (o.src, o.line)) == Some((orig.src, orig.line)) && (col.is_none() || x.seg.orig.unwrap().col == orig.col)).count();
                full(got.len(), n, || format!("number of all_generated_position_for({:?}, {l}, {col:?}) on {}", url(&s), d.json()))?;
            }
        }
    }
    let again = enumerate(&mut c, IterOrd::GeneratedOrd)?;
    full(again, e, || format!("enumeration repeated after lookups on {}", d.json()))
}

fn main() {
    run::main(Prop {
        id: "C13",
        rule: "state = one map document; transition = one enumeration or lookup after computing spans, its span end compared with the next mapping on the line; trace = one of 12 histories (6 kinds of earlier query, spans computed once or twice) on one map and a real consumer",
        assumptions: vec!["for mappings sharing a generated position, 'next' is next in the enumeration order of that consumer"],
        stages: |thorough| map_stages(thorough, check),
    });
}
