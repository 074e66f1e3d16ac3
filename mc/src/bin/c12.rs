//! C12: enumeration of basic maps.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::IterOrd;

fn check(ch: &mut Ch, d: &Doc, m: &Model, mut c: rusty_source_map::consumer::BasicConsumer) -> Res {
    let mut want = m.segs.clone();
    want.sort();
    let mut want_o: Vec<sm::Seg> = want.iter().filter(|s| s.orig.is_some()).cloned().collect();
    want_o.sort();
    // every order of three enumerations
    let plan = ch.pick(8);
    for k in 0..3 {
        if plan >> k & 1 == 0 {
            let got: Vec<sm::Seg> = enumerate(&mut c, IterOrd::GeneratedOrd)?.iter().map(|r| r.seg).collect();
            ensure!(got.windows(2).all(|w| w[0].gen() <= w[1].gen()), "enumeration {k} in generated order is not sorted: {got:?} on {}", d.json());
            ch.outcome(&got);
            let mut s = got;
            s.sort();
            full(s, want.clone(), || format!("enumeration {k} in generated order (sorted) on {}", d.json()))?;
        } else {
            let got: Vec<sm::Seg> = enumerate(&mut c, IterOrd::OriginalOrd)?.iter().map(|r| r.seg).collect();
            ensure!(
                got.iter().all(|s| s.orig.is_some())
                    && got.windows(2).all(|w| {
                        let k = |s: &sm::Seg| s.orig.map(|o| (o.src, o.line, o.col));
                        k(&w[0]) <= k(&w[1])
                    }),
                "enumeration {k} in original order is not sorted or has mappings without original: {got:?} on {}",
                d.json()
            );
            ch.outcome(&got);
            let mut s = got;
            s.sort();
            full(s, want_o.clone(), || format!("enumeration {k} in original order (sorted) on {}", d.json()))?;
        }
        ch.step();
    }
    Ok(())
}

fn main() {
    run::main(Prop {
        id: "C12",
        rule: "state = one map document; transition = one enumeration (each of the 8 sequences of three enumerations, generated or original order) compared with the reference decoder; trace = one sequence on one real consumer",
        assumptions: vec!["the relative order of mappings that share their position is not specified"],
        stages: |thorough| {
            let mut v = map_stages(thorough, check);
            // free text structure: separators anywhere, columns going back
            let toks = [";", ",", "A", "K", "F", "AACA", "CCAC", "EADDA", "MAAAC"];
            let n = if thorough { 7 } else { 6 };
            v.push(stage("structure", format!("every well-formed text of up to {n} tokens from {toks:?}"), move |ch| {
                let mut t = String::new();
                let mut open = false;
                for _ in 0..n {
                    // a segment cannot directly follow a segment
                    let k = ch.pick(if open { 3 } else { toks.len() + 1 });
                    if k == 0 {
                        break;
                    }
                    t += toks[k - 1];
                    open = k > 2;
                }
                if sm::decode(&t).is_err() {
                    return Ok(());
                }
                let mut d = Doc::new(&[], 3, 3);
                d.mappings = t;
                let m = d.model(None);
                ch.log(|| format!("map {}", d.json()));
                ch.state(&d.mappings);
                check(ch, &d, &m, open_basic(&d.json(), None)?)
            }));
            v
        },
    });
}
