//! C29: coordinates out of range are refused, all others answered.
use mc::cons::*;
use mc::*;

const L: [i32; 14] = [i32::MIN, i32::MIN + 1, -65536, -2, -1, 0, 1, 2, 3, 4, 65536, 1 << 30, i32::MAX - 1, i32::MAX];

fn docs() -> Vec<Doc> {
    let o = |src, line, col, name| Some(sm::Orig { src, line, col, name });
    let g = |line, col, orig| sm::Seg { line, col, orig };
    let big = i32::MAX as u32 - 1;
    let mut v = vec![
        Doc::new(&[], 2, 1),
        Doc::new(&[g(0, 0, o(0, 0, 0, None))], 2, 1),
        Doc::new(&[g(0, 0, None), g(0, 2, o(1, 2, 0, Some(0))), g(2, 1, o(0, 1, 4, None)), g(2, 1, o(0, 1, 4, Some(0))), g(2, 9, None)], 2, 1),
        Doc::new(&[g(0, big, o(0, big, big, Some(0))), g(1, 0, o(0, 0, big, None)), g(1, big, o(1, big, 0, None))], 2, 1),
        Doc::new(&long(60, 3), LONG_SRC, LONG_NAMES),
        Doc::new(&long(60, 7), LONG_SRC, LONG_NAMES),
    ];
    v[2].contents = Some(vec![Some("x".into()), None]);
    v
}
/// Answers to a few ordinary queries.
fn battery(c: &mut rusty_source_map::consumer::BasicConsumer, m: &Model) -> Result<String, Viol> {
    let mut s = String::new();
    for (l, k) in [(1, 0), (1, 5), (3, 1), (2, i32::MAX)] {
        s += &format!("{:?};", orig_for(c, l, k, None)?.map(|a| a.nospan()));
        for u in [&m.urls[0], &m.urls[1]] {
            s += &format!("{:?};", gen_for(c, u, l, k, None)?.map(|a| a.nospan()));
            s += &format!("{:?};", all_for(c, u, l, None)?.iter().map(|r| r.seg).collect::<Vec<_>>());
        }
    }
    s += &format!("{:?}", enumerate(c, rusty_source_map::consumer::IterOrd::OriginalOrd)?.iter().map(|r| r.seg).collect::<Vec<_>>());
    Ok(s)
}

fn body(ch: &mut Ch, depth: usize) -> Res {
    let coords: &[i32] = if depth == 1 { &L } else { &[i32::MIN, -1, 0, 1, 3, 65536, i32::MAX] };
    let docs = docs();
    let d = ch.of(&docs);
    let m = d.model(None);
    let mut c = open_basic(&d.json(), None)?;
    let mut fresh = open_basic(&d.json(), None)?;
    let want = battery(&mut fresh, &m)?;
    match ch.pick(3) {
        1 => {
            battery(&mut c, &m)?;
        }
        2 => must("compute_column_spans", || c.compute_column_spans())?,
        _ => (),
    }
    ch.log(|| d.json());
    for _ in 0..depth {
        let kind = ch.pick(3);
        let (l, k) = (*ch.of(coords), *ch.of(coords));
        let line_bad = l < 1;
        ch.step();
        match kind {
            0 => {
                let b = *ch.of(&BIASES);
                ch.log(|| format!("original_position_for({l}, {k}, {b:?})"));
                let got = call(|| c.original_position_for(pos(l, k), b).map(Ans::of));
                ch.outcome(&got.is_ok());
                match got {
                    Ok(got) => {
                        ensure!(!line_bad && k >= 0, "original_position_for({l}, {k}, {b:?}) answers {got:?} on {}", d.json());
                        check_orig(&m, &m.orig_cands(l as i64, k as i64, lub(b)), &got, || format!("original_position_for({l}, {k}, {b:?}) on {}", d.json()))?;
                    }
                    Err(p) => ensure!((line_bad || k < 0) && !overflow(&p), "original_position_for({l}, {k}, {b:?}) panicked ({p}) on {}", d.json()),
                }
            }
            1 => {
                let b = *ch.of(&BIASES);
                let src = ch.pick(m.urls.len().min(2) + 1);
                let name = m.urls.get(src).filter(|_| src < 2).cloned().unwrap_or("unknown.js".into());
                ch.log(|| format!("generated_position_for({name}, {l}, {k}, {b:?})"));
                let got = call(|| c.generated_position_for(&name, l, k, b).map(Ans::of));
                ch.outcome(&got.is_ok());
                if src == 2 {
                    // an unknown source has no positions, whatever the coordinates
                    ensure!(!matches!(got, Ok(Some(_))), "generated_position_for({name}, {l}, {k}, {b:?}) answers {got:?}");
                    ensure!(got.is_ok() || line_bad || k < 0, "generated_position_for({name}, {l}, {k}, {b:?}) panicked on {}", d.json());
                } else {
                    match got {
                        Ok(got) => {
                            ensure!(!line_bad && k >= 0, "generated_position_for({name}, {l}, {k}, {b:?}) answers {got:?} on {}", d.json());
                            check_gen(&m, &m.gen_cands(src as u32, l as i64, k as i64, lub(b)), &got, || format!("generated_position_for({name}, {l}, {k}, {b:?}) on {}", d.json()))?;
                        }
                        Err(p) => ensure!((line_bad || k < 0) && !overflow(&p), "generated_position_for({name}, {l}, {k}, {b:?}) panicked ({p}) on {}", d.json()),
                    }
                }
            }
            _ => {
                let src = ch.pick(3);
                let name = m.urls.get(src).filter(|_| src < 2).cloned().unwrap_or("unknown.js".into());
                let k = if k == 4 { None } else { Some(k) };
                let bad = line_bad || k.map_or(false, |k| k < 0);
                ch.log(|| format!("all_generated_position_for({name}, {l}, {k:?})"));
                let got = call(|| c.all_generated_position_for(&name, l, k).iter().map(|r| raw(r).seg).collect::<Vec<_>>());
                ch.outcome(&got.is_ok());
                match got {
                    Ok(mut got) => {
                        ensure!(!bad || src == 2, "all_generated_position_for({name}, {l}, {k:?}) answers {got:?} on {}", d.json());
                        got.sort();
                        let want = if src == 2 { vec![] } else { m.all_gen(src as u32, l as i64, k.map(|k| k as i64)) };
                        full(got, want, || format!("all_generated_position_for({name}, {l}, {k:?}) on {}", d.json()))?;
                    }
                    Err(p) => ensure!(bad && !overflow(&p), "all_generated_position_for({name}, {l}, {k:?}) panicked ({p}) on {}", d.json()),
                }
            }
        }
    }
    let got = battery(&mut c, &m)?;
    ch.state(&(d.mappings.as_str(), &got));
    full(got, want, || format!("ordinary queries afterwards on {}", d.json()))
}

fn indexed_docs() -> Vec<IModel> {
    let o = |src, line, col, name| Some(sm::Orig { src, line, col, name });
    let g = |line, col, orig| sm::Seg { line, col, orig };
    let a = [g(0, 0, o(0, 0, 0, None)), g(0, 4, o(1, 2, 1, Some(0))), g(2, 0, o(0, 1, 0, None))];
    let b = [g(0, 2, None), g(0, 3, o(1, 0, 0, None)), g(1, 0, o(0, 0, 5, Some(1)))];
    [
        vec![],
        vec![((0, 0), &a[..])],
        vec![((2, 3), &a[..])],
        vec![((0, 0), &a[..]), ((3, 0), &b[..])],
        vec![((0, 5), &b[..]), ((2, 0), &a[..]), ((9, 7), &b[..])],
        vec![((0, 0), &a[..2]), ((0, 9), &a[..])],
    ]
    .into_iter()
    .map(|v| IModel::new(v.into_iter().enumerate().map(|(i, (off, s))| (off, sec_doc(s, i, true))).collect()))
    .collect()
}
fn ibattery(c: &mut rusty_source_map::consumer::IndexedConsumer, m: &IModel) -> Result<String, Viol> {
    let mut s = String::new();
    for (l, k) in [(1, 0), (1, 9), (3, 3), (4, 1), (5, i32::MAX)] {
        s += &format!("{:?};", must("original_position_for", || c.original_position_for(pos(l, k), None).map(|a| Ans::of(a).nospan()))?);
        for u in m.secs.iter().flat_map(|s| &s.m.urls) {
            s += &format!("{:?};", must("generated_position_for", || c.generated_position_for(u, l, k, None).map(|p| (p.line, p.column)))?);
            s += &format!("{:?};", must("all_generated_position_for", || c.all_generated_position_for(u, l, None).iter().map(|r| raw(r).seg).collect::<Vec<_>>())?);
        }
    }
    s += &format!("{:?}", enumerate(c, rusty_source_map::consumer::IterOrd::OriginalOrd)?.iter().map(|r| r.seg).collect::<Vec<_>>());
    Ok(s)
}
fn indexed(ch: &mut Ch) -> Res {
    let docs = indexed_docs();
    let m = ch.of(&docs);
    let mut c = open_indexed(&m.json, None)?;
    let want = ibattery(&mut open_indexed(&m.json, None)?, m)?;
    match ch.pick(3) {
        1 => {
            ibattery(&mut c, m)?;
        }
        2 => must("computed_column_spans", || c.computed_column_spans())?,
        _ => (),
    }
    let mut coords = L.to_vec();
    coords.extend([5, 6, 7, 8, 9, 10, 11]);
    let (l, k, b) = (*ch.of(&coords), *ch.of(&coords), *ch.of(&BIASES));
    let mut names: Vec<String> = m.secs.iter().flat_map(|s| s.m.urls.clone()).collect();
    names.sort();
    names.dedup();
    names.push("unknown.js".into());
    let good = l >= 1 && k >= 0;
    let what = |w: &str| format!("{w} at line {l}, column {k}, {b:?} on {}", m.json);
    match ch.pick(3) {
        0 => {
            let got = call(|| c.original_position_for(pos(l, k), b).map(Ans::of));
            ch.step();
            ch.outcome(&got.is_ok());
            ensure!(good || !matches!(got, Ok(Some(_))), "{} answers {got:?}", what("original_position_for"));
            ensure!(!good || got.is_ok(), "{} panicked: {got:?}", what("original_position_for"));
        }
        kind => {
            for name in &names {
                let got = if kind == 1 {
                    call(|| c.generated_position_for(name, l, k, b).map(|p| format!("{:?}", (p.line, p.column))))
                } else {
                    call(|| c.all_generated_position_for(name, l, Some(k)).iter().map(|r| format!("{:?}", raw(r))).next())
                };
                ch.step();
                ch.outcome(&got.is_ok());
                let q = format!("{}({name:?})", ["generated_position_for", "all_generated_position_for"][kind - 1]);
                ensure!(good || !matches!(got, Ok(Some(_))), "{} answers {got:?}", what(&q));
                ensure!(!good || got.is_ok(), "{} panicked: {got:?}", what(&q));
            }
        }
    }
    let got = ibattery(&mut c, m)?;
    ch.state(&(m.json.as_str(), l, k, &got));
    full(got, want, || format!("ordinary queries afterwards on {}", m.json))
}

/// An arithmetic overflow is no refusal: without overflow checks (release
/// builds) the lookup would go on and answer.
fn overflow(p: &str) -> bool {
    p.contains("with overflow")
}

fn main() {
    run::main(Prop {
        id: "C29",
        rule: "state = one document with the answers of its query battery; transition = one lookup with in-range or out-of-range coordinates; trace = one sequence of lookups on one real consumer, the battery compared with a fresh consumer's at the end",
        assumptions: vec!["a panic of an overflow check is no refusal, since release builds answer instead", "an unknown source may be answered with nothing or refused when the coordinates are out of range"],
        stages: |thorough| {
            let b = format!("6 documents, 3 earlier histories (none, ordinary queries, spans computed), sequences of lookups of 3 kinds, lines and columns from {L:?} (for all-positions also no column), all biases, two known sources and an unknown one");
            let mut v = vec![stage("one", format!("{b}; one lookup"), |ch| body(ch, 1))];
            v.push(stage("indexed", format!("{} indexed maps of up to 3 sections, {{every lookup of 3 kinds}}, lines and columns from {L:?} and next to the offsets, all biases, known and unknown sources: no answer out of range, an answer without panic in range, ordinary queries as before afterwards", indexed_docs().len()).replace("{every lookup of 3 kinds}", "lookups of 3 kinds"), indexed));
            if thorough {
                v.push(stage("two", format!("{b}; two lookups, lines and columns from MIN, -1, 0, 1, 3, 65536, MAX"), |ch| body(ch, 2)));
            }
            v
        },
    });
}
