//! C28: mapping text is decoded exactly or refused.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::*;

const NSRC: usize = 70;

/// One round of queries; None = malformed.
fn round(ch: &mut Ch, c: &mut Consumer, m: Option<&Model>, start: usize, text: &str) -> Res {
    let hit = m.and_then(|m| m.segs.first().cloned());
    let src = hit.and_then(|s| s.orig).map_or(0, |o| o.src);
    let name = format!("s{src}.js");
    for k in 0..6 {
        ch.step();
        match (start + k) % 6 {
            0 | 1 => {
                let ord = if (start + k) % 6 == 0 { IterOrd::GeneratedOrd } else { IterOrd::OriginalOrd };
                let by_orig = matches!(ord, IterOrd::OriginalOrd);
                let got = match c {
                    Consumer::BasicConsumer(c) => enumerate(c, ord)?,
                    Consumer::IndexedConsumer(c) => enumerate(c, ord)?,
                };
                let got: Vec<sm::Seg> = got.iter().map(|r| r.seg).collect();
                ch.outcome(&got);
                let mut sorted = got.clone();
                sorted.sort();
                let mut want: Vec<sm::Seg> = m.map_or(vec![], |m| m.segs.iter().filter(|s| !by_orig || s.orig.is_some()).cloned().collect());
                want.sort();
                full(sorted, want, || format!("enumeration (original order: {by_orig}) of mappings {text:?}"))?;
                if !by_orig {
                    ensure!(got.windows(2).all(|w| w[0].gen() <= w[1].gen()), "enumeration of {text:?} is not in generated order: {got:?}");
                }
            }
            2 => {
                let mut at: Vec<(i64, i64)> = m.map_or(vec![(1, 0)], |m| thin_out(m.segs.clone()).iter().map(|s| (s.line as i64 + 1, s.col as i64)).collect());
                at.push((1, 1));
                for (l, k) in at {
                    let p = pos(l as i32, k as i32);
                    let got = match c {
                        Consumer::BasicConsumer(c) => call(|| c.original_position_for(p, None).map(Ans::of)),
                        Consumer::IndexedConsumer(c) => call(|| c.original_position_for(p, None).map(Ans::of)),
                    };
                    match (m, got) {
                        (Some(m), Ok(got)) => check_orig(m, &m.orig_cands(l, k, false), &got, || format!("original_position_for({l}, {k}) on mappings {text:?}"))?,
                        (Some(_), Err(p)) => viol!("original_position_for({l}, {k}) on valid mappings {text:?} panicked: {p}"),
                        (None, Ok(got)) => viol!("original_position_for({l}, {k}) on malformed mappings {text:?} answers {got:?}"),
                        (None, Err(_)) => (),
                    }
                }
            }
            3 => {
                let (l, k) = hit.and_then(|s| s.orig).map_or((1, 0), |o| (o.line as i32 + 1, o.col as i32));
                let got = match c {
                    Consumer::BasicConsumer(c) => call(|| c.generated_position_for(&name, l, k, None).map(|a| (a.generated.line, a.generated.column))),
                    Consumer::IndexedConsumer(c) => call(|| c.generated_position_for(&name, l, k, None).map(|p| (p.line, p.column))),
                };
                match (m, got) {
                    (Some(m), Ok(got)) => {
                        let c: Vec<_> = m.gen_cands(src, l as i64, k as i64, false).iter().map(|s| (s.line as i32 + 1, s.col as i32)).collect();
                        let ok = got.map_or(c.is_empty(), |g| c.contains(&g));
                        ensure!(ok, "generated_position_for({name}, {l}, {k}) on mappings {text:?} is {got:?}, admissible {c:?}");
                    }
                    (Some(_), Err(p)) => viol!("generated_position_for({name}, {l}, {k}) on valid mappings {text:?} panicked: {p}"),
                    (None, Ok(got)) => viol!("generated_position_for({name}, {l}, {k}) on malformed mappings {text:?} answers {got:?}"),
                    (None, Err(_)) => (),
                }
            }
            4 => {
                let l = hit.and_then(|s| s.orig).map_or(1, |o| o.line as i32 + 1);
                let got = match c {
                    Consumer::BasicConsumer(c) => call(|| c.all_generated_position_for(&name, l, None).iter().map(raw).collect::<Vec<_>>()),
                    Consumer::IndexedConsumer(c) => call(|| c.all_generated_position_for(&name, l, None).iter().map(raw).collect::<Vec<_>>()),
                };
                match (m, got) {
                    (Some(m), Ok(got)) => {
                        let mut got: Vec<sm::Seg> = got.iter().map(|r| r.seg).collect();
                        got.sort();
                        full(got, m.all_gen(src, l as i64, None), || format!("all_generated_position_for({name}, {l}) on mappings {text:?}"))?
                    }
                    (Some(_), Err(p)) => viol!("all_generated_position_for({name}, {l}) on valid mappings {text:?} panicked: {p}"),
                    (None, Ok(got)) => viol!("all_generated_position_for({name}, {l}) on malformed mappings {text:?} answers {got:?}"),
                    (None, Err(_)) => (),
                }
            }
            _ => {
                let got = match c {
                    Consumer::BasicConsumer(c) => call(|| c.compute_column_spans()),
                    Consumer::IndexedConsumer(c) => call(|| c.computed_column_spans()),
                };
                ensure!(got.is_ok() == m.is_some(), "computing spans of mappings {text:?} (malformed: {}) gave {got:?}", m.is_none());
            }
        }
    }
    Ok(())
}
fn check(ch: &mut Ch, text: &str, starts: usize, indexed: bool) -> Res {
    // more than five fields are outside of the format and of this property
    if text.split([',', ';']).any(|s| matches!(sm::fields(s), Ok(f) if f.len() > 5)) {
        return Ok(());
    }
    if text.contains("ggggggg") {
        return Ok(()); // numbers of more than 35 bits
    }
    let mut d = Doc::new(&[], 2, NSRC);
    d.mappings = text.to_string();
    let m = match sm::decode(text) {
        Ok(segs) => {
            let n = segs.iter().filter_map(|s| s.orig).map(|o| o.src).max().unwrap_or(1).max(1);
            d.sources = (0..=n.min(NSRC as u32)).map(|i| format!("s{i}.js")).collect();
            if segs.iter().any(|s| s.orig.map_or(false, |o| o.src > NSRC as u32 || o.name.unwrap_or(0) >= NSRC as u32)) {
                return Ok(()); // indices outside of the document's lists
            }
            Some(d.model(None))
        }
        Err(_) => None,
    };
    let start = ch.pick(starts);
    ch.log(|| format!("mappings {text:?}, malformed: {}, queries from number {start} on, twice", m.is_none()));
    ch.state(text);
    let mut c = if indexed { open(&indexed_json(&[((0, 0), d.json())]), None)? } else { open(&d.json(), None)? };
    round(ch, &mut c, m.as_ref(), start, text)?;
    round(ch, &mut c, m.as_ref(), start + 2, text)
}

/// Segment texts around the border between valid and not.
const SEGS: [&str; 24] = [
    "", "A", "C", "D", "B", "g", "gB", "gA", "!", "AA", "AAA", "AAAA", "AAAAA", "CCCC", "DDDD", "AADA", "AAAD", "AAAAD", "ADAA", "CCCCC", "AAAAg", "AAgBA", "gggB", "A=",
];

fn main() {
    run::main(Prop {
        id: "C28",
        rule: "state = one mappings text; transition = one query whose answer is compared with the reference decoding; trace = two rounds of six kinds of queries on one real consumer, started at each of several kinds",
        assumptions: vec![
            "segments of more than five fields, numbers of more than 35 bits and indices outside the document's source and name lists are left out",
            "overlong encodings (trailing zero digits) and negative zero denote their value",
        ],
        stages: |thorough| {
            let n = if thorough { 7 } else { 5 };
            let k = if thorough { 4 } else { 3 };
            let chars = ["A", "C", "D", "g", "h", ",", ";", "!", "\u{e9}"];
            let every = |name: &str, n: usize, starts: usize, indexed: bool| {
                let chars = chars.to_vec();
                stage(name, format!("every text of 0..={n} characters from {chars:?}, queries started at {starts} kinds, indexed: {indexed}"), move |ch| {
                    let len = ch.pick(n + 1);
                    let t: String = (0..len).map(|_| *ch.of(&chars)).collect();
                    check(ch, &t, starts, indexed)
                })
            };
            vec![
                every("texts", n, 6, false),
                every("texts-indexed", n - 1, 3, true),
                stage("bytes", "every single character U+0000..U+017F alone, before, within and after valid segments", |ch| {
                    let x = char::from_u32(ch.pick(0x180) as u32).unwrap();
                    let t = match ch.pick(11) {
                        5 => format!("{x}AAAA"),
                        6 => format!("AA{x}AA"),
                        7 => format!("AAAA,{x}"),
                        8 => format!("{x}C;AAAA,{x}A,AAA{x}B"),
                        9 => format!("AAAA{x}AAAA"),
                        10 => format!("{x}{x}{x}A"),
                        0 => format!("{x}"),
                        1 => format!("{x}AAA"),
                        2 => format!("AAA{x}"),
                        3 => format!("AAAA,C;{x}"),
                        _ => format!("AA{x}A,{x},AAAA"),
                    };
                    check(ch, &t, 6, false)
                }),
                stage("characters", "every Unicode scalar value before, within and after valid segments, one lookup each (blocks of 64)", |ch| {
                    let b = ch.pick(0x110000 / 64) as u32;
                    for x in (b * 64..(b + 1) * 64).filter_map(char::from_u32) {
                        if x < '\u{180}' {
                            continue;
                        }
                        for t in [format!("{x}AAAA"), format!("AAAA{x}"), format!("AAAA;{x};AAAA")] {
                            let mut d = Doc::new(&[], 1, 1);
                            d.mappings = t.clone();
                            let mut c = open_basic(&d.json(), None)?;
                            ch.step();
                            if let Ok(got) = call(|| c.original_position_for(pos(1, 0), None)) {
                                viol!("original_position_for(1, 0) on malformed mappings {t:?} answers {:?}", got.map(Ans::of));
                            }
                        }
                    }
                    ch.state(&b);
                    Ok(())
                }),
                stage("gaps", format!("1..=300 or {SIZES:?} separators (';', ',' or ',;' in turn) after 0..=2 segments, and then one of the segments above, and then a good one or none"), |ch| {
                    let k = ch.pick(300 + SIZES.len());
                    let n = if k < 300 { 1 + k } else { SIZES[k - 300] };
                    let mut t = ["", "AAAA", "AAAA,CACC"][ch.pick(3)].to_string();
                    t += &ch.of(&[";", ",", ",;"]).repeat(n)[..n];
                    t += ch.of(&SEGS);
                    t += ch.of(&["", ";CAAC"]);
                    check(ch, &t, 1, false)
                }),
                stage("segments", format!("every text of 0..={k} segments from {SEGS:?}, joined by ',' or ';'"), move |ch| {
                    let len = ch.pick(k + 1);
                    let mut t = String::new();
                    for i in 0..len {
                        if i > 0 {
                            t += ch.of(&[",", ";"]);
                        }
                        t += ch.of(&SEGS);
                    }
                    check(ch, &t, if len < 3 { 6 } else { 2 }, false)
                }),
                stage("late", "0..=80, 127..=129, 255..=257, 511..=513, 1000, 1023..=1025 or 4097 good segments on one or several lines, then one of the segments above, then 0..=3 good ones", |ch| {
                    let k = ch.pick(81 + SIZES.len());
                    let n = if k <= 80 { k } else { SIZES[k - 81] };
                    let sep = *ch.of(&[",", ";", ",;"]);
                    let mut t = vec!["CACC"; n];
                    t.push(ch.of(&SEGS));
                    for _ in 0..ch.pick(4) {
                        t.push("EAAC");
                    }
                    check(ch, &t.join(sep), 2, false)
                }),
            ]
        },
    });
}
