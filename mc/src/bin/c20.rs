//! C20: reverse lookups on indexed maps.
use mc::cons::*;
use mc::*;

fn check(ch: &mut Ch, m: &IModel, mut c: rusty_source_map::consumer::IndexedConsumer) -> Res {
    let spans = ch.flag();
    if spans {
        must("computed_column_spans", || c.computed_column_spans())?;
    }
    let mut urls: Vec<String> = m.secs.iter().flat_map(|s| s.m.urls.clone()).collect();
    if m.secs.len() <= 3 {
        urls.extend(m.secs.iter().flat_map(|s| s.d.sources.clone()));
    }
    urls.sort();
    urls.dedup();
    let n = urls.len();
    if n > 100 {
        urls = urls.into_iter().enumerate().filter(|(i, _)| i % (n / 4) == 0 || *i + 2 >= n).map(|x| x.1).collect();
    } else if n > 16 {
        urls = urls.into_iter().enumerate().filter(|(i, _)| i % 7 == 0 || *i + 2 >= n).map(|x| x.1).collect();
    }
    for u in &urls {
        let (k, src) = m.section_of(u).unwrap();
        let s = &m.secs[k];
        let (mut lines, mut cols) = s.m.orig_grid();
        if lines.len() * cols.len() * s.m.segs.len() > 20_000 {
            (lines, cols) = (some_of(lines, 18), some_of(cols, 9));
        }
        // the section's mappings as enumerated by itself: decides ties
        let mut alone = open_basic(&s.d.json(), m.url.as_deref())?;
        let order: Vec<sm::Seg> = enumerate(&mut alone, rusty_source_map::consumer::IterOrd::GeneratedOrd)?.iter().map(|r| r.seg).collect();
        let mut spanned: Vec<Raw> = spans_of(&order);
        for r in &mut spanned {
            let first = r.seg.line == 0;
            r.seg = shift_seg(s.off, r.seg);
            r.span = match r.span {
                Some(x) => Some(if first { x + s.off.1 } else { x }),
                None => m.clip(k, &r.seg),
            };
        }
        for &l in &lines {
            for &col in &cols {
                for b in BIASES {
                    let got = must("generated_position_for", || c.generated_position_for(u, l, col, b).map(|p| (p.line as i64, p.column as i64)))?;
                    ch.step();
                    ch.outcome(&got);
                    let want: Vec<(i64, i64)> = s.m.gen_cands(src, l as i64, col as i64, lub(b)).iter().map(|g| {
                        let t = shift_seg(s.off, *g);
                        (t.line as i64 + 1, t.col as i64)
                    }).collect();
                    let ok = match &got { None => want.is_empty(), Some(g) => want.contains(g) };
                    ensure!(ok, "generated_position_for({u:?}, line {l}, column {col}, {b:?}) answered {got:?}; admissible from section {k}: {want:?} on {}", m.json);
                }
            }
            for col in std::iter::once(None).chain(cols.iter().map(|c| Some(*c))) {
                let mut got: Vec<Raw> = must("all_generated_position_for", || c.all_generated_position_for(u, l, col).iter().map(raw).collect::<Vec<_>>())?;
                ch.step();
                ch.outcome(&got);
                let what = || format!("all_generated_position_for({u:?}, line {l}, column {col:?}) on {}", m.json);
                let want: Vec<sm::Seg> = s.m.all_gen(src, l as i64, col.map(|c| c as i64)).iter().map(|g| shift_seg(s.off, *g)).collect();
                let mut segs: Vec<sm::Seg> = got.iter().map(|r| r.seg).collect();
                segs.sort();
                let mut w = want.clone();
                w.sort();
                full(segs, w, || what())?;
                if spans {
                    got.sort();
                    let mut w: Vec<Raw> = spanned.iter().filter(|r| want.contains(&r.seg)).cloned().collect();
                    w.sort();
                    full(got, w, || format!("span ends after computing spans: {}", what()))?;
                } else {
                    for g in &got {
                        // unknown, or the end within the section, or the next section
                        ensure!(g.span.is_none() || spanned.contains(g), "wrong span end {g:?} before computing spans: {}", what());
                    }
                }
            }
        }
    }
    for u in ["nowhere.js", ""] {
        if m.section_of(u).is_some() {
            continue;
        }
        for b in BIASES {
            let got = must("generated_position_for", || c.generated_position_for(u, 1, 0, b).map(|p| (p.line, p.column)))?;
            full(got, None, || format!("generated_position_for of an unknown source on {}", m.json))?;
        }
        for col in [None, Some(0)] {
            let got = must("all_generated_position_for", || c.all_generated_position_for(u, 1, col).len())?;
            full(got, 0, || format!("all_generated_position_for of an unknown source on {}", m.json))?;
        }
    }
    Ok(())
}
const ALIKE: [&str; 6] = ["a/x.js", "b/x.js", "a/y.js", "x.js", "d/x.js", "A/x.js"];
fn main() {
    run::main(Prop {
        id: "C20",
        rule: "state = one indexed map; transition = one reverse lookup (every source, every original line and column next to and at every coordinate, biases, with and without column) compared with the reference answer of the first section listing the source, shifted; trace = all queries of one map, before or after spans are computed",
        assumptions: vec!["sections do not overlap", "sources are queried by their reported URL", "for mappings sharing an original position, any of them is an admissible answer"],
        stages: |thorough| {
            let mut v = indexed_stages(thorough, check);
            v.push(stage("look-alikes", format!("2 or 3 sections of 2 sources each, every choice from {ALIKE:?} (of the third section: one, from two), 2 map URLs"), |ch| {
                let n = 2 + ch.pick(2);
                let url = *ch.of(&[None, Some("d/m.map")]);
                let o = |src, line| Some(sm::Orig { src, line, col: 0, name: None });
                let secs = (0..n as u32)
                    .map(|i| {
                        let mut d = sec_doc(&[sm::Seg { line: 0, col: 1, orig: o(0, 0) }, sm::Seg { line: 0, col: 3 + i, orig: o(1, 0) }], i as usize, true);
                        d.sources = if i < 2 { (0..2).map(|_| ch.of(&ALIKE).to_string()).collect() } else { vec![ch.of(&ALIKE[..2]).to_string(), "z.js".into()] };
                        ((4 * i, 0), d)
                    })
                    .collect();
                let m = IModel::with_url(secs, url);
                ch.log(|| format!("map {} with URL {url:?}", m.json));
                ch.state(&(&m.json, url));
                let c = open_indexed(&m.json, url)?;
                check(ch, &m, c)
            }));
            v
        },
    });
}
