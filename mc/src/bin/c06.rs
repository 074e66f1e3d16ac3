//! C06: emitted source contents stay aligned with their sources.
use mc::gen::*;
use mc::*;
use std::collections::HashMap;

/// A root, and spellings grouped by the file they denote under that root.
struct World {
    root: Option<&'static str>,
    spell: &'static [(&'static str, u8)],
}
const WORLDS: &[World] = &[
    World { root: None, spell: &[("a.js", 0), ("b.js", 1), ("dir/c.js", 2), ("http://h/d.js", 3)] },
    World { root: Some("/the/root"), spell: &[("one.js", 0), ("/the/root/one.js", 0), ("/the/root/sub/../one.js", 0), ("/the/root/sub/two.js", 1), ("sub/two.js", 1), ("/the/other.js", 2), ("/the/rootx/one.js", 3)] },
    World { root: Some("/the/root/"), spell: &[("one.js", 0), ("/the/root/one.js", 0), ("./one.js", 0), ("/one.js", 1), ("/the/root/one.js?q", 2), ("../../one.js", 1)] },
    World { root: Some("http://h/r"), spell: &[("http://h/r/one.js", 0), ("one.js", 0), ("http://h2/r/one.js", 1), ("http://h/r/sub/./two.js", 2), ("sub/two.js", 2), ("http://h:8080/r/one.js", 3)] },
    World { root: Some("lib"), spell: &[("one.js", 0), ("./one.js", 0), ("two.js", 1), ("x/../two.js", 1), ("three/one.js", 2)] },
    World { root: Some(""), spell: &[("one.js", 0), ("./one.js", 0), ("two.js", 1)] },
    World { root: Some("."), spell: &[("one.js", 0), ("./one.js", 0), ("two.js", 1)] },
    World { root: Some("//h/r"), spell: &[("//h/r/one.js", 0), ("one.js", 0), ("//h2/r/one.js", 1), ("//h/r/../two.js", 2)] },
    World { root: None, spell: &[("a.js", 0), ("a.js#x", 1), ("a.js?x", 2), ("A.js", 3), ("a.js ", 4), ("./a.js", 5), ("", 6)] },
    World { root: Some("/r"), spell: &[("/r/a.js", 0), ("a.js", 0), ("a.js#x", 1), ("/r/a.js#x", 1), ("a.js?x", 2), ("/r/A.js", 3), ("/R/a.js", 4)] },
    World { root: Some("webpack:///"), spell: &[("webpack:///one.js", 0), ("one.js", 0), ("webpack:///./sub/two.js", 1), ("sub/two.js", 1)] },
];

/// Contents that say little.
const BLANK: [&str; 10] = ["\n", "\n\n", "\r", "\r\n", "\t", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}"];

#[derive(Clone, Debug, Hash)]
enum Op {
    Map(usize),
    Set(usize, &'static str),
    Del(usize),
}

fn check(ch: &mut Ch, w: &World, ops: &[Op], probe: bool) -> Res {
    let name = |i: usize| w.spell[i].0;
    let skip = ch.flag();
    ch.log(|| format!("root {:?}, skipping validation: {skip}", w.root));
    let mut g = new_gen(None, w.root, skip);
    let mut held: HashMap<u8, &str> = HashMap::new();
    let mut used: Vec<usize> = vec![];
    let verify = |g: &mut _, held: &HashMap<u8, &str>, used: &[usize], i: usize, ch: &mut Ch| -> Res {
        let o = decode(&emit(g)?)?;
        ch.step();
        ch.outcome(&o.text);
        let names: Vec<String> = used.iter().map(|u| name(*u).to_string()).collect();
        ensure!(o.sources == names, "root {:?}, {:?}: sources {:?}, expected {names:?}", w.root, &ops[..=i], o.sources);
        let got = &o.json["sourcesContent"];
        if held.is_empty() {
            ensure!(o.json.get("sourcesContent").is_none(), "root {:?}, {:?}: no content is held but sourcesContent is {got}", w.root, &ops[..=i]);
        } else {
            let want: Vec<serde_json::Value> = used.iter().map(|u| held.get(&w.spell[*u].1).map_or(serde_json::Value::Null, |c| (*c).into())).collect();
            ensure!(*got == serde_json::Value::from(want.clone()), "root {:?}, {:?}: sources {names:?} have contents {got}, expected {want:?}", w.root, &ops[..=i]);
        }
        Ok(())
    };
    let mut line = 1;
    for (i, op) in ops.iter().enumerate() {
        ch.step();
        ch.log(|| match op {
            Op::Map(k) => format!("add mapping of source {:?}", name(*k)),
            Op::Set(k, c) => format!("set content of {:?} to {c:?}", name(*k)),
            Op::Del(k) => format!("remove content of {:?}", name(*k)),
        });
        match op {
            Op::Map(k) => {
                add(&mut g, &m(line, 0, Some((1, 0, name(*k))), None))?;
                line += 1;
                if !used.contains(k) {
                    used.push(*k)
                }
            }
            Op::Set(k, c) => {
                must("set_source_content", || g.set_source_content(name(*k).into(), Some(c.to_string())))?;
                held.insert(w.spell[*k].1, c);
            }
            Op::Del(k) => {
                must("set_source_content", || g.set_source_content(name(*k).into(), None))?;
                held.remove(&w.spell[*k].1);
            }
        }
        ch.state(&(w.root, &ops[..=i]));
        if probe || i + 1 == ops.len() {
            verify(&mut g, &held, &used, i, ch)?;
        }
    }
    Ok(())
}

fn main() {
    run::main(Prop {
        id: "C06",
        rule: "state = one history of operations on one root; transition = one operation or emission on the real generator; trace = one history with the emitted contents list compared with the reference content table",
        assumptions: vec!["which spellings denote the same file is given by hand for each root (WORLDS in c06.rs); without a root only identical text denotes the same file"],
        stages: |thorough| {
            let mut v = vec![];
            for (wi, w) in WORLDS.iter().enumerate() {
                let n = w.spell.len();
                let mut al: Vec<Op> = vec![];
                for k in 0..n {
                    al.push(Op::Map(k));
                    al.push(Op::Set(k, "A"));
                    al.push(Op::Del(k));
                }
                al.push(Op::Set(0, "B"));
                al.push(Op::Set(0, ""));
                let small: Vec<Op> = vec![Op::Map(0), Op::Map(1), Op::Map(2), Op::Set(0, "A"), Op::Set(1, "B"), Op::Set(2, "C"), Op::Del(0), Op::Del(1)];
                let d = if thorough { 5 } else { 4 };
                v.push(stage(format!("world{wi}-all-{d}"), format!("root {:?}: every history of {d} of the {} operations (add mapping / set / remove, any of {:?})", w.root, al.len(), w.spell), move |ch| {
                    let ops: Vec<Op> = (0..d).map(|_| ch.of(&al).clone()).collect();
                    check(ch, &WORLDS[wi], &ops, true)
                }));
                let d = if thorough { 7 } else { 6 };
                v.push(stage(format!("world{wi}-few-{d}"), format!("root {:?}: every history of {d} of {small:?}, emitted only at the end", w.root), move |ch| {
                    let ops: Vec<Op> = (0..d).map(|_| ch.of(&small).clone()).collect();
                    check(ch, &WORLDS[wi], &ops, false)
                }));
            }
            v.push(stage("texts", format!("{} texts as the contents of two sources (every pair), set, or set and replaced by another of these, or removed again; set before or after the mappings; with emission between or not; with a root or without", TEXTS.len() + BLANK.len()), |ch| {
                let all: Vec<&str> = TEXTS.iter().chain(&BLANK).cloned().collect();
                let (a, b) = (*ch.of(&all), *ch.of(&all));
                let root = *ch.of(&[None, Some("/r")]);
                let (early, between, then) = (ch.flag(), ch.flag(), ch.pick(3));
                let mut g = new_gen(None, root, false);
                let put = |g: &mut _| -> Res {
                    add(g, &m(1, 0, Some((1, 0, "s.js")), None))?;
                    add(g, &m(1, 1, Some((1, 0, "t.js")), None))
                };
                if early {
                    must("set_source_content", || g.set_source_content("s.js".into(), Some(a.into())))?;
                    put(&mut g)?;
                } else {
                    put(&mut g)?;
                    must("set_source_content", || g.set_source_content("s.js".into(), Some(a.into())))?;
                }
                must("set_source_content", || g.set_source_content("t.js".into(), Some(b.into())))?;
                if between {
                    emit(&mut g)?;
                }
                let mut want = [Some(a), Some(b)];
                match then {
                    0 => {}
                    1 => {
                        must("set_source_content", || g.set_source_content("s.js".into(), Some(b.into())))?;
                        want[0] = Some(b);
                    }
                    _ => {
                        must("set_source_content", || g.set_source_content("t.js".into(), None))?;
                        want[1] = None;
                    }
                }
                ch.steps(5);
                let o = decode(&emit(&mut g)?)?;
                ch.state(&(a, b, root, early, between, then));
                ch.outcome(&o.text);
                let want: Vec<serde_json::Value> = want.iter().map(|w| w.map_or(serde_json::Value::Null, |w| w.into())).collect();
                ensure!(o.json["sourcesContent"] == serde_json::Value::from(want.clone()), "contents {a:?} and {b:?}, then step {then}, root {root:?}: {}, expected {want:?}", o.text);
                Ok(())
            }));
            v.push(stage("same-texts", "contents that are the texts of the sources, of the file, of the root or of each other: 3 sources, each with any of 9 contents or none; 3 roots, 2 files; set before or after the mappings, 3 of which have a name that is one of these texts", |ch| {
                const T: [&str; 9] = ["one.js", "two.js", "/r/one.js", "/r", "out.js", "r", "x", "", "null"];
                const S: [&str; 3] = ["one.js", "two.js", "three.js"];
                let root = *ch.of(&[None, Some("/r"), Some("one.js")]);
                let file = *ch.of(&[None, Some("out.js")]);
                let want: Vec<Option<&str>> = S.iter().map(|_| { let k = ch.pick(T.len() + 1); T.get(k).cloned() }).collect();
                let early = ch.flag();
                let mut g = new_gen(file, root, false);
                for turn in 0..2 {
                    if (turn == 0) == early {
                        for (s, c) in S.iter().zip(&want) {
                            if let Some(c) = c {
                                must("set_source_content", || g.set_source_content(s.to_string(), Some(c.to_string())))?;
                            }
                        }
                    } else {
                        for (i, s) in S.iter().enumerate() {
                            add(&mut g, &m(1, i as i32, Some((1, 0, s)), want[i]))?;
                        }
                    }
                }
                ch.steps(6);
                let o = decode(&emit(&mut g)?)?;
                ch.state(&(root, file, &want, early));
                ch.outcome(&o.text);
                let json: Vec<serde_json::Value> = want.iter().map(|w| w.map_or(serde_json::Value::Null, |w| w.into())).collect();
                let json = if want.iter().any(|w| w.is_some()) { serde_json::Value::from(json) } else { serde_json::Value::Null };
                ensure!(o.json["sourcesContent"] == json, "contents {want:?}, root {root:?}, file {file:?}: {}, expected {json}", o.text);
                Ok(())
            }));
            let top = if thorough { 10 } else { 8 };
            v.push(stage("subsets", format!("0..={top} sources added in order; every subset has content, every rotation of the setting order"), move |ch| {
                let n = ch.pick(top + 1);
                let mask = ch.pick(1 << n);
                let rot = ch.pick(n.max(1));
                let root = *ch.of(&[None, Some("/r")]);
                let src = |i: usize| format!("s{i}.js");
                let mut g = new_gen(None, root, false);
                for i in 0..n {
                    add(&mut g, &M { g: (1, i as i32), o: Some((1, 0, src(i))), name: None })?;
                }
                for k in 0..n {
                    let i = (k + rot) % n;
                    if mask >> i & 1 == 1 {
                        must("set_source_content", || g.set_source_content(src(i), Some(format!("content {i}"))))?;
                        ch.step();
                    }
                }
                let o = decode(&emit(&mut g)?)?;
                ch.state(&(n, mask, rot, root));
                ch.outcome(&o.text);
                let want: Vec<serde_json::Value> = (0..n).map(|i| if mask >> i & 1 == 1 { format!("content {i}").into() } else { serde_json::Value::Null }).collect();
                if mask == 0 {
                    ensure!(o.json.get("sourcesContent").is_none(), "no content is held: {}", o.text);
                } else {
                    ensure!(o.json["sourcesContent"] == serde_json::Value::from(want), "content set for {mask:b} of {n} sources: {}", o.text);
                }
                Ok(())
            }));
            v.push(stage("sizes", format!("{:?} sources, added forwards or backwards; all of them have content, or but every third, set before or after the mappings, then every fifth removed or replaced or not; with a root or without; names of 300 equal characters first or short", &mc::cons::SIZES), |ch| {
                let n = *ch.of(&mc::cons::SIZES);
                let (back, sparse, early, root) = (ch.flag(), ch.flag(), ch.flag(), *ch.of(&[None, Some("/r"), Some("lib")]));
                let change = ch.pick(3);
                let pre = if n <= 513 && ch.flag() { "p".repeat(300) } else { "".into() };
                let src = |i: usize| format!("{pre}s{i}.js");
                let mut g = new_gen(None, root, false);
                let mut want = vec![serde_json::Value::Null; n];
                for pass in 0..2 {
                    if (pass == 0) == early {
                        for i in 0..n {
                            if !sparse || i % 3 == 0 {
                                must("set_source_content", || g.set_source_content(src(i), Some(format!("content {i}"))))?;
                                want[i] = format!("content {i}").into();
                            }
                        }
                    } else {
                        for i in 0..n {
                            let i = if back { n - 1 - i } else { i };
                            add(&mut g, &M { g: (1, i as i32), o: Some((1, 0, src(i))), name: None })?;
                        }
                    }
                    ch.steps(n as u64);
                }
                if change > 0 {
                    emit(&mut g)?;
                    for i in (0..n).step_by(5) {
                        let c = if change == 1 { None } else { Some(format!("changed {i}")) };
                        must("set_source_content", || g.set_source_content(src(i), c.clone()))?;
                        want[i] = c.map_or(serde_json::Value::Null, |c| c.into());
                    }
                }
                if back {
                    want.reverse();
                }
                let o = decode(&emit(&mut g)?)?;
                ch.state(&(n, back, sparse, early, root, change, pre.len()));
                ch.outcome(&o.text);
                ensure!(o.json["sourcesContent"] == serde_json::Value::from(want.clone()), "{n} sources, backwards: {back}, every third only: {sparse}, set first: {early}, root {root:?}, change {change}: contents {}, expected {want:?}", o.json["sourcesContent"]);
                Ok(())
            }));
            v
        },
    });
}
