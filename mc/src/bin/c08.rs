//! C08: maps survive the generate-then-consume round trip.
use mc::cons::*;
use mc::gen::*;
use mc::gen::{long, PATTERNS, WALK};
use mc::*;
use rusty_source_map::consumer::*;

fn check(ch: &mut Ch, ms: &[M], root: Option<&str>, url: Option<&str>, direct: bool) -> Res {
    check_file(ch, Some("out.js"), ms, root, url, direct)
}
fn check_file(ch: &mut Ch, file: Option<&str>, ms: &[M], root: Option<&str>, url: Option<&str>, direct: bool) -> Res {
    let mut g = new_gen(file, root, direct);
    for x in ms {
        ch.log(|| format!("add {}", x.show()));
        add(&mut g, x)?;
        ch.step();
    }
    ch.state(&(ms, root, url));
    let text = emit(&mut g)?;
    let mut c = if direct { must("from_source_map", || BasicConsumer::from_source_map(&mut g, url))? } else { open_basic(&text, url)? };
    let doc: serde_json::Value = serde_json::from_str(&text).map_err(|e| Viol(format!("{e}: {text}")))?;
    let res = |s: &str| mc::url::resolve(root, s, url);
    let what = |k: &str| format!("{k}: added {ms:?}, root {root:?}, map url {url:?}, map {text}");
    let by_orig: std::collections::HashMap<(i32, i32, String), Vec<&M>> = ms.iter().filter_map(|y| y.o.as_ref().map(|p| ((p.0, p.1, res(&p.2)), y))).fold(Default::default(), |mut h, (k, y)| {
        let v: &mut Vec<&M> = h.entry(k).or_default();
        v.push(y);
        h
    });
    // with sources whose texts may name each other
    let model = if ms.len() <= 2 {
        let mut d = Doc::new(&[], 0, 0);
        d.root = root.map(|r| r.into());
        d.sources = first_use(ms.iter().filter_map(|x| x.o.as_ref().map(|o| &o.2)));
        Some(d.model(url))
    } else {
        None
    };
    for x in thin_out(ms.iter().collect::<Vec<_>>()) {
        for b in BIASES {
            let got = orig_for(&mut c, x.g.0, x.g.1, b)?.map(|a| a.nospan());
            ch.step();
            ch.outcome(&got);
            let want = x.o.as_ref().map(|o| Ans {
                g: (x.g.0 as i64, x.g.1 as i64),
                o: Some((o.0 as i64, o.1 as i64)),
                src: Some(res(&o.2)),
                name: x.name.clone(),
                span: None,
            });
            full(got, want, || what(&format!("original_position_for{:?} {b:?}", x.g)))?;
            if let Some(o) = &x.o {
                for name in [res(&o.2), o.2.clone()] {
                    if model.as_ref().is_some_and(|m| m.lookup(&name).map(|i| m.urls[i as usize].clone()) != Some(res(&o.2))) {
                        continue; // the text names another source (see C16)
                    }
                    let got = gen_for(&mut c, &name, o.0, o.1, b)?;
                    ch.step();
                    let Some(got) = got else { viol!("{}", what(&format!("generated_position_for({name:?}, {}, {}) finds nothing", o.0, o.1))) };
                    let ok = by_orig[&(o.0, o.1, res(&o.2))].iter().any(|y| got.g == (y.g.0 as i64, y.g.1 as i64) && got.name == y.name) && got.o == Some((o.0 as i64, o.1 as i64)) && got.src == Some(res(&o.2));
                    ensure!(ok, "{}", what(&format!("generated_position_for({name:?}, {}, {}) answers {got:?}", o.0, o.1)));
                }
            }
        }
    }
    let (srcs, names) = (doc["sources"].as_array().cloned().unwrap_or_default(), doc["names"].as_array().cloned().unwrap_or_default());
    for ord in [IterOrd::GeneratedOrd, IterOrd::OriginalOrd] {
        let gen = matches!(ord, IterOrd::GeneratedOrd);
        let e = enumerate(&mut c, ord)?;
        ch.step();
        let mut got: Vec<M> = vec![];
        for r in e {
            let s = r.seg;
            let mut x = M { g: (s.line as i32 + 1, s.col as i32), o: None, name: None };
            if let Some(o) = s.orig {
                let src = srcs.get(o.src as usize).and_then(|s| s.as_str());
                ensure!(src.is_some(), "{}", what("source index out of range"));
                x.o = Some((o.line as i32 + 1, o.col as i32, src.unwrap().into()));
                x.name = o.name.map(|n| names.get(n as usize).and_then(|n| n.as_str()).unwrap_or("<out of range>").to_string());
            }
            got.push(x);
        }
        got.sort();
        let mut want: Vec<M> = ms.iter().filter(|m| gen || m.o.is_some()).cloned().collect();
        want.sort();
        full(got, want, || what("enumeration"))?;
    }
    Ok(())
}
const CONF: [(Option<&str>, Option<&str>); 14] = [(None, None), (Some("/the/root"), None), (Some("lib/"), Some("http://h/maps/out.js.map")), (None, Some("maps/out.js.map")), (Some("http://h/r"), Some("/x.map")), (Some(""), Some("")), (None, Some("http://h/d/m.map?v=1#f")), (Some("r"), Some("/d/e/m.map?x=/y/z")), (Some("../r"), Some("d/m.map#a?b")), (Some("/r/s/"), Some("//h/m.map")), (Some("webpack:///r"), Some("http://h:81/m.map?")), (Some("."), Some("../m.map")), (Some("http://h/r/"), Some("http://h/r/m.map?q=a/../b")), (None, Some("file:///d/m.map"))];

/// Without the mappings whose generated position was there before.
fn apart(ms: Vec<M>) -> Vec<M> {
    let mut seen = std::collections::HashSet::new();
    ms.into_iter().filter(|x| seen.insert(x.g)).collect()
}
fn sets(name: &str, al: Vec<M>, n: usize, confs: usize) -> Stage {
    stage(format!("{name}-{n}"), format!("every sequence of {n} additions from {} mappings with distinct generated positions; {confs} combinations of root and map URL; opened directly and from text", al.len()), move |ch| {
        let conf = CONF[ch.pick(confs)];
        let direct = ch.flag();
        let mut ms: Vec<M> = vec![];
        for _ in 0..n {
            // the next mapping's generated position is new
            let free: Vec<&M> = al.iter().filter(|a| ms.iter().all(|x| x.g != a.g)).collect();
            if free.is_empty() {
                return Ok(());
            }
            let x = (*ch.of(&free)).clone();
            ms.push(x);
        }
        check(ch, &ms, conf.0, conf.1, direct)
    })
}
/// Those texts that are usable as a source path.
const SAFE: [&str; 14] = ["", "a", "A", "ab", "\u{e9}", "e\u{301}", "\u{1f600}", "null", "__proto__", "00", "a b", "a/b", "./a", "a;b,c"];

fn main() {
    run::main(Prop {
        id: "C08",
        rule: "state = one sequence of added mappings with root and map URL; transition = one generator or consumer call; trace = generate, open, look up every added position both ways with 3 biases, enumerate both ways",
        assumptions: vec!["reference URL resolution in mc/src/url.rs", "generated lines of at most 100000"],
        stages: |thorough| {
            let mut v = vec![];
            for n in 0..=2 {
                v.push(sets("spread", spread(), n, CONF.len()));
                v.push(sets("ties", ties(), n, 2));
            }
            v.push(sets("spread", spread(), 3, if thorough { 3 } else { 1 }));
            for n in 1..=2 {
                v.push(sets("boundary", boundary(), n, 1));
            }
            let few = alphabet(&[(1, 0), (1, 1), (1, 2), (2, 0), (2, 5)], &[(1, 0)], &["a"], &[None, Some("x")]);
            v.push(sets("few", few, if thorough { 5 } else { 4 }, 1));
            let n = if thorough { 6 } else { 5 };
            v.push(stage(format!("walk-{n}"), format!("every sequence of {n} additions in order, each on the same or the next line, one of {WALK} kinds (no original; 3 sources, two of them differing in case; 3 names or none)"), move |ch| {
                let ms = walk(ch, n);
                check(ch, &ms, None, None, n % 2 == 0)
            }));
            let top = if thorough { 120 } else { 60 };
            v.push(stage("long", format!("{PATTERNS} regular sequences of 0..={top} additions (repeated generated positions left out)"), move |ch| {
                let p = ch.pick(PATTERNS);
                let n = ch.pick(top + 1);
                check(ch, &apart(long(n as i32, p)), None, None, n % 2 == 0)
            }));
            v.push(stage("texts", format!("{}, with generated positions apart; {} combinations of root and map URL", texts_bound(&SAFE), CONF.len()), |ch| {
                let mut ms = texts(ch, &SAFE);
                for (i, x) in ms.iter_mut().enumerate() {
                    x.g.1 += 10 * i as i32;
                }
                let conf = *ch.of(&CONF);
                let direct = ch.flag();
                check(ch, &ms, conf.0, conf.1, direct)
            }));
            v.push(stage("below-root", format!("1 or 2 mappings of sources that begin with the text of the root or a part of it, {} combinations of root and map URL", CONF.len()), |ch| {
                let conf = *ch.of(&CONF);
                let r = conf.0.unwrap_or("r").trim_end_matches('/');
                let rel = r.trim_start_matches("http:").trim_start_matches("webpack:").trim_start_matches('/');
                let mut s: Vec<String> = vec![];
                for p in [r, rel, &format!("./{rel}"), &format!("{rel}x")] {
                    for x in ["/a.js", "/b/a.js", "/../a.js", ".js"] {
                        s.push(format!("{p}{x}"));
                    }
                }
                s.retain(|s| !s.starts_with("/") || s.starts_with("//") || !s.contains("//"));
                s.sort();
                s.dedup();
                let n = 1 + ch.pick(2);
                let ms: Vec<M> = (0..n).map(|i| M { g: (1, 3 * i as i32), o: Some((1, 0, ch.of(&s).clone())), name: None }).collect();
                let direct = ch.flag();
                check(ch, &ms, conf.0, conf.1, direct)
            }));
            v.push(stage("paths", format!("{}, with generated positions apart; {} combinations of root and map URL", texts_bound(&PATHS), CONF.len()), |ch| {
                let mut ms = texts(ch, &PATHS);
                for (i, x) in ms.iter_mut().enumerate() {
                    x.g.1 += 10 * i as i32;
                }
                let conf = *ch.of(&CONF);
                let direct = ch.flag();
                check(ch, &ms, conf.0, conf.1, direct)
            }));
            v.push(stage("carrying", format!("every sequence of 3 additions with generated positions apart: {CARRYING}"), |ch| {
                let (mut ms, _carry) = carrying(ch, 3);
                for (i, x) in ms.iter_mut().enumerate() {
                    x.g.1 += 10 * i as i32;
                }
                let direct = ch.flag();
                check(ch, &ms, None, None, direct)
            }));
            v.push(stage("same-texts", "file, root, map URL, 2 sources and a name, each any of 5 texts or (but for the sources) absent: all of the combinations", |ch| {
                const T: [&str; 5] = ["out/m.js", "http://h/out/m.js", "/out/m.js", "a", "out/m.js.map"];
                let opt = |ch: &mut Ch| {
                    let k = ch.pick(T.len() + 1);
                    T.get(k).cloned()
                };
                let (file, root, url, name) = (opt(ch), opt(ch), opt(ch), opt(ch));
                let (a, b) = (*ch.of(&T), *ch.of(&T[..3]));
                let ms = [m(1, 0, Some((1, 0, a)), name), m(1, 4, Some((2, 0, b)), None)];
                let direct = ch.flag();
                if a != b && mc::url::resolve(root, a, url) == mc::url::resolve(root, b, url) {
                    // one source under two names
                    return Ok(());
                }
                check_file(ch, file, &ms, root, url, direct)
            }));
            v.push(stage("far", FAR, |ch| {
                let ms = far(ch);
                check(ch, &apart(ms), None, None, true)
            }));
            v.push(stage("sizes", format!("{PATTERNS} regular sequences of {:?} additions, and sources and names that differ behind 300 characters only (repeated generated positions left out)", cons::SIZES), move |ch| {
                let ms = apart(sized(ch));
                check(ch, &ms, None, None, ms.len() % 2 == 0)
            }));
            v.push(stage("huge", format!("4 regular sequences of {} additions (backwards all along: at most 20000)", if thorough { format!("{:?}", cons::HUGE) } else { "131075".into() }), move |ch| {
                let ms = apart(huge(ch, thorough));
                check(ch, &ms, None, None, true)
            }));
            v
        },
    });
}
