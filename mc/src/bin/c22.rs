//! C22: sources and contents of indexed maps.
use mc::cons::*;
use mc::*;

struct Kind {
    root: Option<&'static str>,
    sources: &'static [&'static str],
    contents: Option<&'static [Option<&'static str>]>,
}
const KINDS: &[Kind] = &[
    Kind { root: None, sources: &["a.js"], contents: Some(&[Some("A")]) },
    Kind { root: None, sources: &["a.js"], contents: None },
    Kind { root: None, sources: &["b.js", "a.js"], contents: Some(&[Some("B"), None]) },
    Kind { root: Some("lib"), sources: &["a.js", "../a.js"], contents: Some(&[Some("LA"), Some("A'")]) },
    Kind { root: Some("http://h/r/"), sources: &["/c.js", "./a.js"], contents: Some(&[Some(""), Some("RA")]) },
    Kind { root: None, sources: &["c.js", "d.js"], contents: Some(&[Some("C")]) },
    Kind { root: Some(""), sources: &["a.js", "a.js"], contents: Some(&[None, Some("second")]) },
    Kind { root: None, sources: &["lib/a.js"], contents: Some(&[Some("LA'")]) },
    Kind { root: None, sources: &["http://h/r/c.js", "e.js"], contents: Some(&[Some("HC"), Some("E")]) },
];
fn check(ch: &mut Ch, secs: &[&Kind], map: Option<&str>) -> Res {
    let docs: Vec<((u32, u32), String)> = secs.iter().enumerate().map(|(i, k)| {
        let mut d = Doc::new(&[], 0, 0);
        d.root = k.root.map(|s| s.into());
        d.sources = k.sources.iter().map(|s| s.to_string()).collect();
        d.contents = k.contents.map(|c| c.iter().map(|c| c.map(|s| s.to_string())).collect());
        ((i as u32 * 10, 0), d.json())
    }).collect();
    let json = indexed_json(&docs);
    ch.log(|| format!("{json} opened with {map:?}"));
    ch.state(&(&json, map));
    let urls: Vec<Vec<String>> = secs.iter().map(|k| k.sources.iter().map(|s| url::resolve(k.root, s, map)).collect()).collect();
    let mut c = open_indexed(&json, map)?;
    let verify = |c: &rusty_source_map::consumer::IndexedConsumer, ch: &mut Ch| -> Res {
        let got = must("get_sources", || c.get_sources())?;
        full(got, urls.concat(), || format!("get_sources on {json} opened with {map:?}"))?;
        let has = must("has_contents_of_all_sources", || c.has_contents_of_all_sources())?;
        let want = secs.iter().all(|k| k.contents.map_or(false, |c| (0..k.sources.len()).all(|i| matches!(c.get(i), Some(Some(_))))));
        ch.steps(2);
        full(has, want, || format!("has_contents_of_all_sources on {json}"))
    };
    verify(&c, ch)?;
    // the content each section gives a name, by the reference name resolution
    let content = |name: &str| -> (bool, Option<&str>) {
        let mut known = false;
        for (k, us) in secs.iter().zip(&urls) {
            let at = |u: &str| us.iter().position(|x| x == u);
            let i = at(&url::resolve(None, name, map)).or_else(|| at(&url::resolve(k.root, name, map))).or_else(|| at(name));
            if let Some(i) = i {
                known = true;
                if let Some(Some(t)) = k.contents.and_then(|c| c.get(i)) {
                    return (true, Some(t));
                }
            }
        }
        (known, None)
    };
    let mut names: Vec<String> = urls.concat();
    names.extend(secs.iter().flat_map(|k| k.sources.iter().map(|s| s.to_string())));
    names.extend(["nowhere.js".to_string(), "lib/zz".to_string()]);
    names.sort();
    names.dedup();
    for n in &names {
        let (known, want) = content(n);
        let want = want.map(|s| s.to_string());
        let got = must("source_content_for(.., Some(false))", || c.source_content_for(n, Some(false)))?;
        ch.step();
        ch.outcome(&got);
        full(got, want.clone(), || format!("source_content_for({n:?}, Some(false)) on {json} opened with {map:?}"))?;
        for p in [None, Some(true)] {
            let got = call(|| c.source_content_for(n, p));
            ch.step();
            let ok = match (&got, &want) {
                (Ok(g), Some(w)) => g.as_ref() == Some(w),
                // listed without content: "missing" either way
                (Ok(None), None) => known,
                (Err(_), None) => true,
                _ => false,
            };
            ensure!(ok, "source_content_for({n:?}, {p:?}) gives {got:?}, expected {want:?} (listed: {known}) on {json} opened with {map:?}");
        }
    }
    verify(&c, ch)
}
fn main() {
    run::main(Prop {
        id: "C22",
        rule: "state = one indexed map and map URL; transition = one source or content query compared with the reference; trace = all queries of one map on one real consumer",
        assumptions: vec!["reference URL model in mc/src/url.rs", "every section has a source", "a source that is listed without content in every section may panic or yield nothing by default"],
        stages: |thorough| {
            let mut v = vec![];
            for n in 0..=if thorough { 4 } else { 3 } {
                v.push(stage(format!("sections-{n}"), format!("every list of {n} sections from {} kinds (sources, roots, contents), 3 map URLs", KINDS.len()), move |ch| {
                    let map = *ch.of(&[None, Some("d/m.map"), Some("http://h/r/m.map")]);
                    let s: Vec<&Kind> = (0..n).map(|_| ch.of(KINDS)).collect();
                    check(ch, &s, map)
                }));
            }
            v.push(stage("sizes", "1..=40, 127..=129, 255..=257, 300, 513 or 1025 sections of one or three sources each (own ones, or one of them in all), without contents in the first, the last, the middle one or none; queries thinned out", |ch| {
                let k = ch.pick(49);
                let n = if k < 40 { 1 + k } else { [127, 128, 129, 255, 256, 257, 300, 513, 1025][k - 40] };
                let (per, shared) = (*ch.of(&[1, 3]), ch.flag());
                let hole = *ch.of(&[usize::MAX, 0, n / 2, n - 1]);
                let text = |i: usize, j: usize| format!("content {i}/{j}");
                let name = |i: usize, j: usize| if shared && j == 0 { "all.js".to_string() } else { format!("s{i}-{j}.js") };
                let json = indexed_json(&(0..n).map(|i| {
                    let mut d = Doc::new(&[], 0, 0);
                    d.sources = (0..per).map(|j| name(i, j)).collect();
                    d.contents = if i == hole { None } else { Some((0..per).map(|j| Some(text(i, j))).collect()) };
                    ((i as u32, 0), d.json())
                }).collect::<Vec<_>>());
                ch.log(|| format!("{n} sections of {per}, shared: {shared}, without contents: {hole}"));
                ch.state(&(n, per, shared, hole));
                let mut c = open_indexed(&json, None)?;
                let want: Vec<String> = (0..n).flat_map(|i| (0..per).map(move |j| (i, j))).map(|(i, j)| name(i, j)).collect();
                full(must("get_sources", || c.get_sources())?, want, || format!("get_sources of {n} sections"))?;
                full(must("has_contents_of_all_sources", || c.has_contents_of_all_sources())?, hole >= n, || format!("has_contents_of_all_sources of {n} sections, without contents: {hole}"))?;
                for i in thin_out((0..n).collect::<Vec<_>>()) {
                    for j in 0..per {
                        let s = name(i, j);
                        let at = if shared && j == 0 { (0..n).find(|i| *i != hole) } else { Some(i).filter(|i| *i != hole) };
                        let got = must("source_content_for", || c.source_content_for(&s, Some(false)))?;
                        ch.step();
                        full(got, at.map(|i| text(i, j)), || format!("source_content_for({s:?}) of {n} sections of {per} sources, shared: {shared}, without contents: {hole}"))?;
                    }
                }
                ensure!(call(|| c.source_content_for("none.js", None)).is_err(), "unknown source does not panic");
                full(must("source_content_for", || c.source_content_for("none.js", Some(false)))?, None, || "unknown source".into())
            }));
            v
        },
    });
}
