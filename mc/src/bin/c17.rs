//! C17: source content lookup on basic maps.
use mc::cons::*;
use mc::*;

fn check(ch: &mut Ch, d: &Doc, map: Option<&str>) -> Res {
    ch.log(|| format!("{} opened with {map:?}", d.json()));
    ch.state(&(&d.sources, &d.contents, &d.root, map));
    let urls: Vec<String> = d.sources.iter().map(|s| url::resolve(d.root.as_deref(), s, map)).collect();
    let mut c = open_basic(&d.json(), map)?;
    let has = must("has_contents_of_all_sources", || c.has_contents_of_all_sources())?;
    let want = d.contents.as_ref().map_or(false, |c| (0..urls.len()).all(|i| matches!(c.get(i), Some(Some(_)))));
    full(has, want, || format!("has_contents_of_all_sources on {}", d.json()))?;
    ch.step();
    let mut first_of = std::collections::HashMap::new();
    for (i, u) in urls.iter().enumerate() {
        first_of.entry(u.clone()).or_insert(i);
    }
    for i in thin_out((0..urls.len()).collect::<Vec<_>>()) {
        let (u, s) = (&urls[i], &d.sources[i]);
        let first = first_of[u];
        for name in [u, s] {
            if first_of.get(&url::resolve(None, name, map)).map_or(false, |k| *k != first) {
                continue; // the text names another source (see C16)
            }
            for p in [None, Some(true), Some(false)] {
                let got = must("source_content_for", || c.source_content_for(name, p))?;
                ch.step();
                ch.outcome(&got);
                let want = d.contents.as_ref().and_then(|c| c.get(first).cloned().flatten());
                full(got, want, || format!("source_content_for({name:?}, {p:?}) (source {i}) on {} opened with {map:?}", d.json()))?;
            }
        }
    }
    for name in ["unknown.js", "a.js/x", "", "zz"] {
        if urls.iter().any(|u| u == name || *u == url::resolve(None, name, map) || *u == url::resolve(d.root.as_deref(), name, map)) {
            continue;
        }
        for p in [None, Some(true), Some(false)] {
            let got = call(|| c.source_content_for(name, p)).map_err(|_| "panic");
            ch.step();
            let want = if d.contents.is_none() || p == Some(false) { Ok(None) } else { Err("panic") };
            full(got, want, || format!("source_content_for({name:?}, {p:?}) of an unknown source on {}", d.json()))?;
        }
    }
    let has2 = must("has_contents_of_all_sources", || c.has_contents_of_all_sources())?;
    full(has2, want, || format!("has_contents_of_all_sources after lookups on {}", d.json()))
}
const ODD: [&str; 17] = ["a.js", "", ".", "..", "/", "./", "?", "?q", "#f", "a", "a/", "webpack:///a", "webpack/bootstrap", "(x)", "<a>", "a b", "\u{e9}"];
fn main() {
    run::main(Prop {
        id: "C17",
        rule: "state = one document (sources, contents); transition = one content query compared with the reference; trace = all queries of one document on one real consumer",
        assumptions: vec!["at least one source, and no more contents than sources"],
        stages: |thorough| {
            let src = ["a.js", "b.js", "./a.js", "../c.js", "/d.js"];
            let n = if thorough { 5 } else { 4 };
            vec![
                stage("lists", format!("1..={n} sources from {src:?}; no contents list, or one of any shorter or equal length with entries null, '', text or the same text; 3 roots, 2 map URLs"), move |ch| {
                    let root = *ch.of(&[None, Some("r"), Some("/r/")]);
                    let map = *ch.of(&[None, Some("http://h/d/m.map")]);
                    let k = 1 + ch.pick(n);
                    let mut d = Doc::new(&[], 0, 0);
                    d.root = root.map(|r| r.into());
                    for i in 0..k {
                        // long lists are a sliding window, short ones arbitrary
                        d.sources.push(if k <= 2 { ch.of(&src).to_string() } else { src[i % src.len()].to_string() });
                    }
                    if ch.flag() {
                        let m = ch.pick(k + 1);
                        d.contents = Some((0..m).map(|i| match ch.pick(4) {
                            0 => None,
                            1 => Some(String::new()),
                            2 => Some(format!("content {i}")),
                            _ => Some("same".into()),
                        }).collect());
                    }
                    check(ch, &d, map)
                }),
                stage("long", "1..=40 sources, contents of every length, one null at every place or none", |ch| {
                    let n = 1 + ch.pick(40);
                    let m = ch.pick(n + 1);
                    let hole = ch.pick(m + 1);
                    let mut d = Doc::new(&[], n, 0);
                    d.contents = Some((0..m).map(|i| if i == hole { None } else { Some(format!("c{i}")) }).collect());
                    check(ch, &d, None)
                }),
                stage("sizes", format!("{SIZES:?} sources; contents complete, or lacking the last entry, a null at 5 places or none, every text its own, equal, or 300 characters long and different at the end only; queries thinned out"), |ch| {
                    let n = *ch.of(&SIZES);
                    let hole = *ch.of(&[usize::MAX, 0, 127, 255, 256, n - 1]);
                    let text = ch.pick(if n > 2000 { 2 } else { 3 });
                    let m = n - ch.pick(2);
                    let mut d = Doc::new(&[], n, 0);
                    let pre = "q".repeat(300);
                    d.contents = Some((0..m).map(|i| if i == hole { None } else { Some(match text { 0 => format!("c{i}"), 1 => "same".into(), _ => format!("{pre}{i}") }) }).collect());
                    check(ch, &d, None)
                }),
                stage("blank-texts", "1 or 2 sources, each with one of 14 contents: absent, empty, of blanks, line ends, control characters, or texts that mean something in JSON or URLs", |ch| {
                    let texts = ["", " ", "\n", "\r\n", "\t", "\0", "\u{feff}", "null", "false", "0", "\"", "undefined", "\u{a0}"];
                    let n = 1 + ch.pick(2);
                    let mut d = Doc::new(&[], n, 0);
                    d.contents = Some((0..n).map(|_| match ch.pick(14) { 0 => None, k => Some(texts[k - 1].to_string()) }).collect());
                    let map = *ch.of(&[None, Some("http://h/d/m.map")]);
                    check(ch, &d, map)
                }),
                stage("odd-sources", format!("1 or 2 sources, every choice from {ODD:?}, or 3 from the first 8; contents complete, one missing, one empty, or none; 3 roots, 2 map URLs"), |ch| {
                    let n = 1 + ch.pick(3);
                    let mut d = Doc::new(&[], 0, 0);
                    d.root = ch.of(&[None, Some("r"), Some("")]).map(|r| r.into());
                    d.sources = (0..n).map(|_| ch.of(if n < 3 { &ODD[..] } else { &ODD[..8] }).to_string()).collect();
                    let hole = ch.pick(n + 1);
                    d.contents = match ch.pick(3) {
                        0 => None,
                        k => Some((0..n).map(|i| if i == hole { Some(String::new()).filter(|_| k == 1) } else { Some(format!("c{i}")) }).collect()),
                    };
                    let map = *ch.of(&[None, Some("d/m.map")]);
                    check(ch, &d, map)
                }),
                stage("texts", "one content of every length 0..=300 and around powers of two up to 2^20, of one- to four-byte characters; and beside it a second source without, or with one", |ch| {
                    let k = ch.pick(301 + 12 * 3);
                    let len = if k <= 300 { k } else { (512usize << ((k - 301) / 3)) + (k - 301) % 3 - 1 };
                    let c = *ch.of(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}"]);
                    let mut d = Doc::new(&[], 2, 0);
                    d.contents = Some(vec![Some(c.repeat(len)), ch.of(&[None, Some("t".to_string())]).clone()]);
                    if ch.flag() {
                        d.contents.as_mut().unwrap().reverse();
                    }
                    check(ch, &d, None)
                }),
            ]
        },
    });
}
