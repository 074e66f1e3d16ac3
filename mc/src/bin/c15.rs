//! C15: source URLs resolve against source root and map URL like URLs.
use mc::cons::*;
use mc::*;

fn check(ch: &mut Ch, root: Option<&str>, sources: &[String], map: Option<&str>) -> Res {
    ch.log(|| format!("sourceRoot {root:?}, map URL {map:?}, {} sources", sources.len()));
    ch.state(&(root, map, sources));
    let mut d = Doc::new(&[], 0, 0);
    d.root = root.map(|s| s.into());
    d.sources = sources.to_vec();
    let r = call(|| rusty_source_map::consumer::BasicConsumer::new(&d.json(), map).get_sources());
    let got = match r {
        Ok(g) => g,
        Err(p) => {
            // attribute the panic to its source
            for s in sources {
                must(&format!("resolving source {s:?} with root {root:?}, map URL {map:?}"), || rusty_source_map::util::compute_source_url(root, s, map))?;
            }
            viol!("opening panicked: {p}: {}", d.json())
        }
    };
    ensure!(got.len() == sources.len(), "{} sources reported for {}", got.len(), d.json());
    for (s, g) in sources.iter().zip(&got) {
        let want = url::resolve(root, s, map);
        ch.step();
        ch.outcome(g);
        ensure!(*g == want, "source {s:?} with sourceRoot {root:?} and map URL {map:?} is reported as {g:?}, expected {want:?}");
    }
    Ok(())
}
fn chunks(v: Vec<String>, n: usize) -> Vec<Vec<String>> {
    v.chunks(n).map(|c| c.to_vec()).collect()
}
const PRE: [&str; 7] = ["", "/", "http://h/", "https://h:8443/", "//h2/", "webpack:///", "webpack://pkg/"];
const PRE2: [&str; 13] = ["HTTP://Ex.Org/", "git+ssh://Host/", "W-p.2:///", "http://h:80/", "https://h:443/", "https://h:80/", "//H:80/", "ftp://f/", "file:///", "http://U:p@H/", "ws://h/", "x3://h:80/", "http://127.0.0.1:8080/"];
const SEG: [&str; 4] = ["a", ".", "..", "p0"];

fn main() {
    run::main(Prop {
        id: "C15",
        rule: "state = one document (root, sources, map URL); transition = one reported source compared with the reference resolution; trace = one document opened",
        assumptions: vec![
            "reference URL model in mc/src/url.rs, written without the url crate",
            "out of scope: empty path segments, percent-encoded dots, hosts needing more normalisation than that of case, roots with a query, segments that look like a drive letter (a:, a|; the url crate keeps these from ..)",
        ],
        stages: |thorough| {
            let few_src: Vec<String> = ["a.js", "./a.js", "../a.js", "../../a.js", "b/../../a.js", "/a.js", "http://s/a.js", "http://h/x/../a.js", "//s/a.js", "webpack:///./a.js", "", ".", "..", "a", "/", "a.js?q", "../a.js?q=/../x#f", "?q", "#f", "a b.js", "é/ü.js", "p0/p1.js", "a/", "...", "..a/.b", "/../a.js", "/./", "c/./d.js", "http://h", "a.b/c..d.js", "a//b.js", "/x//y.js", "http://h//a.js", "a//../b.js"].iter().map(|s| s.to_string()).collect();
            let few_root: Vec<Option<String>> = vec![None, Some("".into()), Some("r".into()), Some("/r/s".into()), Some("http://h/r/".into()), Some("..".into()), Some("//h/r".into()), Some("webpack:///r".into()), Some(".".into()), Some("/".into()), Some("p0".into()), Some("../p0/..".into())];
            let few_map: Vec<Option<String>> = vec![None, Some("".into()), Some("m.map".into()), Some("d/m.map".into()), Some("../m.map?x=/y/z#w".into()), Some("/d/e/m.map".into()), Some("http://h/d/m.map?q/r".into()), Some("//h/d/".into()), Some("webpack:///m.map".into()), Some("p0/m".into()), Some("http://h".into()), Some("m".into())];
            let mut v = vec![];
            // every source shape against a few roots and maps
            let n = if thorough { 4 } else { 3 };
            let all = chunks(url::texts(&PRE, &["a", ".", "..", "P0", "é b"], n, &["", "?q=1", "#f", "?q/..#f/."]), 60);
            let (r, m) = (few_root.clone(), few_map.clone());
            v.push(stage("sources", format!("every source of up to {n} segments x 7 kinds x query/fragment, {} roots, {} map URLs", r.len(), m.len()), move |ch| {
                let r = ch.of(&r).as_deref();
                let m = ch.of(&m).as_deref();
                let s = ch.of(&all);
                check(ch, r, s, m)
            }));
            let tails = ["?", "#", "?#", "??", "##", "?#x", "#?", "?x#", "?a?b", "#a#b", "?/../x", "?.#..", "?//x"];
            let all = chunks(url::texts(&PRE, &["a", "..", "b.js"], 2, &tails), 60);
            let ms = url::texts(&PRE, &["a"], 1, &tails);
            let (s, r, m) = (few_src.clone(), few_root.clone(), few_map.clone());
            v.push(stage("tails", format!("sources and map URLs with queries and fragments that are empty or contain each other: {tails:?}"), move |ch| {
                let r = ch.of(&r).as_deref();
                if ch.flag() {
                    let (s, m) = (ch.of(&all), ch.of(&m).as_deref());
                    check(ch, r, s, m)
                } else {
                    let m = ch.of(&ms);
                    check(ch, r, &s, Some(m))
                }
            }));
            let slashes = ["a//", "/a//", "http://h/a//", "http://h/a///", "a//b", "a//b//", "/a//b/", "//h/a//", "webpack:///a//", "http://h//"];
            let plain: Vec<String> = ["b.js", "../b.js", "../../b.js", "c/./b.js", "b.js?q", "http://h/b.js", "", "/b.js", "d//b.js"].iter().map(|s| s.to_string()).collect();
            v.push(stage("slashes", format!("roots and directories of map URLs with empty segments, {slashes:?}; {plain:?}"), move |ch| {
                let mut o: Vec<Option<&str>> = slashes.iter().map(|s| Some(*s)).collect();
                o.extend([None, Some("r"), Some("http://h/r/")]);
                let (r, m) = (*ch.of(&o), ch.of(&o).map(|m| format!("{m}m.map")));
                check(ch, r, &plain, m.as_deref())
            }));
            // every root shape
            let n = if thorough { 4 } else { 3 };
            let roots = url::texts(&PRE, &SEG, n, &[""]);
            let (s, m) = (few_src.clone(), few_map.clone());
            v.push(stage("roots", format!("every one of {} roots of up to {n} segments, {} sources, {} map URLs", roots.len(), s.len(), m.len()), move |ch| {
                let r = ch.of(&roots);
                let m = ch.of(&m).as_deref();
                check(ch, Some(r), &s, m)
            }));
            // every map URL shape
            let maps = url::texts(&PRE, &SEG, n, &["", "?q=/x/y", "#f", "?a/../b#c/d"]);
            let (s, r) = (few_src.clone(), few_root.clone());
            v.push(stage("maps", format!("every one of {} map URLs of up to {n} segments x query/fragment, {} sources, {} roots", maps.len(), s.len(), r.len()), move |ch| {
                let m = ch.of(&maps);
                let r = ch.of(&r).as_deref();
                check(ch, r, &s, Some(m))
            }));
            // roots x maps
            let k = if thorough { 2 } else { 1 };
            let rs = url::texts(&PRE, &SEG, k, &[""]);
            let ms = url::texts(&PRE, &SEG, 2, &["", "?q=/x"]);
            let s = few_src.clone();
            v.push(stage("roots-x-maps", format!("{} roots of up to {k} segments x {} map URLs of up to 2, {} sources", rs.len(), ms.len(), s.len()), move |ch| {
                let r = ch.of(&rs);
                let m = ch.of(&ms);
                check(ch, Some(r), &s, Some(m))
            }));
            // short texts over the characters that matter
            let al: Vec<char> = "/.:a?#p0".chars().collect();
            let top = if thorough { 5 } else { 4 };
            let mut words: Vec<String> = vec!["".into()];
            let mut cur = words.clone();
            for _ in 0..top {
                cur = cur.iter().flat_map(|w| al.iter().map(move |c| format!("{w}{c}"))).collect();
                words.extend(cur.clone());
            }
            // texts the model does not speak about: empty path segments, schemes without host, ':' in the first segment
            words.retain(|w| {
                let path = &w[..w.find(['?', '#']).unwrap_or(w.len())];
                !path.contains("//") && !path.contains(':')
            });
            let w = chunks(words.clone(), 40);
            v.push(stage("words", format!("every text of up to {top} characters of {al:?} (without '//' and ':') as source, and as map URL and root of up to 2", ), move |ch| {
                let src = ch.of(&w);
                let short: Vec<&String> = words.iter().filter(|w| w.chars().count() <= 2).collect();
                let roots: Vec<&String> = short.iter().filter(|w| !w.contains('?') && !w.contains('#')).cloned().collect();
                let (root, map) = match ch.pick(3) {
                    0 => (None, None),
                    1 => (Some(ch.of(&roots).as_str()), None),
                    _ => (None, Some(ch.of(&short).as_str())),
                };
                check(ch, root, src, map)
            }));
            // less usual schemes, hosts, ports and percent signs
            let kinds = url::texts(&PRE2, &["a", "..", "%41%2fB%"], 2, &["", "?%q"]);
            let odd: Vec<Option<String>> = PRE2.iter().map(|p| Some(format!("{p}d/m.map"))).chain([None, Some("d/m".into())]).collect();
            let (s, k, few_r2, few_m2) = (few_src.clone(), kinds.clone(), few_root.clone(), few_map.clone());
            v.push(stage("kinds", format!("{} URLs below {PRE2:?}, each as a source, as root and as map URL; with each of {} others below these", kinds.len(), odd.len()), move |ch| {
                let u = ch.of(&k).clone();
                let o = ch.of(&odd).as_deref();
                match ch.pick(4) {
                    0 => {
                        let m = ch.of(&few_m2).as_deref();
                        check(ch, o, &[u], m)
                    }
                    1 => {
                        let r = ch.of(&few_r2).as_deref();
                        check(ch, r, &[u], o)
                    }
                    2 if u.contains('?') => Ok(()),
                    2 => check(ch, Some(&u), &s, o),
                    _ => check(ch, o, &s, Some(&u)),
                }
            }));
            // every character
            let lone: Vec<char> = ('!'..='\u{24f}').chain("\u{300}\u{1fff}\u{2028}\u{3000}\u{4e2d}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars()).filter(|c| !"/:?#\\|".contains(*c)).collect();
            v.push(stage("characters", format!("{} characters, each alone, first, last and inside one segment, in a directory, a query or a fragment, in a source, root or map URL of 3 kinds", lone.len()), move |ch| {
                let c = *ch.of(&lone);
                let mut s: Vec<String> = vec![];
                for p in ["", "/", "http://h/"] {
                    for q in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b.js"), format!("{c}/b"), format!("x/{c}/{c}.js"), format!("a?{c}"), format!("a#{c}b")] {
                        s.push(format!("{p}{q}"));
                    }
                }
                let plain: Vec<String> = ["s", "../s", "/s"].iter().map(|s| s.to_string()).collect();
                match ch.pick(5) {
                    0 => check(ch, None, &s, None),
                    1 => check(ch, Some("r"), &s, None),
                    2 => check(ch, None, &s, Some("d/m")),
                    3 => {
                        let s: Vec<&String> = s.iter().filter(|s| !s.contains(['?', '#'])).collect();
                        let r = *ch.of(&s);
                        check(ch, Some(r), &plain, None)
                    }
                    _ => {
                        let m = ch.of(&s);
                        check(ch, None, &plain, Some(m))
                    }
                }
            }));
            v.push(stage("all-characters", "every Unicode scalar value above space in the segments of a source, a root and a map URL (blocks of 64)", |ch| {
                let b = ch.pick(0x110000 / 64) as u32;
                let s: String = (b * 64..(b + 1) * 64).filter_map(char::from_u32).filter(|c| *c > ' ' && !"/:?#\\".contains(*c)).collect();
                if s.is_empty() {
                    return Ok(());
                }
                match ch.pick(3) {
                    0 => check(ch, None, &[s.clone(), format!("a/{s}"), format!("http://h/{s}?{s}#{s}")], None),
                    1 => check(ch, Some(&s), &["a".into()], None),
                    _ => check(ch, None, &["a".into()], Some(&format!("{s}/m"))),
                }
            }));
            let sch: Vec<String> = (1..=48usize).map(|n| "chrome-extension+webpack.internal-2abcdefghijklmnopqrstuvwx"[..n].to_string()).filter(|s| !s.ends_with(['+', '.', '-'])).chain(["chrome-extension", "moz-extension", "webpack-internal", "resource", "blob+x", "vscode-webview-resource", "a", "z9", "A.B", "i.3"].iter().map(|s| s.to_string())).collect();
            let (few_r, few_m) = (few_root.clone(), few_map.clone());
            v.push(stage("schemes", format!("{} schemes of 1 to 48 characters, with a host or none, in a source, a root or a map URL", sch.len()), move |ch| {
                let sc = ch.of(&sch);
                let h = *ch.of(&["//h/", "//Id-1/", "///"]);
                let all: Vec<String> = ["a.js", "d/../a.js", "../b.js?q#f", "", "d/"].iter().map(|p| format!("{sc}:{h}{p}")).collect();
                match ch.pick(3) {
                    0 => {
                        let (r, m) = (ch.of(&few_r).as_deref(), ch.of(&few_m).as_deref());
                        check(ch, r, &all, m)
                    }
                    1 => {
                        let m = ch.of(&few_m).as_deref();
                        let r = ch.of(&all);
                        if r.contains('?') {
                            return Ok(());
                        }
                        check(ch, Some(r), &few_src, m)
                    }
                    _ => {
                        let r = ch.of(&few_r).as_deref();
                        let m = ch.of(&all);
                        check(ch, r, &few_src, Some(m))
                    }
                }
            }));
            v.push(stage("below-root", "sources that begin with the text of the root, or with parts of it, or consist of it; 12 roots, 8 map URLs", |ch| {
                let r = *ch.of(&["r", "lib", "lib/", "/lib", "/lib/", "/the/root", "http://h/r", "http://h/r/", "//h/r", "webpack:///r", "a/b/c", ".."]);
                let t = r.trim_end_matches('/');
                let rel = t.trim_start_matches("http:").trim_start_matches("webpack:").trim_start_matches('/');
                let mut s: Vec<String> = vec![];
                for p in [t, rel, &format!("/{rel}"), &format!("./{rel}"), &rel[..1], &format!("{rel}x"), &format!("{rel}/{rel}"), &rel.to_uppercase()] {
                    for x in ["/a.js", "", "/", "/../a.js", "/lib/a.js", "a.js", "?q"] {
                        s.push(format!("{p}{x}"));
                    }
                }
                s.retain(|s| !s.contains("//") || matches!(url::kind_of(s), url::Kind::Abs(..) | url::Kind::Scheme(..)) && s.matches("//").count() == 1);
                let m = *ch.of(&[None, Some("m.map"), Some("lib/m.map"), Some("r/m.map"), Some("/lib/m.map"), Some("http://h/r/m.map"), Some("//h/r/m"), Some("../lib/m")]);
                check(ch, Some(r), &s, m)
            }));
            let chain = [1usize, 2, 5, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
            v.push(stage("deep", format!("source, root and map URL each a chain of {chain:?} segments: names, '..', names then as many or more '..', '.', names after '..', names of 1, 20 or 300 characters; or short; {} kinds", PRE.len()), move |ch| {
                let shape = |ch: &mut Ch, n: usize| -> String {
                    let up = |k: usize| "../".repeat(k);
                    let down = |k: usize, s: &str| (0..k).map(|i| format!("{s}{i}/")).collect::<String>();
                    match ch.pick(8) {
                        0 => down(n, "a"),
                        1 => up(n),
                        2 => down(n, "a") + &up(n),
                        3 => down(n, "a") + &up(n + 2),
                        4 => up(n) + &down(n, "b"),
                        5 => (0..n).map(|i| if i % 3 == 2 { "../".into() } else { format!("c{i}/./") }).collect(),
                        6 => down(n.min(20), &"x".repeat(300)),
                        _ => down(n, "a") + &up(n - 1) + "b/",
                    }
                };
                let n = *ch.of(&chain);
                let (mut s, mut r, mut m) = ("a.js".to_string(), None, None);
                match ch.pick(6) {
                    0 => s = shape(ch, n) + "a.js",
                    1 => {
                        r = Some(shape(ch, n));
                        s = ch.of(&["a.js", "../../b/a.js"]).to_string();
                    }
                    2 => {
                        m = Some(shape(ch, n) + "m.map");
                        s = ch.of(&["a.js", "../../b/a.js"]).to_string();
                    }
                    3 => {
                        s = shape(ch, n) + "a.js";
                        r = Some(shape(ch, n));
                    }
                    4 => {
                        s = shape(ch, n) + "a.js";
                        m = Some(shape(ch, n) + "m.map");
                    }
                    _ => {
                        r = Some(shape(ch, n));
                        m = Some(shape(ch, n) + "m.map?q");
                    }
                }
                let pre = *ch.of(&["", "/", "http://h/", "//h/"]);
                match ch.pick(3) {
                    0 => s = format!("{pre}{s}"),
                    1 => r = r.map(|r| format!("{pre}{r}")),
                    _ => m = m.map(|m| format!("{pre}{m}")),
                }
                check(ch, r.as_deref(), &[s], m.as_deref())
            }));
            v
        },
    });
}
