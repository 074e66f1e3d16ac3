//! C16: every source can be looked up under each of its names.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::BasicConsumer;

struct World {
    d: Doc,
    map: Option<String>,
    urls: Vec<String>,
}
impl World {
    /// n sources; source i has its one mapping on generated line i+1 and its
    /// content is its number. The order of first occurrence is what counts.
    fn new(sources: &[&str], root: Option<&str>, map: Option<&str>) -> World {
        let segs: Vec<sm::Seg> = (0..sources.len() as u32)
            .map(|i| sm::Seg { line: i, col: i, orig: Some(sm::Orig { src: i, line: 0, col: 0, name: None }) })
            .collect();
        let mut d = Doc::new(&segs, 0, 0);
        d.sources = sources.iter().map(|s| s.to_string()).collect();
        d.root = root.map(|r| r.to_string());
        d.contents = Some((0..sources.len()).map(|i| Some(format!("content {i}"))).collect());
        let urls = sources.iter().map(|s| url::resolve(root, s, map)).collect();
        World { d, map: map.map(|m| m.to_string()), urls }
    }
    fn root(&self) -> Option<&str> {
        self.d.root.as_deref()
    }
    /// relative to the map first, then to the root, then as reported
    fn index(&self, name: &str) -> Option<usize> {
        let at = |u: &str| self.urls.iter().position(|x| x == u);
        at(&url::resolve(None, name, self.map.as_deref()))
            .or_else(|| at(&url::resolve(self.root(), name, self.map.as_deref())))
            .or_else(|| at(name))
    }
    fn open(&self) -> Result<BasicConsumer, Viol> {
        open_basic(&self.d.json(), self.map.as_deref())
    }
    /// Query by every lookup that takes a source; which = subset of lookups.
    fn query(&self, ch: &mut Ch, c: &mut BasicConsumer, name: &str, which: u32) -> Res {
        let i = self.index(name);
        let what = |k: &str| format!("{k}({name:?}) on {} opened with {:?} (sources {:?})", self.d.json(), self.map, self.urls);
        if which & 1 != 0 {
            let got = gen_for(c, name, 1, 0, None)?.map(|a| (a.g, a.src));
            full(got, i.map(|i| ((i as i64 + 1, i as i64), Some(self.urls[i].clone()))), || what("generated_position_for"))?;
            ch.step();
            ch.outcome(&(name, i));
        }
        if which & 2 != 0 {
            let got: Vec<sm::Seg> = all_for(c, name, 1, None)?.iter().map(|r| r.seg).collect();
            let want: Vec<sm::Seg> = i.map(|i| sm::Seg { line: i as u32, col: i as u32, orig: Some(sm::Orig { src: i as u32, line: 0, col: 0, name: None }) }).into_iter().collect();
            full(got, want, || what("all_generated_position_for"))?;
            ch.step();
        }
        if which & 4 != 0 {
            let want = i.map(|i| format!("content {i}"));
            let got = must("source_content_for(.., Some(false))", || c.source_content_for(name, Some(false)))?;
            full(got, want.clone(), || what("source_content_for (not panicking)"))?;
            let got = call(|| c.source_content_for(name, None));
            full(got.map_err(|_| "panic"), match want { Some(w) => Ok(Some(w)), None => Err("panic") }, || what("source_content_for"))?;
            ch.steps(2);
        }
        Ok(())
    }
}
fn names(w: &World, extra: &[&str], near: bool) -> Vec<String> {
    let mut v: Vec<String> = w.urls.clone();
    for s in w.d.sources.iter().cloned().chain(w.urls.clone()) {
        v.push(s.clone());
        v.push(format!("./{s}"));
        v.push(format!("zz/../{s}"));
        if near {
            // not this source
            v.push(format!("{s}?"));
            v.push(format!("{s}?x"));
            v.push(format!("{s}#x"));
            v.push(format!("{s}/"));
            v.push(format!("{s} x"));
            v.push(s.replace(".js", ""));
            v.push(s.replace("a.js", "%61.js"));
            v.push(s.to_uppercase());
            // run together with what is put before it
            for t in w.root().into_iter().chain(w.map.as_deref()) {
                for t in [t, t.trim_end_matches('/'), &t[..t.rfind('/').map_or(0, |i| i + 1)]] {
                    v.push(format!("{t}{s}"));
                    v.push(format!("{s}{t}"));
                    v.push(s.strip_prefix(t).unwrap_or(&s).to_string());
                }
            }
            v.push(format!("{s}{s}"));
            v.push(s[s.char_indices().nth(1).map_or(0, |c| c.0)..].to_string());
            v.push(s.rsplit('/').next().unwrap_or("").to_string());
        }
        if let Some(r) = w.root() {
            v.push(format!("{}/{s}", r.trim_end_matches('/')));
        }
    }
    v.extend(extra.iter().map(|s| s.to_string()));
    let mut seen = std::collections::HashSet::new();
    // only spellings the reference URL model speaks about
    v.retain(|s| {
        let path = match url::kind_of(s) {
            url::Kind::Abs(sc, _) => {
                let rest = s[sc.len()..].strip_prefix("//").unwrap_or("");
                rest[rest.find(['/', '?', '#']).unwrap_or(rest.len())..].to_string()
            }
            url::Kind::Scheme(h) if !h.is_empty() => {
                let rest = &s[2..];
                rest[rest.find(['/', '?', '#']).unwrap_or(rest.len())..].to_string()
            }
            _ => s.clone(),
        };
        // a host is a name
        let host = match url::kind_of(s) {
            url::Kind::Abs(_, h) | url::Kind::Scheme(h) => h,
            _ => String::new(),
        };
        let named = host.is_empty() || host.trim_end_matches(":80").bytes().all(|b| b.is_ascii_alphanumeric());
        named && seen.insert(s.clone()) && s.trim() == s && !path.contains("//") && !path.contains(':')
    });
    v
}
const SRC: [&str; 13] = ["a.js", "A.js", "./a.js", "../a.js", "/a.js", "lib/a.js", "http://h/a.js", "b.js", "x/../b.js", "/lib/a.js", "a b.js", "//h/a.js", "webpack:///a.js"];
const EXTRA: [&str; 10] = ["HTTP://H/a.js", "http://h:80/./a.js", "//H/a.js", "a.js", "A.js", "/a.js", "unknown.js", "", "http://h/a.js", "lib/a.js"];
fn roots() -> Vec<Option<&'static str>> {
    vec![None, Some(""), Some("lib"), Some("/lib/"), Some("http://h/"), Some("../up"), Some("//h"), Some(".")]
}
fn maps() -> Vec<Option<&'static str>> {
    vec![None, Some("m.map"), Some("lib/m.map"), Some("../m.map"), Some("/lib/m.map"), Some("http://h/m.map"), Some("http://h/lib/m.map?q")]
}

fn main() {
    run::main(Prop {
        id: "C16",
        rule: "state = one map (sources, root, map URL); transition = one lookup by one spelling compared with the reference name resolution; trace = a sequence of lookups on one real consumer",
        assumptions: vec![
            "reference URL model in mc/src/url.rs",
            "a name is resolved relative to the map, else relative to the source root, else taken as reported; the first source with that URL is meant",
        ],
        stages: |thorough| {
            let mut v = vec![];
            let n = if thorough { 3 } else { 2 };
            v.push(stage("spellings", format!("every list of 1..={n} sources from {SRC:?} (repetitions included), {} roots, {} map URLs; every reported URL, raw text, './', 'zz/../' and root-prefixed spelling, {EXTRA:?}; asked twice in order", roots().len(), maps().len()), move |ch| {
                let (root, map) = (*ch.of(&roots()), *ch.of(&maps()));
                let k = 1 + ch.pick(n);
                let src: Vec<&str> = (0..k).map(|_| *ch.of(&SRC)).collect();
                let w = World::new(&src, root, map);
                ch.state(&(&src, root, map));
                ch.log(|| format!("{} opened with {map:?}", w.d.json()));
                let mut c = w.open()?;
                let ns = names(&w, &EXTRA, true);
                for s in &ns {
                    w.query(ch, &mut c, s, 7)?;
                }
                for s in ns.iter().rev() {
                    w.query(ch, &mut c, s, 7)?;
                }
                Ok(())
            }));
            let n = if thorough { 4 } else { 3 };
            v.push(stage("histories", format!("every sequence of {n} lookups by every spelling, each through one kind of lookup, on 5 maps"), move |ch| {
                let w = match ch.pick(5) {
                    0 => World::new(&["a.js", "../a.js", "a.js"], Some("lib"), None),
                    1 => World::new(&["./a.js", "b.js"], None, Some("d/m.map")),
                    2 => World::new(&["a.js", "/a.js"], Some("/lib"), Some("http://h/m.map")),
                    3 => World::new(&["../a.js", "a.js"], Some("http://h/r"), None),
                    _ => World::new(&["a.js", "lib/a.js"], Some("lib"), Some("lib/m.map")),
                };
                let ns = names(&w, &["unknown.js", "a.js", "lib/a.js"], false);
                let mut c = w.open()?;
                let mut past = vec![];
                for _ in 0..n {
                    let s = ch.of(&ns);
                    let which = 1 << ch.pick(if n == 3 { 3 } else { 2 });
                    past.push((s.clone(), which));
                    ch.log(|| format!("lookup {which} of {s:?}"));
                    w.query(ch, &mut c, s, which).map_err(|v| Viol(format!("{} after {past:?}", v.0)))?;
                }
                ch.state(&(&w.urls, past));
                Ok(())
            }));
            v.push(stage("many", "1..=40, 129, 257, 300, 513, 1025 or 4097 sources, the last of them a repetition of an earlier one (of every one, or of 8); names short, in deep directories, or of 300 characters and different at the end only", |ch| {
                let k = ch.pick(46);
                let n = if k < 40 { 1 + k } else { [129, 257, 300, 513, 1025, 4097][k - 40] };
                let dup = if n <= 40 { ch.pick(n) } else { *ch.of(&[0, 1, 2, 100, 127, 128, n - 2, n - 1]) };
                let pre = match ch.pick(3) {
                    0 => "".to_string(),
                    1 => "d/".repeat(20),
                    _ => "p".repeat(300),
                };
                let mut s: Vec<String> = (0..n).map(|i| format!("{pre}s{i}.js")).collect();
                s[n - 1] = s[dup].clone();
                let src: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
                let w = World::new(&src, Some("r"), None);
                ch.state(&(n, dup));
                let mut c = w.open()?;
                for k in [n - 1, dup, 0, n / 2, n * 3 / 4, n - n.min(2)] {
                    w.query(ch, &mut c, &s[k].clone(), 7)?;
                    w.query(ch, &mut c, &w.urls[k].clone(), 7)?;
                    w.query(ch, &mut c, &format!("x/../{}", s[k]), 7)?;
                    w.query(ch, &mut c, &format!("{}x", s[k]), 7)?;
                }
                Ok(())
            }));
            v
        },
    });
}
