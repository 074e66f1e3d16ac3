//! Generator side: mappings in terms of text, adapters, and the decoder of
//! what the real generator emits.
use crate::cons::pos;
use crate::explore::*;
use crate::sm;
use crate::viol;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use serde_json::Value;

/// One mapping as the user adds it (1-based lines).
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct M {
    pub g: (i32, i32),
    pub o: Option<(i32, i32, String)>,
    pub name: Option<String>,
}
pub fn m(gl: i32, gc: i32, o: Option<(i32, i32, &str)>, name: Option<&str>) -> M {
    M { g: (gl, gc), o: o.map(|(l, c, s)| (l, c, s.to_string())), name: name.map(|s| s.to_string()) }
}
impl M {
    pub fn real(&self) -> Mapping {
        Mapping {
            generated: pos(self.g.0, self.g.1),
            original: self.o.as_ref().map(|o| pos(o.0, o.1)),
            source: self.o.as_ref().map(|o| o.2.clone()),
            name: self.name.clone(),
            last_generated_column: carried(self.g.1),
        }
    }
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
}
/// What the mappings made from now on carry as their last generated column:
/// the kinds in turn. It means nothing to a generator.
pub struct Carry;
thread_local! {
    static CARRY: std::cell::RefCell<(Vec<usize>, usize)> = Default::default();
}
pub const CARRIED: usize = 5;
impl Carry {
    pub fn new(kinds: Vec<usize>) -> Carry {
        CARRY.with(|c| *c.borrow_mut() = (kinds, 0));
        Carry
    }
}
impl Drop for Carry {
    fn drop(&mut self) {
        CARRY.with(|c| c.borrow_mut().0.clear());
    }
}
fn carried(column: i32) -> Option<i32> {
    CARRY.with(|c| {
        let c = &mut *c.borrow_mut();
        let kind = *c.0.get(c.1 % c.0.len().max(1))?;
        c.1 += 1;
        carry(kind, column)
    })
}
pub fn carry(kind: usize, column: i32) -> Option<i32> {
    [None, Some(column.saturating_add(3)), Some(-1), Some(0), Some(i32::MAX)][kind]
}
/// `n` additions, each carrying any last generated column.
pub fn carrying(ch: &mut Ch, n: usize) -> (Vec<M>, Carry) {
    let al = contents_alphabet();
    let ms = (0..n).map(|_| ch.of(&al).clone()).collect();
    (ms, Carry::new((0..n).map(|_| ch.pick(CARRIED)).collect()))
}
pub const CARRYING: &str = "any of 4 mappings, each of which carries no last generated column, one behind it, -1, 0 or the largest integer";
pub fn new_gen(file: Option<&str>, root: Option<&str>, skip: bool) -> SourceMapGenerator {
    SourceMapGenerator::new(file.map(|s| s.to_string()), root.map(|s| s.to_string()), skip)
}
pub fn add(g: &mut SourceMapGenerator, x: &M) -> Result<(), Viol> {
    must(&format!("add_mapping({})", x.show()), || g.add_mapping(x.real()))
}
pub fn emit(g: &mut SourceMapGenerator) -> Result<String, Viol> {
    must("as_string", || g.as_string())
}

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub json: Value,
    pub text: String,
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub mappings: String,
    pub segs: Vec<sm::Seg>,
    /// decoded mappings with text, in emitted order
    pub maps: Vec<M>,
}
fn strings(v: &Value, what: &str) -> Result<Vec<String>, Viol> {
    match v.as_array() {
        Some(a) => a
            .iter()
            .map(|s| s.as_str().map(|s| s.to_string()).ok_or_else(|| Viol(format!("{what} entry is no string: {s}"))))
            .collect(),
        None => viol!("{what} is no list: {v}"),
    }
}
/// Decode an emitted document by the Source Map v3 rules.
pub fn decode(text: &str) -> Result<Out, Viol> {
    let json: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => viol!("emitted text is not JSON ({e}): {text}"),
    };
    if json["version"] != 3 {
        viol!("version is {} in {text}", json["version"]);
    }
    let sources = strings(&json["sources"], "sources")?;
    let names = strings(&json["names"], "names")?;
    let Some(mappings) = json["mappings"].as_str() else { viol!("no mappings in {text}") };
    let segs = match sm::decode(mappings) {
        Ok(s) => s,
        Err(e) => viol!("emitted mappings do not decode ({e:?}): {text}"),
    };
    let mut maps = vec![];
    for s in &segs {
        let mut x = M { g: (s.line as i32 + 1, s.col as i32), o: None, name: None };
        if let Some(o) = s.orig {
            let (Some(src), l, c) = (sources.get(o.src as usize), o.line as i32 + 1, o.col as i32) else {
                viol!("source index {} out of range in {text}", o.src)
            };
            x.o = Some((l, c, src.clone()));
            if let Some(n) = o.name {
                let Some(n) = names.get(n as usize) else { viol!("name index {n} out of range in {text}") };
                x.name = Some(n.clone());
            }
        }
        maps.push(x);
    }
    Ok(Out { text: text.to_string(), sources, names, mappings: mappings.to_string(), json, segs, maps })
}
/// First-use order of distinct strings.
pub fn first_use<'a>(it: impl Iterator<Item = &'a String>) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    it.filter(|s| seen.insert(*s)).cloned().collect()
}
pub fn sorted_set(ms: &[M]) -> Vec<M> {
    let mut v = ms.to_vec();
    v.sort();
    v.dedup();
    v
}

/// Alphabet: generated positions x (no original | original x source x name)
pub fn alphabet(g: &[(i32, i32)], o: &[(i32, i32)], src: &[&str], names: &[Option<&str>]) -> Vec<M> {
    let mut v = vec![];
    for g in g {
        v.push(m(g.0, g.1, None, None));
        for o in o {
            for s in src {
                for n in names {
                    v.push(m(g.0, g.1, Some((o.0, o.1, s)), *n));
                }
            }
        }
    }
    v
}
/// Rich in ties: few generated positions, everything else varies.
pub fn ties() -> Vec<M> {
    alphabet(&[(1, 0), (2, 1)], &[(1, 0), (1, 1), (2, 0)], &["b", "a"], &[None, Some("y"), Some("x")])
}
/// Fewer attributes, more positions.
pub fn spread() -> Vec<M> {
    alphabet(&[(1, 0), (1, 1), (2, 0), (4, 0)], &[(1, 0), (2, 3)], &["b", "a"], &[None, Some("x")])
}
pub fn small() -> Vec<M> {
    let mut v = alphabet(&[(1, 0), (2, 1)], &[(1, 0)], &["b", "a"], &[None, Some("x")]);
    v.push(m(1, 5, Some((2, 0, "a")), Some("y")));
    v.push(m(1, 0, Some((1, 1, "a")), Some("y")));
    v
}
/// Boundary coordinates; the generated line stays small because the text has
/// one ';' per line.
pub fn boundary() -> Vec<M> {
    let e = [0, 1, 15, 16, 31, 32, 511, 512, 16383, 16384, 1 << 20, 1 << 29, (1 << 30) - 1, 1 << 30, i32::MAX - 1, i32::MAX];
    let mut v = vec![];
    for &x in &e {
        v.push(m(1, x, None, None));
        v.push(m(1, x, Some((1, 0, "a")), None));
        v.push(m(1, 3, Some((1, x, "a")), None));
        v.push(m(1, 3, Some((x.max(1), 0, "a")), Some("x")));
        v.push(m(2, x, Some((x.max(1), x, "b")), None));
    }
    for l in [2, 3, 16, 17, 32, 33, 64, 100, 255, 256, 257, 512, 513, 1025, 5000] {
        v.push(m(l, 0, None, None));
        v.push(m(l, 4, Some((1, 0, "a")), None));
    }
    v
}
/// Runs of names, sources and generated code: `n` additions in order, each on
/// the same or the next line.
pub fn walk(ch: &mut Ch, n: usize) -> Vec<M> {
    let mut line = 1;
    (0..n as i32)
        .map(|i| {
            line += ch.pick(2) as i32;
            match ch.pick(WALK) {
                0 => m(line, 2 * i, None, None),
                1 => m(line, 2 * i, Some((2, 4, "a")), Some("x")),
                2 => m(line, 2 * i, Some((1, 0, "A")), None),
                3 => m(line, 2 * i, Some((4, 1, "b")), Some("y")),
                _ => m(line, 2 * i, Some((3, 0, "a")), Some("X")),
            }
        })
        .collect()
}
pub const WALK: usize = 5;
pub const PATTERNS: usize = 12;
/// Long regular sequences, also with texts that only differ behind 300
/// characters.
pub fn sized(ch: &mut Ch) -> Vec<M> {
    let n = *ch.of(&crate::cons::SIZES) as i32;
    let p = ch.pick(PATTERNS + 1);
    if p == PATTERNS { stretch(long(n.min(600), 2)) } else { long(n, p) }
}
pub fn huge(ch: &mut Ch, thorough: bool) -> Vec<M> {
    let n = if thorough { *ch.of(&crate::cons::HUGE) } else { 131075 };
    match *ch.of(&[2, 10, 9, 3]) {
        // backwards all along: fewer, lest a sorted insertion takes its time
        3 => long(n.min(20_000) as i32, 3),
        p => long(n as i32, p),
    }
}
fn stretch(mut ms: Vec<M>) -> Vec<M> {
    let pre = "p".repeat(300);
    for x in &mut ms {
        x.o = x.o.take().map(|o| (o.0, o.1, format!("{pre}{}", o.2)));
        x.name = x.name.take().map(|n| format!("{pre}{n}"));
    }
    ms
}
pub fn long(n: i32, p: usize) -> Vec<M> {
    let s = |i: i32| format!("s{i}");
    let nm = |i: i32| format!("n{i}");
    (0..n)
        .map(|i| match p {
            // increasing
            0 => m(1, 2 * i, Some((1 + i / 3, i, "a")), None),
            // decreasing
            1 => m(1, 2 * (n - i), Some((1 + i, 0, "a")), None),
            // a new source and name each
            2 => M { g: (1 + i / 9, i % 9), o: Some((1, i, s(i))), name: Some(nm(i)) },
            // decreasing, a new source each
            3 => M { g: (1 + (n - i), 0), o: Some((1, i, s(i))), name: None },
            // all at one position, sources decreasing
            4 => M { g: (1, 1), o: Some((1, 1, s(n - i))), name: None },
            // duplicates of 5 mappings
            5 => m(1, i % 5, Some((1, i % 5, "a")), Some("x")),
            // sorted, then one straggler
            6 => if i == n - 1 { m(1, 0, Some((9, 9, "z")), None) } else { m(1 + i, 0, None, None) },
            // interleaved halves
            7 => m(1 + (i * 7) % (n.max(1)), (i * 5) % 3, if i % 3 == 0 { None } else { Some((1 + i % 4, i % 2, "a")) }, None),
            // all at one position, original columns decreasing, with and without names
            8 => M { g: (2, 3), o: Some((1, (n - i) / 2, s(i % 2))), name: if i % 3 == 0 { None } else { Some(nm(i % 4)) } },
            // in order, but every thousandth 500 places early
            10 => M { g: if i % 1000 == 999 { (i - 499, 0) } else { (1 + i, 1) }, o: Some((1, i, s(i / 2))), name: None },
            // half of them bring a new source and name each, the others go from
            // the first to every other one and back
            11 => {
                let h = n / 2;
                let j = if i < h { i } else if (i - h) % 2 == 0 { 0 } else { (i - h) / 2 };
                let k = if i < h { i } else if (i - h) % 2 == 0 { h.max(1) - 1 } else { (i - h) / 3 };
                M { g: (1 + i / 7, 3 * (i % 7)), o: Some((1 + j, k, s(j))), name: Some(nm(k)) }
            }
            // far apart lines, backwards sources
            _ => M { g: (1 + 4 * i, 1), o: Some((1 + (n - i), 3, s((n - i) / 2))), name: Some(nm(i / 2)) },
        })
        .collect()
}

/// Texts that something might confuse with each other or with no text.
pub const TEXTS: [&str; 30] = [
    "", " ", "a", "a ", " a", "A", "ab", "a\n", "a\r\n", "a\t", "\u{e9}", "e\u{301}", "\u{c9}", "\u{1f600}", "\u{1f601}", "\u{feff}a", "a\0", "null", "undefined", "__proto__", "0", "00", "a\"b", "a\\b", "a/b", "a//b", "./a", "a;b,c", "<none>", "\u{ffff}",
];
/// Texts that are equally long, or begin or end alike.
pub const PATHS: [&str; 12] = [
    "lib/a/index.js", "lib/b/index.js", "lib/a/index.ts", "lib/a/Index.js", "LIB/a/index.js", "bil/a/index.js", "lib/a/index.js2", "/lib/a/index.js", "lib/a/xedni.js", "index.js", "lib/a/", "src/components/deep/below/another/directory/of/this/name/a/index.js",
];
/// Two or three texts as sources or names at one generated position or next to
/// each other, then nothing, an addition out of order, or a repetition.
pub fn texts(ch: &mut Ch, t: &[&str]) -> Vec<M> {
    let (a, b) = (*ch.of(t), *ch.of(t));
    let kind = ch.pick(5);
    let mut ms = match kind {
        0 => vec![m(1, 4, Some((1, 0, a)), None), m(1, 4, Some((1, 0, b)), None)],
        1 => vec![m(1, 4, Some((1, 0, "s")), Some(a)), m(1, 4, Some((1, 0, "s")), Some(b)), m(1, 4, Some((1, 0, "s")), None)],
        2 => vec![m(1, 4, Some((1, 0, a)), Some(b)), m(1, 4, Some((1, 0, b)), Some(a)), m(1, 4, Some((1, 0, a)), None), m(1, 4, None, None)],
        3 => vec![m(1, 4, Some((1, 0, a)), None), m(1, 6, Some((1, 0, b)), Some(a)), m(2, 0, Some((1, 0, a)), Some(b))],
        _ => {
            let c = *ch.of(t);
            vec![m(1, 4, Some((1, 0, a)), Some(c)), m(1, 4, Some((1, 0, b)), Some(c)), m(1, 4, Some((1, 0, c)), None)]
        }
    };
    match ch.pick(3) {
        0 => {}
        1 => ms.push(m(1, 0, None, None)),
        _ => ms.push(ms[0].clone()),
    }
    ms
}
pub fn texts_bound(t: &[&str]) -> String {
    format!("every pair and triple of the texts {t:?} as sources or names of mappings at one generated position or next to each other, then nothing, an addition out of order, or a repetition")
}

/// Generated lines far behind each other.
pub fn far(ch: &mut Ch) -> Vec<M> {
    const LINES: [i32; 9] = [1, 256, 4097, 32767, 32769, 65535, 65537, 70001, 100_000];
    let (a, b) = (*ch.of(&LINES), *ch.of(&LINES));
    let mut ms = vec![m(a, 3, Some((2, 1, "a")), Some("x")), m(b, 5, Some((1, 4, "b")), None), m(a.max(b), 0, None, None)];
    if ch.flag() {
        ms.reverse();
    }
    ms
}
pub const FAR: &str = "three additions on generated lines up to 100000, in and out of order";

/// Mappings added in between changes of source contents and serialisations;
/// returns what was added and what is emitted in the end.
pub fn with_contents(ch: &mut Ch, n: usize, root: Option<&str>) -> Result<(Vec<M>, Out), Viol> {
    let al = contents_alphabet();
    const FILES: [&str; 3] = ["b", "a", "nowhere"];
    let mut g = new_gen(None, root, false);
    let mut ms = vec![];
    for _ in 0..n {
        let k = ch.pick(al.len() + 7);
        if k < al.len() {
            ch.log(|| format!("add {}", al[k].show()));
            add(&mut g, &al[k])?;
            ms.push(al[k].clone());
        } else if k < al.len() + 6 {
            let i = k - al.len();
            let c = if i < 3 { Some("content".to_string()) } else { None };
            ch.log(|| format!("set content of {} to {c:?}", FILES[i % 3]));
            must("set_source_content", || g.set_source_content(FILES[i % 3].to_string(), c))?;
        } else {
            ch.log(|| "serialise".into());
            emit(&mut g)?;
        }
        ch.step();
    }
    let o = decode(&emit(&mut g)?)?;
    ch.step();
    Ok((ms, o))
}
fn contents_alphabet() -> Vec<M> {
    vec![m(1, 4, Some((1, 0, "a")), Some("x")), m(1, 4, Some((1, 0, "b")), Some("y")), m(2, 0, Some((3, 0, "a")), Some("y")), m(1, 0, None, None)]
}
pub const CONTENTS: &str = "any of 4 additions, setting or removing the content of 2 sources and of a file that is no source, serialising";
