//! Reference answers of a consumer, and adapters for the real one.
use crate::explore::*;
use crate::sm::*;
use crate::{ensure, viol};
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::Position;
use source_map_mappings::Bias;
use std::cell::RefCell;

pub type Bi = Option<Bias>;
pub const BIASES: [Bi; 3] = [None, Some(Bias::GreatestLowerBound), Some(Bias::LeastUpperBound)];
pub fn lub(b: Bi) -> bool {
    matches!(b, Some(Bias::LeastUpperBound))
}
pub fn pos(line: i32, column: i32) -> Position {
    Position { line, column }
}

/// A basic map document.
#[derive(Clone, Debug)]
pub struct Doc {
    pub file: Option<String>,
    pub root: Option<String>,
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub mappings: String,
}
pub fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn list(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}
impl Doc {
    pub fn new(segs: &[Seg], nsrc: usize, nnames: usize) -> Doc {
        Doc {
            file: None,
            root: None,
            sources: (0..nsrc).map(|i| format!("s{i}.js")).collect(),
            names: (0..nnames).map(|i| format!("n{i}")).collect(),
            contents: None,
            mappings: encode(segs),
        }
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{\"version\":3");
        if let Some(f) = &self.file {
            s += &format!(",\"file\":{}", q(f));
        }
        if let Some(r) = &self.root {
            s += &format!(",\"sourceRoot\":{}", q(r));
        }
        s += &format!(",\"sources\":{}", list(&self.sources));
        if let Some(c) = &self.contents {
            let c: Vec<String> = c.iter().map(|c| c.as_ref().map_or("null".into(), |c| q(c))).collect();
            s += &format!(",\"sourcesContent\":[{}]", c.join(","));
        }
        s += &format!(",\"names\":{},\"mappings\":{}}}", list(&self.names), q(&self.mappings));
        s
    }
    pub fn model(&self, map_url: Option<&str>) -> Model {
        let mut segs = decode(&self.mappings).expect("model of a malformed text");
        segs.sort_by_key(|s| s.gen());
        Model {
            segs,
            urls: self.sources.iter().map(|s| crate::url::resolve(self.root.as_deref(), s, map_url)).collect(),
            names: self.names.clone(),
            root: self.root.clone(),
            map: map_url.map(|s| s.to_string()),
        }
    }
}
pub fn indexed_json(sections: &[((u32, u32), String)]) -> String {
    let s: Vec<String> = sections
        .iter()
        .map(|((l, c), m)| format!("{{\"offset\":{{\"line\":{l},\"column\":{c}}},\"map\":{m}}}"))
        .collect();
    format!("{{\"version\":3,\"sections\":[{}]}}", s.join(","))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ans {
    pub g: (i64, i64),
    pub o: Option<(i64, i64)>,
    pub src: Option<String>,
    pub name: Option<String>,
    pub span: Option<i64>,
}
impl Ans {
    pub fn of(m: rusty_source_map::mapping::Mapping) -> Ans {
        Ans {
            g: (m.generated.line as i64, m.generated.column as i64),
            o: m.original.map(|o| (o.line as i64, o.column as i64)),
            src: m.source,
            name: m.name,
            span: m.last_generated_column.map(|c| c as i64),
        }
    }
    pub fn nospan(mut self) -> Ans {
        self.span = None;
        self
    }
}
/// A raw (0-based) mapping as enumerated by the real consumer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Raw {
    pub seg: Seg,
    pub span: Option<u32>,
}
pub fn raw(m: &source_map_mappings::Mapping) -> Raw {
    Raw {
        seg: Seg {
            line: m.generated_line,
            col: m.generated_column,
            orig: m.original.as_ref().map(|o| Orig {
                src: o.source,
                line: o.original_line,
                col: o.original_column,
                name: o.name,
            }),
        },
        span: m.last_generated_column,
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    /// sorted by generated position
    pub segs: Vec<Seg>,
    pub urls: Vec<String>,
    pub names: Vec<String>,
    pub root: Option<String>,
    pub map: Option<String>,
}
impl Model {
    /// Which source a spelling means: relative to the map, else relative to
    /// the source root, else exactly as reported; the first occurrence.
    pub fn lookup(&self, name: &str) -> Option<u32> {
        let (root, map) = (self.root.as_deref(), self.map.as_deref());
        self.src_of(&crate::url::resolve(None, name, map))
            .or_else(|| self.src_of(&crate::url::resolve(root, name, map)))
            .or_else(|| self.src_of(name))
    }
    pub fn ans(&self, s: &Seg) -> Ans {
        let o = s.orig;
        Ans {
            g: (s.line as i64 + 1, s.col as i64),
            o: o.map(|o| (o.line as i64 + 1, o.col as i64)),
            src: o.map(|o| self.urls[o.src as usize].clone()),
            name: o.and_then(|o| o.name).map(|n| self.names[n as usize].clone()),
            span: None,
        }
    }
    /// Mappings that may answer an original-position lookup (1-based line).
    pub fn orig_cands(&self, line: i64, col: i64, lub: bool) -> Vec<Seg> {
        let on: Vec<&Seg> = self.segs.iter().filter(|s| s.line as i64 + 1 == line).collect();
        let exact = on.iter().any(|s| s.col as i64 == col);
        let c = if exact {
            Some(col)
        } else if lub {
            on.iter().map(|s| s.col as i64).filter(|c| *c > col).min()
        } else {
            on.iter().map(|s| s.col as i64).filter(|c| *c < col).max()
        };
        on.iter().filter(|s| Some(s.col as i64) == c).map(|s| **s).collect()
    }
    /// Mappings that may answer a generated-position lookup (1-based line).
    pub fn gen_cands(&self, src: u32, line: i64, col: i64, lub: bool) -> Vec<Seg> {
        let key = |s: &Seg| s.orig.map(|o| (o.line as i64 + 1, o.col as i64)).unwrap();
        let of: Vec<&Seg> = self.segs.iter().filter(|s| s.orig.map_or(false, |o| o.src == src)).collect();
        let exact = of.iter().any(|s| key(s) == (line, col));
        let k = if exact {
            Some((line, col))
        } else if lub {
            of.iter().map(|s| key(s)).filter(|k| *k > (line, col)).min()
        } else {
            of.iter().map(|s| key(s)).filter(|k| *k < (line, col)).max()
        };
        of.iter().filter(|s| Some(key(s)) == k).map(|s| **s).collect()
    }
    pub fn all_gen(&self, src: u32, line: i64, col: Option<i64>) -> Vec<Seg> {
        let of: Vec<(i64, i64, Seg)> = self
            .segs
            .iter()
            .filter_map(|s| s.orig.filter(|o| o.src == src).map(|o| (o.line as i64 + 1, o.col as i64, *s)))
            .collect();
        let mut r: Vec<Seg> = match col {
            Some(c) => {
                let at = of.iter().filter(|x| x.0 == line && x.1 >= c).map(|x| x.1).min();
                of.iter().filter(|x| x.0 == line && Some(x.1) == at).map(|x| x.2).collect()
            }
            None => {
                let at = of.iter().map(|x| x.0).filter(|l| *l >= line).min();
                of.iter().filter(|x| Some(x.0) == at).map(|x| x.2).collect()
            }
        };
        r.sort();
        r
    }
    pub fn src_of(&self, name: &str) -> Option<u32> {
        self.urls.iter().position(|u| u == name).map(|i| i as u32)
    }
    /// Interesting lines (1-based) and columns for queries.
    pub fn gen_grid(&self) -> (Vec<i32>, Vec<i32>) {
        let mut l = vec![1];
        let mut c = vec![0];
        for s in &self.segs {
            around(&mut l, s.line as i64 + 1, 1);
            around(&mut c, s.col as i64, 0);
        }
        (uniq(l), uniq(c))
    }
    pub fn orig_grid(&self) -> (Vec<i32>, Vec<i32>) {
        let mut l = vec![1];
        let mut c = vec![0];
        for o in self.segs.iter().filter_map(|s| s.orig) {
            around(&mut l, o.line as i64 + 1, 1);
            around(&mut c, o.col as i64, 0);
        }
        (uniq(l), uniq(c))
    }
}
fn around(v: &mut Vec<i32>, x: i64, min: i64) {
    for d in -1..=1 {
        if x + d >= min && x + d <= i32::MAX as i64 {
            v.push((x + d) as i32);
        }
    }
}
pub fn uniq(mut v: Vec<i32>) -> Vec<i32> {
    v.sort();
    v.dedup();
    thin_out(v)
}
/// Of a long list, its ends, the surroundings of powers of two, and 40 others
/// (6 of very many) at regular distances.
pub fn thin_out<T>(v: Vec<T>) -> Vec<T> {
    let n = v.len();
    if n <= THIN {
        return v;
    }
    let keep = |i: usize| i < 8 || i + 8 >= n || i % (n / if n > 10000 { 6 } else { 40 }) == 0 || (i - 1).is_power_of_two() || i.is_power_of_two() || (i + 1).is_power_of_two();
    v.into_iter().enumerate().filter(|(i, _)| keep(*i)).map(|x| x.1).collect()
}
/// Of a list, its ends and `n` others at regular distances.
pub fn some_of<T>(v: Vec<T>, n: usize) -> Vec<T> {
    let k = v.len();
    if k <= n + 6 {
        return v;
    }
    v.into_iter().enumerate().filter(|(i, _)| *i < 3 || *i + 3 >= k || i * n / k != (i + 1) * n / k).map(|x| x.1).collect()
}
pub const THIN: usize = 400;
/// Lengths around which implementations change their ways.
pub const SIZES: [usize; 16] = [100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097];
pub const HUGE: [usize; 6] = [32767, 32769, 65535, 65537, 100003, 131075];

/// Is `got` one of the admissible answers (span ends aside)?
pub fn check_orig(m: &Model, cands: &[Seg], got: &Option<Ans>, what: impl Fn() -> String) -> Res {
    let g = got.clone().map(|a| a.nospan());
    let ok = if cands.is_empty() {
        g.is_none()
    } else {
        cands.iter().any(|c| if c.orig.is_none() { g.is_none() } else { g.as_ref() == Some(&m.ans(c)) })
    };
    if !ok {
        let want: Vec<Option<Ans>> = cands.iter().map(|c| c.orig.map(|_| m.ans(c))).collect();
        viol!("{} answered {:?}; admissible: {:?}", what(), got, if want.is_empty() { vec![None] } else { want });
    }
    Ok(())
}
pub fn check_gen(m: &Model, cands: &[Seg], got: &Option<Ans>, what: impl Fn() -> String) -> Res {
    check_orig(m, cands, got, what)
}
/// The enumeration order decides what "next on the line" means for mappings
/// that share a position.
pub fn spans_of(by_gen: &[Seg]) -> Vec<Raw> {
    (0..by_gen.len())
        .map(|i| Raw {
            seg: by_gen[i],
            span: by_gen.get(i + 1).filter(|n| n.line == by_gen[i].line).map(|n| n.col),
        })
        .collect()
}

// ---- real consumers -------------------------------------------------------

pub fn open(json: &str, url: Option<&str>) -> Result<Consumer, Viol> {
    match must("create_consumer", || create_consumer(json, url))? {
        Ok(c) => Ok(c),
        Err(e) => viol!("create_consumer refused {json}: {e}"),
    }
}
pub fn open_basic(json: &str, url: Option<&str>) -> Result<BasicConsumer, Viol> {
    match open(json, url)? {
        Consumer::BasicConsumer(b) => Ok(b),
        _ => viol!("create_consumer opened a map without sections as indexed: {json}"),
    }
}
pub fn open_indexed(json: &str, url: Option<&str>) -> Result<IndexedConsumer, Viol> {
    match open(json, url)? {
        Consumer::IndexedConsumer(b) => Ok(b),
        _ => viol!("create_consumer opened a map with sections as basic: {json}"),
    }
}
pub fn enumerate<C: ConsumerTrait>(c: &mut C, ord: IterOrd) -> Result<Vec<Raw>, Viol> {
    let v = RefCell::new(vec![]);
    must("each_mapping", || c.each_mapping(|m| v.borrow_mut().push(raw(m)), ord))?;
    Ok(v.into_inner())
}
pub fn orig_for(c: &mut BasicConsumer, l: i32, col: i32, b: Bi) -> Result<Option<Ans>, Viol> {
    must("original_position_for", || c.original_position_for(pos(l, col), b).map(Ans::of))
}
pub fn gen_for(c: &mut BasicConsumer, s: &str, l: i32, col: i32, b: Bi) -> Result<Option<Ans>, Viol> {
    must("generated_position_for", || c.generated_position_for(s, l, col, b).map(Ans::of))
}
pub fn all_for(c: &mut BasicConsumer, s: &str, l: i32, col: Option<i32>) -> Result<Vec<Raw>, Viol> {
    must("all_generated_position_for", || c.all_generated_position_for(s, l, col).iter().map(raw).collect())
}

/// The ways of opening one and the same basic map.
pub const ROUTES: usize = 5;
pub fn open_by(route: usize, json: &str, url: Option<&str>) -> Result<BasicConsumer, Viol> {
    let parse = || serde_json::from_str::<rusty_source_map::source_map::SourceMapJson>(json).unwrap();
    match route {
        0 => open_basic(json, url),
        1 => must("BasicConsumer::new", || BasicConsumer::new(json, url)),
        2 => must("BasicConsumer::from_source_map_json", || BasicConsumer::from_source_map_json(parse(), url)),
        3 => {
            let mut r = None;
            must("BasicConsumer::consume", || BasicConsumer::consume(json.to_string(), url.unwrap_or("").to_string(), |c| r = Some(c)))?;
            r.ok_or_else(|| Viol("BasicConsumer::consume did not call back".into()))
        }
        // opened in between other consumers of other maps
        _ => {
            let other = json.replacen("\"mappings\":\"", "\"mappings\":\"C,E;", 1);
            let mut a = open_basic(&other, Some("other/dir/m.map"))?;
            let c = open_basic(json, url)?;
            let mut b = open_basic(&other, None)?;
            let _ = (enumerate(&mut a, IterOrd::GeneratedOrd)?, enumerate(&mut b, IterOrd::OriginalOrd)?);
            Ok(c)
        }
    }
}
pub fn open_indexed_by(route: usize, json: &str, url: Option<&str>) -> Result<IndexedConsumer, Viol> {
    let parse = || serde_json::from_str::<rusty_source_map::source_map::SourceMapJson>(json).unwrap();
    match route {
        0 => open_indexed(json, url),
        1 => must("IndexedConsumer::new", || IndexedConsumer::new(json, url)),
        2 => must("IndexedConsumer::from_source_map_json", || IndexedConsumer::from_source_map_json(parse(), url)),
        3 => {
            let mut r = None;
            must("IndexedConsumer::consume", || IndexedConsumer::consume(json.to_string(), url.unwrap_or("").to_string(), |c| r = Some(c)))?;
            r.ok_or_else(|| Viol("IndexedConsumer::consume did not call back".into()))
        }
        _ => {
            let mut a = open_indexed(json, Some("other/dir/m.map"))?;
            let c = open_indexed(json, url)?;
            let _ = enumerate(&mut a, IterOrd::GeneratedOrd)?;
            Ok(c)
        }
    }
}

/// Queries made before the ones that are checked; their answers do not matter.
pub const HISTORY: usize = 16;
pub const HISTORY_NAMES: [&str; HISTORY] = [
    "nothing", "sources and has-all", "original lookup", "original lookup, least upper bound, far away", "generated lookup", "generated lookup of an unknown source",
    "all positions without column", "all positions with column", "enumerate in generated order", "enumerate in original order", "compute spans", "content of a source", "content of an unknown source (refused)",
    "refused original lookup", "refused generated lookup", "generated lookup of the last source under another spelling",
];
macro_rules! history {
    ($c:expr, $k:expr, $urls:expr, $spans:ident) => {{
        let (c, k, urls): (_, usize, &[String]) = ($c, $k, $urls);
        let first = urls.first().map_or("none.js", |s| s.as_str());
        let last = urls.last().map_or("none.js", |s| s.as_str());
        let _ = call(|| match k {
            1 => drop((c.get_sources(), c.has_contents_of_all_sources())),
            2 => drop(c.original_position_for(pos(1, 1), None)),
            3 => drop(c.original_position_for(pos(70, 3), Some(Bias::LeastUpperBound))),
            4 => drop(c.generated_position_for(first, 1, 0, None).is_some()),
            5 => drop(c.generated_position_for("unknown.js", 1, 0, None).is_some()),
            6 => drop(c.all_generated_position_for(last, 1, None)),
            7 => drop(c.all_generated_position_for(first, 1, Some(0))),
            8 => c.each_mapping(|_| (), IterOrd::GeneratedOrd),
            9 => c.each_mapping(|_| (), IterOrd::OriginalOrd),
            10 => c.$spans(),
            11 => drop(c.source_content_for(first, Some(false))),
            12 => drop(c.source_content_for("unknown.js", None)),
            13 => drop(c.original_position_for(pos(0, -1), None)),
            14 => drop(c.generated_position_for(first, 0, 0, None).is_some()),
            15 => drop(c.generated_position_for(&format!("./{last}"), 2, 0, Some(Bias::LeastUpperBound)).is_some()),
            _ => (),
        });
    }};
}
pub fn history(c: &mut BasicConsumer, k: usize, urls: &[String]) {
    history!(c, k, urls, compute_column_spans)
}
pub fn history_indexed(c: &mut IndexedConsumer, k: usize, urls: &[String]) {
    history!(c, k, urls, computed_column_spans)
}
/// Sources, root and map URL around the same mappings.
pub const DECOS: usize = 9;
pub fn decorate(k: usize, d: &mut Doc) -> Option<&'static str> {
    let n = d.sources.len();
    let src = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>();
    match k {
        0 => None,
        1 => {
            d.root = Some("lib".into());
            Some("http://h/d/m.map")
        }
        // two sources with one URL
        2 => {
            d.sources = src(&|i| ["s0.js", "./s0.js", "x/../s0.js", "s1.js"][i % 4].into());
            None
        }
        // each source's URL is a spelling of the next
        3 => {
            d.sources = src(&|i| format!("{}x.js", "maps/".repeat(i)));
            Some("maps/m.map")
        }
        4 => {
            d.root = Some("/r/".into());
            d.sources = src(&|i| ["/abs.js", "http://k/s.js", "../up.js?q", "e.js#f"][i % 4].into());
            None
        }
        // repeated names, contents, a file
        5 => {
            d.names = d.names.iter().map(|_| "same".to_string()).collect();
            d.contents = Some((0..n).map(|i| Some(format!("text {i}")).filter(|_| i != 1)).collect());
            d.file = Some("out.js".into());
            Some("/m.map?v#x")
        }
        6 => {
            d.root = Some("".into());
            d.sources = src(&|i| ["b.js", "../b.js", "\u{e9} b.js", ""][i % 4].into());
            Some("../m.map")
        }
        // long texts that differ in their last characters only
        7 => {
            d.sources = src(&|i| format!("{}/{}{i}.js", "longdir/".repeat(40), "x".repeat(300)));
            d.names = d.names.iter().enumerate().map(|(i, _)| format!("{}{i}", "n".repeat(300))).collect();
            Some("http://h/d/m.map")
        }
        // the root is a prefix of one source
        _ => {
            d.root = Some("r".into());
            d.sources = src(&|i| ["r/s.js", "s.js", "r/r/s.js"][i % 3].into());
            Some("r/m.map")
        }
    }
}

// ---- map families ---------------------------------------------------------

/// Alphabet of segments; `build` picks one map of exactly `n` segments.
#[derive(Clone, Debug)]
pub struct Alpha {
    pub dlines: Vec<u32>,
    pub cols: Vec<u32>,
    /// also let some segments have no original
    pub bare: bool,
    pub srcs: Vec<u32>,
    pub olines: Vec<u32>,
    pub ocols: Vec<u32>,
    pub names: Vec<Option<u32>>,
}
impl Alpha {
    pub fn size(&self) -> usize {
        self.dlines.len() * self.cols.len() * self.origs()
    }
    fn origs(&self) -> usize {
        self.bare as usize + self.srcs.len() * self.olines.len() * self.ocols.len() * self.names.len()
    }
    pub fn seg(&self, ch: &mut Ch, line: u32) -> Seg {
        let d = *ch.of(&self.dlines);
        let mut k = ch.pick(self.cols.len() * self.origs());
        let col = self.cols[k % self.cols.len()];
        k /= self.cols.len();
        let orig = if self.bare && k == 0 {
            None
        } else {
            k -= self.bare as usize;
            let mut take = |n: usize| {
                let r = k % n;
                k /= n;
                r
            };
            Some(Orig {
                src: self.srcs[take(self.srcs.len())],
                line: self.olines[take(self.olines.len())],
                col: self.ocols[take(self.ocols.len())],
                name: self.names[take(self.names.len())],
            })
        };
        Seg { line: line + d, col, orig }
    }
    pub fn build(&self, ch: &mut Ch, n: usize) -> Vec<Seg> {
        let mut v = vec![];
        let mut line = 0;
        for _ in 0..n {
            let s = self.seg(ch, line);
            line = s.line;
            v.push(s);
        }
        v
    }
    pub fn describe(&self, n: usize) -> String {
        format!("every map of {n} segments: line step {:?}, column {:?}{}, source {:?}, original line {:?}, original column {:?}, name {:?}",
            self.dlines, self.cols, if self.bare { ", with or without original" } else { "" }, self.srcs, self.olines, self.ocols, self.names)
    }
}
pub fn dense() -> Alpha {
    Alpha { dlines: vec![0, 1], cols: vec![0, 2, 3], bare: true, srcs: vec![0, 1], olines: vec![0, 1], ocols: vec![0, 2], names: vec![None, Some(0), Some(1)] }
}
/// few attributes, for longer maps
pub fn thin() -> Alpha {
    Alpha { dlines: vec![0, 1], cols: vec![1, 3], bare: true, srcs: vec![0, 2], olines: vec![1], ocols: vec![0, 2], names: vec![None] }
}
pub const EDGE: [u32; 16] = [
    0, 1, 15, 16, 31, 32, 33, 511, 512, 1023, 1024, 32768, 65536, 1 << 20, (1 << 30) - 1, i32::MAX as u32 - 1,
];
/// boundary values in one coordinate at a time
pub fn edges() -> Vec<Alpha> {
    let z = Alpha { dlines: vec![0], cols: vec![0, 7], bare: false, srcs: vec![0], olines: vec![0], ocols: vec![0], names: vec![None] };
    let lines: Vec<u32> = vec![0, 1, 2, 15, 16, 31, 32, 63, 64, 255, 256, 1000];
    vec![
        Alpha { cols: EDGE.to_vec(), names: vec![None, Some(1)], ..z.clone() },
        Alpha { ocols: EDGE.to_vec(), names: vec![None, Some(1)], ..z.clone() },
        Alpha { olines: EDGE.to_vec(), names: vec![None, Some(1)], ..z.clone() },
        Alpha { dlines: lines, bare: true, ..z.clone() },
        Alpha { srcs: vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 40], names: vec![None, Some(0), Some(15), Some(16), Some(17), Some(32), Some(40)], ..z.clone() },
    ]
}
pub const WALK: [Option<Orig>; 5] = [
    None,
    Some(Orig { src: 0, line: 1, col: 4, name: Some(1) }),
    Some(Orig { src: 2, line: 0, col: 0, name: None }),
    Some(Orig { src: 1, line: 3, col: 1, name: Some(2) }),
    Some(Orig { src: 0, line: 2, col: 0, name: Some(0) }),
];
/// Long regular maps: n segments laid out by pattern p.
pub const PATTERNS: usize = 8;
pub fn long(n: u32, p: usize) -> Vec<Seg> {
    let o = |src, line, col, name| Some(Orig { src, line, col, name });
    (0..n)
        .map(|i| match p {
            // one line, increasing
            0 => Seg { line: 0, col: 3 * i, orig: o(0, i / 4, 2 * (i % 4), None) },
            // one line, decreasing columns in the text
            1 => Seg { line: 0, col: 3 * (n - i), orig: o(i % 3, i, 5, if i % 2 == 0 { Some(i % 4) } else { None }) },
            // a line each, backwards in the original
            2 => Seg { line: i, col: i % 5, orig: o(1, n - i, i, None) },
            // every other segment has no original
            3 => Seg { line: i / 3, col: 4 * (i % 3), orig: if i % 2 == 0 { None } else { o(0, i / 7, i, Some(i % 4)) } },
            // interleaved columns, all on one original line
            4 => Seg { line: 0, col: (i * 7) % (n.max(1) * 2 + 1), orig: o(i % 4, 3, (i * 5) % 11, Some(i % 3)) },
            // all at one generated position
            5 => Seg { line: 1, col: 9, orig: o(i % 3, i / 3, i, None) },
            // all at one original position
            6 => Seg { line: i / 10, col: 2 * (i % 10), orig: o(1, 4, 6, None) },
            // sparse lines
            _ => Seg { line: i * 3, col: i, orig: o(i % 5, i * 2, 3, Some((i + 1) % 4)) },
        })
        .collect()
}
pub const LONG_SRC: usize = 5;
pub const LONG_NAMES: usize = 4;

/// The stages shared by the lookups on basic maps: `f` checks one map.
pub fn map_stages(
    thorough: bool,
    f: impl Fn(&mut Ch, &Doc, &Model, BasicConsumer) -> Res + Sync + Send + Clone + 'static,
) -> Vec<Stage> {
    let mut v = vec![];
    for hist in [false, true] {
        let f = f.clone();
        let hist2 = hist && thorough;
        v.push(stage(
            if hist { "earlier-queries" } else { "opened-otherwise" },
            format!("{} fixed maps with {DECOS} sets of sources, names, source root and map URL; {}", spot_pool().len(), if hist { format!("after every {} of {HISTORY} kinds of earlier queries: {HISTORY_NAMES:?}", if hist2 { "sequence of three" } else { "pair" }) } else { format!("opened in {ROUTES} ways (create_consumer, new, from_source_map_json, consume, while other maps are open)") }),
            move |ch| {
                let pool = spot_pool();
                let mut d = Doc::new(ch.of(&pool), 4, 4);
                let url = decorate(ch.pick(DECOS), &mut d);
                let m = d.model(url);
                ch.log(|| format!("map {} with URL {url:?}", d.json()));
                ch.state(&(d.json(), url));
                let c = if hist {
                    let mut c = open_basic(&d.json(), url)?;
                    for _ in 0..if hist2 { 3 } else { 2 } {
                        let k = ch.pick(HISTORY);
                        ch.log(|| format!("earlier: {}", HISTORY_NAMES[k]));
                        history(&mut c, k, &m.urls);
                        ch.step();
                    }
                    c
                } else {
                    open_by(ch.pick(ROUTES), &d.json(), url)?
                };
                f(ch, &d, &m, c)
            },
        ));
    }
    let mut add = |name: String, bound: String, g: Box<dyn Fn(&mut Ch) -> (Vec<Seg>, usize, usize) + Sync + Send>| {
        let f = f.clone();
        v.push(stage(name, bound, move |ch| {
            let (segs, ns, nn) = g(ch);
            let d = Doc::new(&segs, ns, nn);
            let m = d.model(None);
            ch.log(|| format!("map {}", d.json()));
            ch.state(&segs);
            let c = open_basic(&d.json(), None)?;
            f(ch, &d, &m, c)
        }));
    };
    add("empty".into(), "the map without segments".into(), Box::new(|_| (vec![], 1, 1)));
    for n in 1..=if thorough { 3 } else { 2 } {
        let a = dense();
        add(format!("dense-{n}"), a.describe(n), Box::new(move |ch| (a.build(ch, n), 3, 2)));
    }
    for n in 3..=if thorough { 5 } else { 4 } {
        let a = thin();
        add(format!("thin-{n}"), a.describe(n), Box::new(move |ch| (a.build(ch, n), 3, 1)));
    }
    for (i, a) in edges().into_iter().enumerate() {
        for n in 1..=2 {
            let a = a.clone();
            add(format!("edge{i}-{n}"), a.describe(n), Box::new(move |ch| (a.build(ch, n), 41, 41)));
        }
    }
    for n in 1..=3 {
        let a = Alpha { dlines: vec![0, 1], cols: vec![0, 1, 5], bare: true, srcs: vec![], olines: vec![], ocols: vec![], names: vec![] };
        add(format!("sourceless-{n}"), format!("{}, in a map without sources and names", a.describe(n)), Box::new(move |ch| (a.build(ch, n), 0, 0)));
    }
    // runs of names, sources and generated code
    let n = if thorough { 6 } else { 5 };
    add(format!("walk-{n}"), format!("every map of {n} segments: on the same or the next line, one of {} kinds (no original; sources 0, 1, 2; names 0, 1, 2 or none)", WALK.len()), Box::new(move |ch| {
        let (mut line, mut v) = (0, vec![]);
        for i in 0..n as u32 {
            line += ch.pick(2) as u32;
            v.push(Seg { line, col: 2 * i, orig: *ch.of(&WALK) });
        }
        (v, 3, 3)
    }));
    let top = if thorough { 120 } else { 70 };
    add("long".into(), format!("{PATTERNS} regular layouts of 0..={top} segments"), Box::new(move |ch| {
        let p = ch.pick(PATTERNS);
        let n = ch.pick(top + 1) as u32;
        (long(n, p), LONG_SRC, LONG_NAMES)
    }));
    add("sizes".into(), format!("{PATTERNS} regular layouts of {SIZES:?} segments; queries thinned out"), Box::new(move |ch| {
        let p = ch.pick(PATTERNS);
        (long(*ch.of(&SIZES) as u32, p), LONG_SRC, LONG_NAMES)
    }));
    let huge = if thorough { HUGE.to_vec() } else { vec![131075] };
    add("huge".into(), format!("2 regular layouts of {huge:?} segments; queries thinned out"), Box::new(move |ch| {
        let p = *ch.of(&[3, 7]);
        (long(*ch.of(&huge) as u32, p), LONG_SRC, LONG_NAMES)
    }));
    let most = if thorough { vec![130, 260, 520, 1030, 4100, 32770, 65540, 70001] } else { vec![130, 260, 65540] };
    add("many-sources".into(), format!("{most:?} sources and names, of which those next to powers of two are used; in order, reversed and on one position"), Box::new(move |ch| {
        let n = *ch.of(&most);
        let mut ks: Vec<u32> = (0..17).flat_map(|b| [1 << b, (1 << b) + 1, (1u32 << b) - 1]).chain([n as u32 - 1, n as u32 - 2]).filter(|k| (*k as usize) < n).collect();
        ks.sort();
        ks.dedup();
        if n == 130 || n == 260 { ks = (0..n as u32).collect(); }
        let lay = ch.pick(3);
        if lay == 1 { ks.reverse(); }
        let segs = ks.iter().enumerate().map(|(i, k)| Seg { line: if lay == 2 { 0 } else { i as u32 / 5 }, col: if lay == 2 { 2 } else { 3 * (i as u32 % 5) }, orig: Some(Orig { src: *k, line: i as u32 % 3, col: 4, name: if i % 3 == 1 { None } else { Some(n as u32 - 1 - k) } }) }).collect();
        (segs, n, n)
    }));
    v
}
/// A few maps with everything in them (4 sources, 4 names).
pub fn spot_pool() -> Vec<Vec<Seg>> {
    let o = |src, line, col, name| Some(Orig { src, line, col, name });
    let s = |line, col, orig| Seg { line, col, orig };
    vec![
        vec![],
        vec![s(0, 1, o(1, 0, 0, Some(0))), s(0, 4, None), s(0, 7, o(0, 1, 3, None)), s(2, 0, o(2, 0, 2, Some(1))), s(2, 5, o(3, 4, 0, Some(3)))],
        vec![s(1, 3, o(3, 0, 0, None)), s(1, 3, o(1, 0, 0, Some(2))), s(1, 3, None), s(1, 8, o(3, 0, 0, Some(1))), s(4, 0, o(0, 9, 1, None)), s(4, 2, o(0, 9, 4, Some(0)))],
        vec![s(0, 9, o(2, 0, 5, None)), s(0, 2, o(2, 0, 1, Some(2))), s(0, 5, o(2, 3, 1, Some(0)))],
    ]
}
pub fn full<T: std::fmt::Debug + PartialEq>(got: T, want: T, what: impl Fn() -> String) -> Res {
    ensure!(got == want, "{}: got {:?}, expected {:?}", what(), got, want);
    Ok(())
}

// ---- indexed maps ---------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Sec {
    pub off: (u32, u32),
    pub d: Doc,
    pub m: Model,
}
#[derive(Clone, Debug)]
pub struct IModel {
    pub secs: Vec<Sec>,
    pub json: String,
    pub url: Option<String>,
}
/// A mapping of a section in the coordinates of the whole map.
pub fn shift_seg(off: (u32, u32), s: Seg) -> Seg {
    Seg { line: s.line + off.0, col: if s.line == 0 { s.col + off.1 } else { s.col }, orig: s.orig }
}
impl IModel {
    pub fn new(secs: Vec<((u32, u32), Doc)>) -> IModel {
        IModel::with_url(secs, None)
    }
    pub fn with_url(secs: Vec<((u32, u32), Doc)>, url: Option<&str>) -> IModel {
        let json = indexed_json(&secs.iter().map(|(o, d)| (*o, d.json())).collect::<Vec<_>>());
        IModel { secs: secs.into_iter().map(|(off, d)| Sec { off, m: d.model(url), d }).collect(), json, url: url.map(|s| s.to_string()) }
    }
    /// No mapping lies at or behind the start of the next section.
    pub fn disjoint(&self) -> bool {
        self.secs.windows(2).all(|w| w[0].m.segs.iter().all(|s| shift_seg(w[0].off, *s).gen() < w[1].off))
    }
    /// The last section that starts at or before (0-based) `at`.
    pub fn section_at(&self, at: (i64, i64)) -> Option<usize> {
        self.secs.iter().rposition(|s| (s.off.0 as i64, s.off.1 as i64) <= at)
    }
    /// The first section that lists the source.
    pub fn section_of(&self, url: &str) -> Option<(usize, u32)> {
        self.secs.iter().enumerate().find_map(|(i, s)| s.m.lookup(url).map(|k| (i, k)))
    }
    /// Where spans of the last mappings of section `k` end, once computed.
    pub fn clip(&self, k: usize, s: &Seg) -> Option<u32> {
        self.secs.get(k + 1).filter(|n| n.off.0 == s.line).map(|n| n.off.1)
    }
    /// Expected enumeration of section k with computed spans, from the order
    /// in which the section's own mappings come.
    pub fn spanned(&self, k: usize, by_gen: &[Seg]) -> Vec<Raw> {
        let mut v: Vec<Raw> = spans_of(by_gen);
        for r in &mut v {
            if r.span.is_none() {
                r.span = self.clip(k, &r.seg);
            }
        }
        v
    }
    pub fn total(&self) -> usize {
        self.secs.iter().map(|s| s.m.segs.len()).sum()
    }
    pub fn grid(&self) -> (Vec<i32>, Vec<i32>) {
        let (mut l, mut c) = (vec![1], vec![0]);
        for s in &self.secs {
            around(&mut l, s.off.0 as i64 + 1, 1);
            around(&mut c, s.off.1 as i64, 0);
            for g in &s.m.segs {
                let t = shift_seg(s.off, *g);
                around(&mut l, t.line as i64 + 1, 1);
                around(&mut c, t.col as i64, 0);
                around(&mut c, g.col as i64, 0);
            }
        }
        (uniq(l), uniq(c))
    }
}
/// Section maps used to build indexed maps (0-based, section-local).
pub fn section_pool() -> Vec<Vec<Seg>> {
    let o = |src, line, col, name| Some(Orig { src, line, col, name });
    let s = |line, col, orig| Seg { line, col, orig };
    vec![
        vec![],
        vec![s(0, 0, o(0, 0, 0, None))],
        vec![s(0, 1, o(0, 0, 3, Some(0))), s(0, 2, None)],
        vec![s(0, 0, o(1, 2, 0, None)), s(1, 0, o(0, 0, 0, Some(1))), s(1, 4, o(0, 0, 5, None))],
        vec![s(1, 2, o(0, 1, 1, None))],
        vec![s(0, 0, None), s(0, 2, o(0, 0, 0, None)), s(2, 1, o(1, 0, 0, Some(0)))],
        vec![s(0, 2, o(0, 0, 0, None)), s(0, 2, o(0, 0, 4, None)), s(0, 2, None)],
        vec![s(0, 0, o(0, 5, 0, None)), s(0, 1, o(0, 5, 0, Some(1))), s(3, 0, o(0, 5, 2, None))],
        vec![s(0, 1, None), s(1, 0, None)],
    ]
}
pub fn spot_indexed() -> Vec<Vec<((u32, u32), Vec<Seg>)>> {
    let p = section_pool();
    vec![
        vec![((0, 0), p[3].clone()), ((1, 7), p[5].clone()), ((3, 9), p[2].clone())],
        vec![((0, 2), p[2].clone()), ((0, 9), p[6].clone()), ((0, 20), p[1].clone()), ((2, 0), p[7].clone())],
        vec![((2, 3), p[4].clone())],
        vec![((0, 0), vec![]), ((0, 0), p[1].clone()), ((5, 4), p[0].clone()), ((6, 0), p[3].clone())],
    ]
}
pub const OFFSETS: [(u32, u32); 10] = [(0, 0), (0, 1), (0, 3), (0, 5), (1, 0), (1, 4), (2, 0), (2, 2), (4, 3), (300, 1000)];

pub fn sec_doc(segs: &[Seg], tag: usize, shared: bool) -> Doc {
    let mut d = Doc::new(segs, 2, 2);
    if shared {
        d.sources = vec![format!("own{tag}.js"), "shared.js".into()];
    } else {
        d.sources = vec![format!("a{tag}.js"), format!("b{tag}.js")];
    }
    d.names = vec![format!("n{tag}"), format!("m{tag}")];
    // mappings of nothing but generated code need no lists
    if !segs.is_empty() && segs.iter().all(|s| s.orig.is_none()) {
        d.sources.clear();
        d.names.clear();
    }
    d
}
/// Stages over indexed maps; only maps without overlapping sections are given to `f`.
pub fn indexed_stages(
    thorough: bool,
    f: impl Fn(&mut Ch, &IModel, IndexedConsumer) -> Res + Sync + Send + Clone + 'static,
) -> Vec<Stage> {
    let mut v: Vec<Stage> = vec![];
    for hist in [false, true] {
        let f = f.clone();
        let hist2 = hist && thorough;
        v.push(stage(
            if hist { "earlier-queries" } else { "opened-otherwise" },
            format!("{} indexed maps with {DECOS} sets of sources, names, source roots and map URL; {}", spot_indexed().len(), if hist { format!("after every {} of {HISTORY} kinds of earlier queries: {HISTORY_NAMES:?}", if hist2 { "sequence of three" } else { "pair" }) } else { format!("opened in {ROUTES} ways (create_consumer, new, from_source_map_json, consume, while other maps are open)") }),
            move |ch| {
                let pool = spot_indexed();
                let secs = ch.of(&pool);
                let deco = ch.pick(DECOS);
                let mut url = None;
                let secs = secs
                    .iter()
                    .enumerate()
                    .map(|(i, (off, segs))| {
                        let mut d = sec_doc(segs, i, true);
                        if deco > 0 {
                            url = decorate(deco, &mut d);
                            // sections do not list quite the same sources
                            if i % 2 == 1 {
                                d.sources.reverse();
                            }
                        }
                        (*off, d)
                    })
                    .collect();
                let m = IModel::with_url(secs, url);
                ch.log(|| format!("map {} with URL {url:?}", m.json));
                ch.state(&(&m.json, url));
                let c = if hist {
                    let mut c = open_indexed(&m.json, url)?;
                    let urls: Vec<String> = m.secs.iter().flat_map(|s| s.m.urls.clone()).collect();
                    for _ in 0..if hist2 { 3 } else { 2 } {
                        let k = ch.pick(HISTORY);
                        ch.log(|| format!("earlier: {}", HISTORY_NAMES[k]));
                        history_indexed(&mut c, k, &urls);
                        ch.step();
                    }
                    c
                } else {
                    open_indexed_by(ch.pick(ROUTES), &m.json, url)?
                };
                f(ch, &m, c)
            },
        ));
    }
    let mut put = |name: String, bound: String, g: Box<dyn Fn(&mut Ch) -> Option<IModel> + Sync + Send>| {
        let f = f.clone();
        v.push(stage(name, bound, move |ch| {
            let Some(m) = g(ch) else { return Ok(()) };
            if !m.disjoint() {
                return Ok(());
            }
            ch.log(|| format!("map {}", m.json));
            ch.state(&m.json);
            let c = open_indexed(&m.json, None)?;
            f(ch, &m, c)
        }));
    };
    let top = 3;
    for n in 0..=top {
        let pool = section_pool();
        let small = n == 3 && !thorough;
        let (np, no) = if small { (5, 7) } else { (pool.len(), OFFSETS.len()) };
        put(
            format!("pool-{n}"),
            format!("every indexed map of {n} sections from {np} section maps and non-decreasing offsets from {:?}, sources shared or not, sections not overlapping", &OFFSETS[..no]),
            Box::new(move |ch| {
                let shared = ch.flag();
                let mut last = 0;
                let mut secs = vec![];
                for k in 0..n {
                    let o = last + ch.pick(no - last);
                    last = o;
                    let p = if small { [1, 2, 3, 4, 5][ch.pick(5)] } else { ch.pick(pool.len()) };
                    secs.push((OFFSETS[o], sec_doc(&pool[p], k, shared)));
                }
                Some(IModel::new(secs))
            }),
        );
    }
    let a = Alpha { dlines: vec![0, 1], cols: vec![0, 2], bare: true, srcs: vec![0, 1], olines: vec![0, 1], ocols: vec![0], names: vec![None, Some(1)] };
    for n in 1..=2usize {
        let mut a = a.clone();
        if n == 2 && !thorough {
            a.names = vec![None];
        }
        put(
            format!("alpha-{n}"),
            format!("two sections, the second at each of 6 offsets; {n} segments in the first, {} in the second. Segments: {}", if n == 1 || thorough { n } else { 1 }, a.describe(n)),
            Box::new(move |ch| {
                let first = *ch.of(&[(0, 0), (0, 2)]);
                let off = *ch.of(&[(0, 4), (1, 0), (1, 3), (2, 0), (2, 1), (3, 1)]);
                let (x, y) = (a.build(ch, n), if n == 1 || thorough { a.build(ch, n) } else { a.build(ch, 1) });
                Some(IModel::new(vec![(first, sec_doc(&x, 0, true)), (off, sec_doc(&y, 1, true))]))
            }),
        );
    }
    put(
        "many".into(),
        "1..=40 sections (3 layouts: own lines, one line, irregular), one segment each".into(),
        Box::new(move |ch| {
            let n = 1 + ch.pick(40) as u32;
            let lay = ch.pick(3);
            let shared = ch.flag();
            let secs = (0..n)
                .map(|i| {
                    let off = match lay {
                        0 => (2 * i, 0),
                        1 => (3, 5 * i),
                        _ => (i / 3, (i % 3) * 10 + 1),
                    };
                    let seg = Seg { line: 0, col: 2, orig: if i % 5 == 4 { None } else { Some(Orig { src: i % 2, line: i, col: 7, name: if i % 2 == 0 { Some(1) } else { None } }) } };
                    (off, sec_doc(&[seg], i as usize, shared))
                })
                .collect();
            Some(IModel::new(secs))
        }),
    );
    put(
        "sizes".into(),
        "127..=129, 255..=257, 300 and 513 sections (3 layouts: own lines, one line, irregular), one segment each; queries thinned out".into(),
        Box::new(move |ch| {
            let n = *ch.of(&[127u32, 128, 129, 255, 256, 257, 300, 513]);
            let lay = ch.pick(3);
            let secs = (0..n)
                .map(|i| {
                    let off = match lay {
                        0 => (2 * i, 0),
                        1 => (3, 5 * i),
                        _ => (i / 3, (i % 3) * 10 + 1),
                    };
                    (off, sec_doc(&[Seg { line: 0, col: 2, orig: Some(Orig { src: i % 2, line: i, col: 7, name: Some(1) }) }], i as usize, lay == 2))
                })
                .collect();
            Some(IModel::new(secs))
        }),
    );
    let deep = if thorough { vec![40, 127, 129, 256, 257, 1025, 4097] } else { vec![40, 129, 257, 1025] };
    put(
        "equal-offsets".into(),
        "0, 1 or 2 sections, then 1..=12, 17, 33, 65 or 130 sections at one offset, of which only the last one has mappings, or none, then another section or none on the same line".into(),
        Box::new(move |ch| {
            let n = *ch.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17, 33, 65, 130]);
            let before = ch.pick(3) as u32;
            let (after, none) = (ch.flag(), ch.flag());
            let mut secs = vec![];
            let seg = |col: u32, i: usize| Seg { line: 0, col, orig: Some(Orig { src: i as u32 % 2, line: i as u32, col: 7, name: Some(0) }) };
            for i in 0..before {
                secs.push(((1, 3 * i), sec_doc(&[seg(1, 90 + i as usize)], 900 + i as usize, false)));
            }
            for i in 0..n {
                // mappings of any other would overlap with the next section
                let segs = if i + 1 == n && !none { vec![seg(0, i), seg(2, i)] } else { vec![] };
                secs.push(((1, 8), sec_doc(&segs, i, false)));
            }
            if after {
                secs.push(((1, 20), sec_doc(&[seg(0, 80), seg(3, 81)], 800, false)));
            }
            Some(IModel::new(secs))
        }),
    );
    put(
        "deep-sections".into(),
        format!("three sections, of one segment, of {deep:?} segments in {PATTERNS} regular layouts, and of 3 segments; queries thinned out"),
        Box::new(move |ch| {
            let n = *ch.of(&deep);
            let segs = long(n, ch.pick(PATTERNS));
            let (off, dl) = *ch.of(&[((0, 5), 1), ((3, 0), 0), ((2, 9), 700)]);
            let last = segs.iter().map(|s| s.line).max().unwrap_or(0) + off.0 + 1 + dl;
            let mut d = Doc::new(&segs, LONG_SRC, LONG_NAMES);
            d.sources = (0..LONG_SRC).map(|i| format!("mid{i}.js")).collect();
            Some(IModel::new(vec![
                ((0, 0), sec_doc(&section_pool()[1], 0, true)),
                (off, d),
                ((last, 4), sec_doc(&section_pool()[3], 2, true)),
            ]))
        }),
    );
    put(
        "wide-sections".into(),
        "two sections of 40, 130, 257 or 300 sources and names each (the second one's are its own, or half of them the first one's), of which those next to powers of two are used, last ones first".into(),
        Box::new(move |ch| {
            let n = *ch.of(&[40usize, 130, 257, 300]);
            let shared = ch.flag();
            let ks: Vec<u32> = (0..n as u32).rev().filter(|k| *k < 2 || (k + 1).is_power_of_two() || k.is_power_of_two() || *k + 2 >= n as u32).collect();
            let segs: Vec<Seg> = ks.iter().enumerate().map(|(i, k)| Seg { line: i as u32 / 4, col: 3 * (i as u32 % 4), orig: Some(Orig { src: *k, line: i as u32 % 3, col: 4, name: if i % 3 == 1 { None } else { Some(n as u32 - 1 - k) } }) }).collect();
            let doc = |t: usize| {
                let mut d = Doc::new(&segs, n, n);
                d.sources = (0..n).map(|i| if shared && i >= n / 2 { format!("s{i}.js") } else { format!("t{t}-{i}.js") }).collect();
                d.names = (0..n).map(|i| format!("n{t}-{i}")).collect();
                d
            };
            Some(IModel::new(vec![((0, 2), doc(0)), ((40, 1), doc(1))]))
        }),
    );
    put(
        "edge".into(),
        format!("two sections at boundary offsets {EDGE:?} (lines up to 2^20), one segment each at a boundary column"),
        Box::new(move |ch| {
            let e: Vec<u32> = EDGE.iter().cloned().filter(|x| *x <= 1 << 20).collect();
            let (l, c, k) = (*ch.of(&e), *ch.of(&e), *ch.of(&e));
            let line = ch.pick(2) as u32;
            let o = Some(Orig { src: 0, line: k, col: c, name: Some(0) });
            Some(IModel::new(vec![
                ((0, 0), sec_doc(&[Seg { line: 0, col: 0, orig: o }], 0, false)),
                ((l + 1, c), sec_doc(&[Seg { line, col: k, orig: o }], 1, false)),
            ]))
        }),
    );
    put(
        "far-edge".into(),
        "two sections, the second at lines and columns up to nearly the largest integer, one segment next to its start".into(),
        Box::new(move |ch| {
            const FAR: [u32; 8] = [1, 65535, 65536, 1 << 24, (1 << 24) + 1, (1 << 30) + 1, (1 << 31) - 8, (1 << 31) - 40];
            let (l, c) = (*ch.of(&FAR), *ch.of(&FAR));
            let seg = Seg { line: ch.pick(2) as u32, col: ch.pick(3) as u32, orig: Some(Orig { src: 0, line: 2, col: 1, name: Some(0) }) };
            Some(IModel::new(vec![((0, 0), sec_doc(&[Seg { line: 0, col: 0, orig: None }, seg], 0, false)), ((l, c), sec_doc(&[seg], 1, false))]))
        }),
    );
    v
}
