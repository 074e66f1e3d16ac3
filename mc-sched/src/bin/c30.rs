//! C30: objects do not influence each other, on one thread or on several.
use mc::cons::*;
use mc::gen::{add, decode, emit, first_use, m, new_gen, sorted_set, M};
use mc::*;
use mc_sched::*;
use rusty_source_map::consumer::*;
use rusty_source_map::generator::SourceMapGenerator;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[global_allocator]
static ALLOC: Alloc = Alloc;

/// What an object is made from.
#[derive(Clone, Debug)]
enum Spec {
    Basic(Doc, Model),
    /// a document with malformed mappings
    Bad(Doc, Model),
    Indexed(IModel),
    Gen { root: Option<&'static str>, prefix: &'static str, order: [usize; 2], texts: [&'static str; 2] },
}
const STEPS: usize = 10;
const STEP_NAMES: [&str; STEPS] = ["sources", "enumerate by generated", "enumerate by original", "original lookups", "generated lookups", "all-positions lookups", "contents", "refused queries", "compute spans", "drop and open again"];
const GEN_NAMES: [&str; STEPS] = ["add", "add another", "add an equal one", "set content", "set other content", "emit", "remove content", "refused additions", "add sourceless", "drop and make again"];

fn segs(k: u32) -> Vec<sm::Seg> {
    let o = |src, line, col, name| Some(sm::Orig { src, line, col, name });
    let g = |line, col, orig| sm::Seg { line, col, orig };
    vec![g(0, 0, o(0, 0, 0, None)), g(0, 4, o(1, k, 2, Some(k % 2))), g(0, 7, None), g(1, 1 + k, o(0, 3, 1, Some(0))), g(3, 2, o(1, 5, 0, None))]
}
const URL: Option<&str> = Some("http://h/d/m.map");
fn specs() -> &'static Vec<Spec> {
    static S: OnceLock<Vec<Spec>> = OnceLock::new();
    S.get_or_init(|| {
        let base = || {
            let mut d = Doc::new(&segs(0), 2, 2);
            d.contents = Some(vec![Some("content 0".into()), Some("content 1".into())]);
            d
        };
        let basic = |d: Doc, url: Option<&str>| Spec::Basic(d.clone(), d.model(url));
        let mut v = vec![basic(base(), URL)];
        // each of the following differs from the first in one respect
        let mut d = base();
        d.root = Some("lib".into());
        v.push(basic(d, URL));
        v.push(basic(base(), Some("http://h/e/m.map")));
        v.push(basic(base(), None));
        let mut d = base();
        d.sources.reverse();
        v.push(basic(d, URL));
        let mut d = base();
        d.mappings = sm::encode(&segs(1));
        v.push(basic(d, URL));
        let mut d = base();
        d.names.reverse();
        d.contents = Some(vec![Some("other 0".into()), None]);
        v.push(basic(d, URL));
        let mut d = base();
        d.contents = None;
        d.sources.push("s2.js".into());
        v.push(basic(d, URL));
        let mut d = base();
        let good = d.model(URL);
        d.mappings.pop();
        d.mappings.push('!');
        v.push(Spec::Bad(d, good));
        let mut other = base();
        other.mappings = sm::encode(&segs(1)[..2]);
        let mut third = other.clone();
        third.root = Some("lib".into());
        for (o, url) in [((4, 2), URL), ((4, 1), URL), ((4, 2), Some("http://h/e/m.map"))] {
            v.push(Spec::Indexed(IModel::with_url(vec![((0, 1), base()), (o, other.clone()), ((o.0 + 2, 0), third.clone())], url)));
        }
        const T: [&str; 2] = ["text one", "text two"];
        v.push(Spec::Gen { root: None, prefix: "", order: [0, 1], texts: T });
        v.push(Spec::Gen { root: None, prefix: "", order: [1, 0], texts: T });
        v.push(Spec::Gen { root: Some("/r"), prefix: "/r/", order: [0, 1], texts: T });
        v.push(Spec::Gen { root: Some("/r/s"), prefix: "/r/s/", order: [0, 1], texts: T });
        // contents swapped, and contents that are parts of others
        v.push(Spec::Gen { root: None, prefix: "", order: [0, 1], texts: [T[1], T[0]] });
        v.push(Spec::Gen { root: None, prefix: "", order: [0, 1], texts: ["text", ""] });
        // the same text when root and source, or all, are written one behind the other, or in one case
        for (root, sources, url) in [
            (None, ["S0.js", "s1.JS"], URL),
            (Some("li"), ["bs0.js", "bs1.js"], URL),
            (None, ["libs0.js", "libs1.js"], URL),
            (None, ["t0.js", "t1.js"], URL),
            (None, ["s0.js", "s1.js"], Some("http://h/D/m.map")),
        ] {
            let mut d = base();
            d.root = root.map(|r| r.into());
            d.sources = sources.map(|s| s.into()).to_vec();
            v.push(basic(d, url));
        }
        v
    })
}
enum Obj {
    Basic(BasicConsumer),
    Indexed(IndexedConsumer),
    Gen { g: SourceMapGenerator, added: Vec<M>, held: BTreeMap<usize, String> },
}
struct Live {
    spec: &'static Spec,
    obj: Obj,
    spanned: bool,
    steps: u64,
}
struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}
impl<T> Sendable<T> {
    fn get(&mut self) -> &mut T {
        &mut self.0
    }
}
fn make(spec: &Spec) -> Result<Obj, Viol> {
    Ok(match spec {
        Spec::Basic(d, m) | Spec::Bad(d, m) => Obj::Basic(open_basic(&d.json(), m.map.as_deref())?),
        Spec::Indexed(m) => Obj::Indexed(open_indexed(&m.json, m.url.as_deref())?),
        Spec::Gen { root, .. } => Obj::Gen { g: must("new", || new_gen(None, *root, false))?, added: vec![], held: BTreeMap::new() },
    })
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
fn bare(v: &[Raw]) -> Vec<sm::Seg> {
    v.iter().map(|r| r.seg).collect()
}
fn refused<T: std::fmt::Debug>(what: &str, f: impl FnOnce() -> T) -> Res {
    if let Ok(x) = call(f) {
        viol!("{what} is to be refused but answered {x:?}");
    }
    Ok(())
}
const LINES: [i32; 6] = [1, 2, 3, 4, 5, 7];
const COLS: [i32; 5] = [0, 1, 3, 5, 9];
impl Live {
    fn open(k: usize) -> Result<Live, Viol> {
        let spec = &specs()[k];
        Ok(Live { spec, obj: make(spec)?, spanned: false, steps: 1 })
    }
    fn step(&mut self, k: usize) -> Res {
        self.steps += 1;
        if k == STEPS - 1 {
            // the old object goes first
            self.obj = Obj::Gen { g: new_gen(None, None, false), added: vec![], held: BTreeMap::new() };
            self.obj = make(self.spec)?;
            self.spanned = false;
            return Ok(());
        }
        match (self.spec, &mut self.obj) {
            (Spec::Basic(d, m), Obj::Basic(c)) => {
                let names: Vec<&String> = m.urls.iter().chain(&d.sources).collect();
                match k {
                    0 => full(must("get_sources", || c.get_sources())?, m.urls.clone(), || format!("sources of {}", d.json()))?,
                    1 => {
                        let e = enumerate(c, IterOrd::GeneratedOrd)?;
                        same(e, spans_of(&m.segs), self.spanned, || format!("enumeration of {}", d.json()))?
                    }
                    2 => {
                        let e = sorted(bare(&enumerate(c, IterOrd::OriginalOrd)?));
                        full(e, sorted(m.segs.iter().filter(|s| s.orig.is_some()).cloned().collect()), || format!("enumeration by original of {}", d.json()))?
                    }
                    3 => {
                        for l in LINES {
                            for col in COLS {
                                for b in BIASES {
                                    let got = orig_for(c, l, col, b)?;
                                    check_orig(m, &m.orig_cands(l as i64, col as i64, lub(b)), &got, || format!("original_position_for({l}, {col}, {b:?}) on {} at {:?}", d.json(), m.map))?;
                                }
                            }
                        }
                    }
                    4 => {
                        for u in names {
                            for (l, col) in [(1, 0), (4, 1), (2, 5)] {
                                for b in BIASES {
                                    let got = gen_for(c, u, l, col, b)?;
                                    let want = m.lookup(u).map_or(vec![], |s| m.gen_cands(s, l as i64, col as i64, lub(b)));
                                    check_gen(m, &want, &got, || format!("generated_position_for({u:?}, {l}, {col}, {b:?}) on {} at {:?}", d.json(), m.map))?;
                                }
                            }
                        }
                    }
                    5 => {
                        for u in names {
                            for (l, col) in [(1, None), (1, Some(0)), (4, Some(0)), (5, None)] {
                                let got = sorted(bare(&all_for(c, u, l, col)?));
                                let want = m.lookup(u).map_or(vec![], |s| m.all_gen(s, l as i64, col.map(|c| c as i64)));
                                full(got, want, || format!("all_generated_position_for({u:?}, {l}, {col:?}) on {} at {:?}", d.json(), m.map))?;
                            }
                        }
                    }
                    6 => contents(|u| c.source_content_for(u, Some(false)), names, |u| m.lookup(u).and_then(|i| d.contents.as_ref()?.get(i as usize).cloned().flatten()), &d.json())?,
                    7 => {
                        refused("original_position_for on line 0", || c.original_position_for(pos(0, 0), None).map(Ans::of))?;
                        refused("generated_position_for at column -1", || c.generated_position_for(&m.urls[0], 1, -1, None).map(Ans::of))?;
                        if d.contents.is_some() {
                            refused("content of an unknown source", || c.source_content_for("nowhere.js", None))?;
                        }
                    }
                    _ => {
                        must("compute_column_spans", || c.compute_column_spans())?;
                        self.spanned = true;
                    }
                }
            }
            (Spec::Bad(d, m), Obj::Basic(c)) => match k {
                0 => full(must("get_sources", || c.get_sources())?, m.urls.clone(), || format!("sources of {}", d.json()))?,
                1 => full(enumerate(c, IterOrd::GeneratedOrd)?, vec![], || format!("enumeration of the malformed {}", d.json()))?,
                2 => full(enumerate(c, IterOrd::OriginalOrd)?, vec![], || format!("enumeration of the malformed {}", d.json()))?,
                3 | 7 => refused("original_position_for on malformed mappings", || c.original_position_for(pos(1, 0), None).map(Ans::of))?,
                4 => refused("generated_position_for on malformed mappings", || c.generated_position_for(&m.urls[0], 1, 0, None).map(Ans::of))?,
                5 => refused("all_generated_position_for on malformed mappings", || c.all_generated_position_for(&m.urls[0], 1, None).len())?,
                6 => contents(|u| c.source_content_for(u, Some(false)), m.urls.iter().collect(), |u| m.lookup(u).and_then(|i| d.contents.as_ref()?.get(i as usize).cloned().flatten()), &d.json())?,
                _ => (),
            },
            (Spec::Indexed(m), Obj::Indexed(c)) => {
                let mut names: Vec<&String> = m.secs.iter().flat_map(|s| s.m.urls.iter().chain(&s.d.sources)).collect();
                names.sort();
                names.dedup();
                match k {
                    0 => full(must("get_sources", || c.get_sources())?, m.secs.iter().flat_map(|s| s.m.urls.clone()).collect(), || format!("sources of {}", m.json))?,
                    1 => {
                        let e = enumerate(c, IterOrd::GeneratedOrd)?;
                        let want: Vec<Raw> = m
                            .secs
                            .iter()
                            .enumerate()
                            .flat_map(|(i, s)| {
                                let by: Vec<sm::Seg> = s.m.segs.iter().map(|g| shift_seg(s.off, *g)).collect();
                                m.spanned(i, &by)
                            })
                            .collect();
                        same(e, want, self.spanned, || format!("enumeration of {}", m.json))?
                    }
                    2 => {
                        let e = sorted(bare(&enumerate(c, IterOrd::OriginalOrd)?));
                        let want = m.secs.iter().flat_map(|s| s.m.segs.iter().filter(|g| g.orig.is_some()).map(|g| shift_seg(s.off, *g)).collect::<Vec<_>>()).collect();
                        full(e, sorted(want), || format!("enumeration by original of {}", m.json))?
                    }
                    3 => {
                        for l in LINES {
                            for col in COLS {
                                let got = must("original_position_for", || c.original_position_for(pos(l, col), None).map(Ans::of))?.map(|a| a.nospan());
                                let want = m.section_at((l as i64 - 1, col as i64)).and_then(|k| {
                                    let s = &m.secs[k];
                                    let shift = if l as i64 - 1 == s.off.0 as i64 { s.off.1 as i64 } else { 0 };
                                    let g = *s.m.orig_cands(l as i64 - s.off.0 as i64, col as i64 - shift, false).first()?;
                                    g.orig?;
                                    let t = shift_seg(s.off, g);
                                    Some(Ans { g: (t.line as i64 + 1, t.col as i64), ..s.m.ans(&g) })
                                });
                                full(got, want, || format!("original_position_for({l}, {col}) on {} at {:?}", m.json, m.url))?;
                            }
                        }
                    }
                    4 => {
                        for u in names {
                            for (l, col) in [(1, 0), (4, 1), (2, 5)] {
                                let got = must("generated_position_for", || c.generated_position_for(u, l, col, None).map(|p| (p.line as i64, p.column as i64)))?;
                                let want = m.section_of(u).and_then(|(k, src)| {
                                    let s = &m.secs[k];
                                    let g = *s.m.gen_cands(src, l as i64, col as i64, false).first()?;
                                    let t = shift_seg(s.off, g);
                                    Some((t.line as i64 + 1, t.col as i64))
                                });
                                full(got, want, || format!("generated_position_for({u:?}, {l}, {col}) on {} at {:?}", m.json, m.url))?;
                            }
                        }
                    }
                    5 => {
                        for u in names {
                            let got = must("all_generated_position_for", || c.all_generated_position_for(u, 1, None).iter().map(raw).collect::<Vec<_>>())?;
                            let want = m.section_of(u).map_or(vec![], |(k, src)| m.secs[k].m.all_gen(src, 1, None).iter().map(|g| shift_seg(m.secs[k].off, *g)).collect());
                            full(sorted(bare(&got)), sorted(want), || format!("all_generated_position_for({u:?}, 1) on {} at {:?}", m.json, m.url))?;
                        }
                    }
                    6 => {
                        let find = |u: &str| m.secs.iter().find_map(|s| s.m.lookup(u).and_then(|i| s.d.contents.as_ref()?.get(i as usize).cloned().flatten()));
                        contents(|u| c.source_content_for(u, Some(false)), names, find, &m.json)?
                    }
                    7 => {
                        refused("generated_position_for at column -1", || c.generated_position_for(&m.secs[0].m.urls[0], 1, -1, None).map(|p| p.line))?;
                        refused("content of an unknown source", || c.source_content_for("nowhere.js", None))?;
                    }
                    _ => {
                        must("computed_column_spans", || c.computed_column_spans())?;
                        self.spanned = true;
                    }
                }
            }
            (Spec::Gen { prefix, order, texts, .. }, Obj::Gen { g, added, held }) => {
                const S: [&str; 2] = ["one.js", "two.js"];
                let mut put = |x: M| -> Res {
                    add(g, &x)?;
                    added.push(x);
                    Ok(())
                };
                match k {
                    0 => put(m(1, 4, Some((1, 2, S[order[0]])), Some("x")))?,
                    1 => put(m(1, 1, Some((3, 0, S[order[1]])), Some("y")))?,
                    2 => put(m(1, 4, Some((1, 2, S[order[0]])), Some("x")))?,
                    3 | 4 => {
                        let t = texts[k - 3].to_string();
                        must("set_source_content", || g.set_source_content(format!("{prefix}{}", S[k - 3]), Some(t.clone())))?;
                        held.insert(k - 3, t);
                    }
                    6 => {
                        must("set_source_content", || g.set_source_content(format!("{prefix}{}", S[0]), None))?;
                        held.remove(&0);
                    }
                    7 => {
                        refused("adding a mapping on line 0", || g.add_mapping(m(0, 4, Some((1, 2, S[0])), None).real()))?;
                        refused("adding a mapping on original line 0", || g.add_mapping(m(1, 4, Some((0, 2, "bad.js")), Some("bad")).real()))?;
                    }
                    8 => put(m(2, 0, None, None))?,
                    _ => {
                        let o = decode(&emit(g)?)?;
                        full(o.maps, sorted_set(added), || format!("mappings emitted after adding {added:?}"))?;
                        full(o.sources.clone(), first_use(added.iter().filter_map(|x| x.o.as_ref().map(|o| &o.2))), || format!("sources emitted after adding {added:?}"))?;
                        full(o.names, first_use(added.iter().filter_map(|x| x.name.as_ref())), || format!("names emitted after adding {added:?}"))?;
                        let want = if held.is_empty() {
                            serde_json::Value::Null
                        } else {
                            o.sources.iter().map(|s| held.get(&S.iter().position(|x| x == s).unwrap()).map_or(serde_json::Value::Null, |c| c.clone().into())).collect::<Vec<_>>().into()
                        };
                        full(o.json["sourcesContent"].clone(), want, || format!("contents emitted after adding {added:?} and setting {held:?}"))?;
                    }
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}
/// Span ends may be unknown as long as they were not computed.
fn same(got: Vec<Raw>, mut want: Vec<Raw>, spanned: bool, what: impl Fn() -> String) -> Res {
    if !spanned && got.len() == want.len() {
        for (w, g) in want.iter_mut().zip(&got) {
            if g.span.is_none() {
                w.span = None;
            }
        }
    }
    full(got, want, what)
}
fn contents(mut ask: impl FnMut(&str) -> Option<String>, names: Vec<&String>, want: impl Fn(&str) -> Option<String>, doc: &str) -> Res {
    for u in names {
        let got = must("source_content_for", || ask(u))?;
        full(got, want(u), || format!("content of {u:?} on {doc}"))?;
    }
    full(must("source_content_for", || ask("nowhere.js"))?, None, || format!("content of an unknown source on {doc}"))
}
fn name(spec: usize, k: usize) -> &'static str {
    match specs()[spec] {
        Spec::Gen { .. } => GEN_NAMES[k],
        _ => STEP_NAMES[k],
    }
}
/// Pairs that differ in one respect, and a few of different kinds.
const NEAR: [(usize, usize); 32] = [
    (0, 1), (1, 0), (0, 2), (2, 0), (0, 3), (3, 0), (0, 4), (0, 5), (5, 0), (0, 6), (6, 0), (0, 8), (8, 0), (9, 10), (9, 11), (0, 9), (9, 1), (12, 13), (14, 15), (0, 12), (12, 16), (16, 12), (12, 17), (17, 12),
    (0, 18), (18, 0), (1, 19), (19, 1), (20, 1), (20, 19), (0, 21), (2, 22),
];
/// Runs all steps; generators in an order that ends with an emission.
fn program(spec: usize, rotate: usize, breaks: bool) -> Result<u64, Viol> {
    inline_joins();
    let mut l = Live::open(spec)?;
    for k in 0..STEPS - 1 {
        if breaks {
            yield_now();
        }
        l.step((k + rotate) % (STEPS - 1))?;
    }
    if matches!(l.obj, Obj::Gen { .. }) {
        l.step(5)?;
    }
    Ok(l.steps)
}

/// Sources, roots and map URLs that share their parts.
const SRCS: [&str; 12] = ["a", "../a", "../p0/a", "../p0/../a", "p0/a", "../../p0", "p1/../../a", "/a", "/../p0", "http://h/../a", "", "a?../p0"];
const ROOTS: [Option<&str>; 5] = [None, Some("r"), Some("../r"), Some("../p0"), Some("/r")];
const MAPS: [Option<&str>; 4] = [None, Some("d/m"), Some("../p0/m"), Some("http://h/p0/m")];

fn main() {
    // lazily built tables are built once, before anything is explored
    std::panic::set_hook(Box::new(|_| ()));
    for k in 0..specs().len() {
        let _ = program(k, 0, false);
    }
    let _ = std::panic::take_hook();
    run::main(Prop {
        id: "C30",
        rule: "state = one (pair of objects, sequence of steps); transition = one step of one of the objects, compared with the reference model of that object alone; trace = one interleaving of the steps of two real objects, on one thread or (under a controlled scheduler) on two",
        assumptions: vec![
            "on several threads, control changes between steps and at one memory allocation within a step",
            "tables the crate builds once per process are built before the exploration starts",
        ],
        stages: |thorough| {
            let n = specs().len();
            let all = |ch: &mut Ch, a: usize, b: usize, depth: usize| -> Res {
                ch.log(|| format!("A = {:?}", specs()[a]));
                ch.log(|| format!("B = {:?}", specs()[b]));
                let mut objs = [Live::open(a)?, Live::open(b)?];
                let mut done = vec![];
                for _ in 0..depth {
                    let k = ch.pick(2 * STEPS);
                    let (w, k) = (k / STEPS, k % STEPS);
                    ch.log(|| format!("{}: {}", ["A", "B"][w], name([a, b][w], k)));
                    objs[w].step(k)?;
                    ch.step();
                    done.push((w, k));
                    ch.state(&(a, b, &done));
                }
                for o in &mut objs {
                    if matches!(o.obj, Obj::Gen { .. }) {
                        o.step(5)?;
                    }
                }
                Ok(())
            };
            let mut v = vec![];
            let d = if thorough { 3 } else { 2 };
            v.push(stage("alternate", format!("every pair of {n} objects (17 consumers that differ from the first or each other in one respect, 6 generators); every sequence of {d} steps, each any of {STEPS} on either object"), move |ch| {
                let (a, b) = (ch.pick(n), ch.pick(n));
                all(ch, a, b, d)
            }));
            for (d, near) in if thorough { vec![(4, NEAR.len())] } else { vec![(3, NEAR.len()), (4, 1)] } {
                v.push(stage(format!("alternate-{d}"), format!("{:?} of the pairs; every sequence of {d} steps", &NEAR[..near]), move |ch| {
                    let (a, b) = *ch.of(&NEAR[..near]);
                    all(ch, a, b, d)
                }));
            }
            v.push(stage("urls", format!("the sources of two maps, resolved one after the other and the first again: every pair out of {} sources, {} roots and {} map URLs", SRCS.len(), ROOTS.len(), MAPS.len()), |ch| {
                let one = |ch: &mut Ch| {
                    let (s, r, u) = (*ch.of(&SRCS), *ch.of(&ROOTS), *ch.of(&MAPS));
                    let mut d = Doc::new(&[], 0, 0);
                    d.root = r.map(|r| r.into());
                    d.sources = vec![s.into()];
                    (d.json(), u, mc::url::resolve(r, s, u))
                };
                let (a, b) = (one(ch), one(ch));
                ch.state(&(&a, &b));
                for (d, u, want) in [&a, &b, &a] {
                    let c = open_basic(d, *u)?;
                    ch.step();
                    full(c.get_sources(), vec![want.clone()], || format!("sources of {d} at {u:?}, of {a:?} and {b:?} by turns"))?;
                }
                Ok(())
            }));
            v.push(stage("paths", "two generators, each with one of 7 roots; contents of 7 files (1 to 7 in the first; named as no file before) set in both, by turns or one after the other, which both list as sources in either order", |ch| {
                const R: [Option<&str>; 7] = [None, Some("/r"), Some("/s"), Some("/r/s"), Some("/"), Some("http://h/r"), Some("http://h/s/")];
                // other files each time: whatever is kept of earlier executions says nothing of them
                static NEW: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let new = NEW.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let f = ["/r/a", "/s/a", "/r/s/a", "/a", "http://h/r/a", "http://h/s/a", "/s/r/a"].map(|f| format!("{f}{new}"));
                let files: Vec<&str> = f.iter().map(|f| f.as_str()).collect();
                let turns = ch.flag();
                let mut g: Vec<_> = vec![];
                for _ in 0..2 {
                    let (r, back) = (*ch.of(&R), ch.flag());
                    let mut f: Vec<usize> = (0..files.len()).collect();
                    if back {
                        f.reverse();
                    }
                    if g.is_empty() {
                        f.truncate(1 + ch.pick(files.len()));
                    }
                    g.push((new_gen(None, r, false), r, f));
                }
                for k in 0..2 * files.len() {
                    let (i, k) = if turns { (k % 2, k / 2) } else { (k / files.len(), k % files.len()) };
                    let (g, _, f) = &mut g[i];
                    let Some(&k) = f.get(k) else { continue };
                    add(g, &m(1, k as i32, Some((1, 0, files[k])), Some(files[k])))?;
                    must("set_source_content", || g.set_source_content(files[k].into(), Some(k.to_string())))?;
                    ch.step();
                }
                ch.state(&(turns, g.iter().map(|g| (g.1, g.2[0], g.2.len())).collect::<Vec<_>>()));
                for (g, r, f) in &mut g {
                    let o = decode(&emit(g)?)?;
                    let names: Vec<String> = f.iter().map(|k| files[*k].to_string()).collect();
                    let texts: Vec<serde_json::Value> = f.iter().map(|k| k.to_string().into()).collect();
                    full(o.sources.clone(), names.clone(), || format!("sources of the generator of root {r:?}"))?;
                    full(o.names.clone(), names, || format!("names of the generator of root {r:?}"))?;
                    full(o.json["sourcesContent"].clone(), texts.into(), || format!("contents of the generator of root {r:?}, set in the order of {f:?}"))?;
                }
                Ok(())
            }));
            v.push(stage("lists", "two generators, each given 1 to 3 of 4 texts (as sources and as names) in any order, by turns or one after the other; both emitted twice, by turns", |ch| {
                const T: [&str; 4] = ["a", "b", "A", "bb"];
                let one = |ch: &mut Ch| {
                    let n = 1 + ch.pick(3);
                    let mut left = T.to_vec();
                    (0..n).map(|_| { let k = ch.pick(left.len()); left.remove(k) }).collect::<Vec<_>>()
                };
                let l = [one(ch), one(ch)];
                let turns = ch.flag();
                let mut g = [new_gen(None, None, false), new_gen(None, None, true)];
                let put = |g: &mut [SourceMapGenerator; 2], i: usize, k: usize| -> Res {
                    match l[i].get(k) {
                        Some(t) => add(&mut g[i], &m(1, k as i32, Some((1, 0, t)), Some(t))),
                        None => Ok(()),
                    }
                };
                for k in 0..6 {
                    if turns { put(&mut g, k % 2, k / 2)? } else { put(&mut g, k / 3, k % 3)? }
                    ch.step();
                }
                for i in [0, 1, 0, 1] {
                    let o = decode(&emit(&mut g[i])?)?;
                    let want: Vec<M> = l[i].iter().enumerate().map(|(k, t)| m(1, k as i32, Some((1, 0, t)), Some(t))).collect();
                    full(o.maps, want, || format!("generator {i} of those with sources and names {l:?} (by turns: {turns}): {}", o.text))?;
                }
                ch.state(&(l, turns));
                Ok(())
            }));
            let md = if thorough { 3 } else { 2 };
            v.push(stage("moved", format!("every object; every sequence of {md} of {STEPS} steps, each on the thread that made the object or on a new one, while another object is in use on the first"), move |ch| {
                let a = ch.pick(n);
                let b = if a == 0 { 1 } else { 0 };
                let mut other = Live::open(b)?;
                let mut o = Sendable(Live::open(a)?);
                for _ in 0..md {
                    let k = ch.pick(STEPS);
                    if ch.flag() {
                        let r = &mut o;
                        ch.log(|| format!("on a new thread: {}", name(a, k)));
                        let r = Sendable(r);
                        std::thread::scope(|s| {
                            s.spawn(move || {
                                let mut r = r;
                                r.get().get().step(k)
                            })
                            .join()
                            .unwrap_or_else(|_| Err(Viol("thread ended by a panic".into())))
                        })?;
                    } else {
                        ch.log(|| format!("on the first thread: {}", name(a, k)));
                        o.get().step(k)?;
                    }
                    ch.step();
                    other.step(3)?;
                }
                if matches!(o.get().obj, Obj::Gen { .. }) {
                    o.get().step(5)?;
                }
                Ok(())
            }));
            let full_plan = Plan { threads: 2, migrate: true, inline: None, preempt: vec![], fixed: None };
            let p = full_plan.clone();
            v.push(stage("threads", "every pair of different objects, each on its own thread, two steps each (every choice for the pairs of near objects, else the same two); every interleaving of opening and steps", move |ch| {
                let near = ch.flag();
                let (a, b) = if near { *ch.of(&NEAR[..if thorough { NEAR.len() } else { 6 }]) } else { (ch.pick(n), ch.pick(n)) };
                let steps: Vec<usize> = if near { (0..4).map(|_| [4, 3, 6, 1, 7, 8, 5][ch.pick(if thorough { 5 } else { 3 })]).collect() } else { vec![5, 4, 6, 3] };
                let s2 = steps.clone();
                let one = move |spec: usize, s: Vec<usize>| -> Result<u64, Viol> {
                    inline_joins();
                    yield_now();
                    let mut l = Live::open(spec)?;
                    for k in s {
                        yield_now();
                        l.step(k)?;
                    }
                    if matches!(l.obj, Obj::Gen { .. }) {
                        l.step(5)?;
                    }
                    Ok(l.steps)
                };
                let (got, tr) = run(ch, &p, move || rayon_core::join(|| one(a, s2[..2].to_vec()), || one(b, s2[2..].to_vec())));
                ch.log(|| format!("steps {steps:?}, tasks ran in order {:?}; {:?} and {:?}", tr.order, specs()[a], specs()[b]));
                ch.state(&(a, b, &steps, &tr.order));
                finish(ch, got)
            }));
            let k = if thorough { 6500 } else { 900 };
            let every = if thorough { 1 } else { 7 };
            v.push(stage("preempt", format!("{NEAR:?} of the pairs, each object on its own thread with all its steps (lookups first, or contents first); one is stopped at every {every}. of its first {} allocations (a different residue for each pair) while the other runs from start to end", k * every), move |ch| {
                let i = ch.pick(NEAR.len());
                let (a, b) = NEAR[i];
                let at = (ch.pick(k) * every + i % every) as u64;
                let rotate = *ch.of(&[0, 3, 6]);
                let fixed = Fixed { youngest: false, target: 0, soon: false };
                let plan = Plan { threads: 2, migrate: true, inline: None, preempt: vec![at], fixed: Some(fixed) };
                let (got, tr) = run(ch, &plan, move || rayon_core::join(|| program(a, rotate, false), || program(b, rotate, false)));
                ch.log(|| format!("stopped at allocation {at} of {}, tasks ran in order {:?}; {:?} and {:?}", tr.allocs, tr.order, specs()[a], specs()[b]));
                ch.state(&(a, b, rotate, at));
                finish(ch, got)
            }));
            v
        },
    });
}
type Both = (Result<u64, Viol>, Result<u64, Viol>);
fn finish(ch: &mut Ch, got: Result<Both, String>) -> Res {
    match got {
        Err(p) => viol!("panic: {p}"),
        Ok((x, y)) => {
            ch.steps(x? + y?);
            Ok(())
        }
    }
}
