//! C14: answers do not depend on the query history.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::*;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Orig(i32, i32, bool),
    Gen(&'static str, i32, i32, bool),
    All(&'static str, i32, Option<i32>),
    EachG,
    EachO,
    /// enumerate (by original?), the callback panics after this many mappings
    Cut(bool, usize),
    Spans,
    Content(&'static str, Option<bool>),
    Sources,
    HasAll,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum R {
    Panic,
    Unit,
    Flag(bool),
    Text(Option<String>),
    Texts(Vec<String>),
    Pos(Option<(i32, i32)>),
    Ans(Option<Ans>),
    Maps(Vec<Raw>),
}
impl R {
    fn bare(&self) -> R {
        match self {
            R::Ans(a) => R::Ans(a.clone().map(|a| a.nospan())),
            R::Maps(v) => R::Maps(v.iter().map(|r| Raw { span: None, ..*r }).collect()),
            x => x.clone(),
        }
    }
    fn spans(&self) -> Vec<Option<i64>> {
        match self {
            R::Ans(Some(a)) => vec![a.span],
            R::Maps(v) => v.iter().map(|r| r.span.map(|s| s as i64)).collect(),
            _ => vec![],
        }
    }
}
fn b(lub: bool) -> Bi {
    BIASES[if lub { 2 } else { 0 }]
}
fn collect<C: ConsumerTrait>(c: &mut C, o: IterOrd) -> Vec<Raw> {
    let v = std::cell::RefCell::new(vec![]);
    c.each_mapping(|m| v.borrow_mut().push(raw(m)), o);
    v.into_inner()
}
fn cut<C: ConsumerTrait>(c: &mut C, by_original: bool, after: usize) {
    let n = std::cell::Cell::new(0);
    let f = |_: &source_map_mappings::Mapping| {
        if n.get() == after {
            panic!("the callback gives up");
        }
        n.set(n.get() + 1);
    };
    c.each_mapping(f, if by_original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd });
}
fn run_op(c: &mut Consumer, op: &Op) -> R {
    let r = match c {
        Consumer::BasicConsumer(c) => call(|| match *op {
            Op::Orig(l, k, l_) => R::Ans(c.original_position_for(pos(l, k), b(l_)).map(Ans::of)),
            Op::Gen(s, l, k, l_) => R::Ans(c.generated_position_for(s, l, k, b(l_)).map(Ans::of)),
            Op::All(s, l, k) => R::Maps(c.all_generated_position_for(s, l, k).iter().map(raw).collect()),
            Op::EachG => R::Maps(collect(c, IterOrd::GeneratedOrd)),
            Op::EachO => R::Maps(collect(c, IterOrd::OriginalOrd)),
            Op::Cut(o, n) => {
                cut(c, o, n);
                R::Unit
            }
            Op::Spans => {
                c.compute_column_spans();
                R::Unit
            }
            Op::Content(s, p) => R::Text(c.source_content_for(s, p)),
            Op::Sources => R::Texts(c.get_sources()),
            Op::HasAll => R::Flag(c.has_contents_of_all_sources()),
        }),
        Consumer::IndexedConsumer(c) => call(|| match *op {
            Op::Orig(l, k, l_) => R::Ans(c.original_position_for(pos(l, k), b(l_)).map(Ans::of)),
            Op::Gen(s, l, k, l_) => R::Pos(c.generated_position_for(s, l, k, b(l_)).map(|p| (p.line, p.column))),
            Op::All(s, l, k) => R::Maps(c.all_generated_position_for(s, l, k).iter().map(raw).collect()),
            Op::EachG => R::Maps(collect(c, IterOrd::GeneratedOrd)),
            Op::EachO => R::Maps(collect(c, IterOrd::OriginalOrd)),
            Op::Cut(o, n) => {
                cut(c, o, n);
                R::Unit
            }
            Op::Spans => {
                c.computed_column_spans();
                R::Unit
            }
            Op::Content(s, p) => R::Text(c.source_content_for(s, p)),
            Op::Sources => R::Texts(c.get_sources()),
            Op::HasAll => R::Flag(c.has_contents_of_all_sources()),
        }),
    };
    r.unwrap_or(R::Panic)
}

struct Case {
    name: &'static str,
    json: String,
    url: Option<&'static str>,
    ops: Vec<Op>,
    reference: std::sync::OnceLock<Reference>,
}
fn cases() -> Vec<Case> {
    let o = |src, line, col, name| Some(sm::Orig { src, line, col, name });
    let g = |line, col, orig| sm::Seg { line, col, orig };
    let ties = vec![
        g(0, 0, o(0, 0, 0, Some(0))),
        g(0, 4, None),
        g(0, 7, o(1, 3, 2, None)),
        g(0, 7, o(0, 3, 2, Some(1))),
        g(2, 1, o(1, 3, 2, Some(1))),
        g(2, 1, None),
        g(2, 6, o(0, 0, 0, None)),
        g(3, 0, o(0, 5, 1, None)),
    ];
    let mut v = vec![];
    let ops = |srcs: &[&'static str]| {
        let mut v = vec![Op::Orig(1, 5, false), Op::Orig(1, 7, false), Op::Orig(3, 0, true), Op::Orig(0, 0, false), Op::Orig(3, 2, false), Op::Orig(9, 1, false)];
        for s in srcs {
            v.push(Op::Gen(s, 4, 2, false));
            v.push(Op::Gen(s, 2, 0, true));
            v.push(Op::All(s, 4, None));
            v.push(Op::All(s, 1, Some(0)));
            v.push(Op::Content(s, None));
        }
        v.extend([Op::Gen(srcs[0], 0, 0, false), Op::All(srcs[0], 1, Some(-1)), Op::EachG, Op::EachO, Op::Spans, Op::Content(srcs[0], Some(false)), Op::Sources, Op::HasAll]);
        v
    };
    let mut d = Doc::new(&ties, 2, 2);
    d.contents = Some(vec![Some("zero".into()), None]);
    v.push(Case { name: "ties", json: d.json(), url: None, ops: ops(&["s0.js", "s1.js", "nope.js"]), reference: Default::default() });
    // two sources with one URL, names that need a root or the map's directory
    let mut d = Doc::new(&ties, 3, 2);
    d.root = Some("root".into());
    d.sources = vec!["x.js".into(), "sub/../x.js".into(), "../y.js".into()];
    d.contents = Some(vec![None, Some("shadowed".into()), Some("why".into())]);
    v.push(Case { name: "same-url", json: d.json(), url: Some("maps/m.map"), ops: ops(&["x.js", "maps/root/x.js", "maps/y.js"]), reference: Default::default() });
    // the URL of one source is a spelling of another one
    let mut d = Doc::new(&ties, 2, 2);
    d.sources = vec!["x.js".into(), "maps/x.js".into()];
    d.contents = Some(vec![Some("zero".into()), Some("one".into())]);
    v.push(Case { name: "chained", json: d.json(), url: Some("maps/m.map"), ops: ops(&["x.js", "maps/x.js", "maps/maps/x.js"]), reference: Default::default() });
    let mut d = Doc::new(&ties, 2, 2);
    d.root = Some("r".into());
    d.sources = vec!["r/x.js".into(), "x.js".into()];
    d.contents = Some(vec![Some("zero".into()), Some("one".into())]);
    v.push(Case { name: "chained-root", json: d.json(), url: None, ops: ops(&["x.js", "r/x.js"]), reference: Default::default() });
    for (name, text) in [("bad-char", "AAAA,!"), ("truncated", "AAAA;AAg"), ("two-fields", "AA"), ("negative", "AAAA,D")] {
        let mut d = Doc::new(&[], 1, 1);
        d.mappings = text.into();
        v.push(Case { name, json: d.json(), url: None, ops: ops(&["s0.js", "nope.js"]), reference: Default::default() });
    }
    let mut d = Doc::new(&[], 0, 0);
    d.contents = Some(vec![]);
    v.push(Case { name: "empty", json: d.json(), url: Some("http://h/m.map"), ops: ops(&["s0.js"]), reference: Default::default() });
    // indexed
    let mut one = Doc::new(&ties, 2, 2);
    one.contents = Some(vec![Some("zero".into()), Some("one".into())]);
    let mut two = Doc::new(&ties[..4], 2, 2);
    two.sources = vec!["s1.js".into(), "s2.js".into()];
    two.contents = Some(vec![None, Some("two".into())]);
    let three = Doc::new(&ties[4..], 2, 2);
    let j = indexed_json(&[((0, 0), one.json()), ((3, 4), two.json()), ((3, 20), three.json())]);
    let mut iops = ops(&["s0.js", "s1.js", "s2.js", "nope.js"]);
    iops.extend([Op::Orig(4, 5, false), Op::Orig(4, 12, false), Op::Orig(6, 9, false)]);
    v.push(Case { name: "indexed", json: j, url: None, ops: iops.clone(), reference: Default::default() });
    let mut bad = Doc::new(&[], 1, 1);
    bad.mappings = "A,,?".into();
    bad.sources = vec!["s2.js".into()];
    let j = indexed_json(&[((0, 0), one.json()), ((3, 1), bad.json())]);
    v.push(Case { name: "indexed-malformed", json: j, url: Some("m.map"), ops: iops, reference: Default::default() });
    v.push(Case { name: "indexed-empty", json: indexed_json(&[]), url: None, ops: ops(&["s0.js"]), reference: Default::default() });
    v
}

type Reference = Vec<(R, R)>;
/// One consumer with a query history.
struct Run<'a> {
    c: &'a Case,
    real: Consumer,
    reference: &'a Reference,
    hist: Vec<u8>,
    computed: bool,
}
impl<'a> Run<'a> {
    fn open(c: &Case) -> Result<Consumer, Viol> {
        create_consumer(&c.json, c.url).map_err(|e| Viol(format!("refused {}: {e}", c.json)))
    }
    fn new(c: &'a Case) -> Result<Run<'a>, Viol> {
        if c.reference.get().is_none() {
            // each query alone, and right after computing spans
            let mut r = vec![];
            for op in &c.ops {
                let fresh = run_op(&mut Self::open(c)?, op);
                let mut x = Self::open(c)?;
                run_op(&mut x, &Op::Spans);
                let after = run_op(&mut x, op);
                ensure!(fresh.bare() == after.bare(), "on {}, {op:?} answers {fresh:?}, but after computing spans {after:?}", c.json);
                r.push((fresh, after));
            }
            let _ = c.reference.set(r);
        }
        Ok(Run { c, real: Self::open(c)?, reference: c.reference.get().unwrap(), hist: vec![], computed: false })
    }
    fn go(&mut self, ch: &mut Ch, k: usize) -> Res {
        let op = &self.c.ops[k];
        self.hist.push(k as u8);
        ch.state(&self.hist);
        ch.step();
        let got = run_op(&mut self.real, op);
        ch.outcome(&got);
        ch.log(|| format!("{op:?} -> {got:?}"));
        let (fresh, after) = &self.reference[k];
        let show = || self.hist.iter().map(|k| format!("{:?}", self.c.ops[*k as usize])).collect::<Vec<_>>().join("; ");
        ensure!(got.bare() == fresh.bare(), "on {}, after [{}] the last query answers {got:?}; on a fresh consumer {fresh:?}", self.c.json, show());
        let (s, f, a) = (got.spans(), fresh.spans(), after.spans());
        for i in 0..s.len() {
            let ok = if self.computed { s[i] == a[i] } else { s[i] == f[i] || s[i] == a[i] };
            ensure!(ok, "on {}, after [{}] a span end is {:?}; fresh {:?}, after computing spans {:?}", self.c.json, show(), s[i], f[i], a[i]);
        }
        self.computed |= *op == Op::Spans && got == R::Unit;
        Ok(())
    }
}

fn main() {
    run::main(Prop {
        id: "C14",
        rule: "state = one query history (prefix of operations) on one document; transition = one query on the consumer with that history, its answer compared with a freshly opened consumer's; trace = one sequence of queries on one real consumer",
        assumptions: vec!["a refused query is compared as 'panics', not by its message"],
        stages: |thorough| {
            let top = if thorough { 400 } else { 130 };
            let names = stage("many-names", format!("1..={top}, 255..=257, 300 and 1025 sources; contents and all-positions lookups of every source under 1..=3 spellings and of unknown names, in 4 orders, twice; each compared with what the document says"), move |ch| {
                let n = ch.pick(top + 5);
                let n = if n < top { 1 + n } else { [255, 256, 257, 300, 1025][n - top] } as u32;
                let segs: Vec<sm::Seg> = (0..n).map(|i| sm::Seg { line: 0, col: i, orig: Some(sm::Orig { src: i, line: i, col: 0, name: None }) }).collect();
                let mut d = Doc::new(&segs, n as usize, 0);
                d.contents = Some((0..n).map(|i| Some(format!("text {i}"))).collect());
                let (order, spellings) = (ch.pick(4), 1 + ch.pick(3));
                let mut c = open_basic(&d.json(), None)?;
                for _ in 0..2 {
                    for i in thin_out((0..n).collect::<Vec<_>>()) {
                        let i = match order {
                            0 => i,
                            1 => n - 1 - i,
                            2 => (i * 7) % n,
                            _ => if i % 2 == 0 { i } else { 0 },
                        };
                        for s in 0..spellings {
                            let name = format!("{}s{i}.js", ["", "./", "x/../"][s]);
                            let got = must("source_content_for", || c.source_content_for(&name, None))?;
                            full(got, Some(format!("text {i}")), || format!("content of {name} among {n} sources, order {order}, {spellings} spellings"))?;
                            let got = all_for(&mut c, &name, i as i32 + 1, None)?;
                            full(got.iter().map(|r| r.seg).collect(), vec![segs[i as usize]], || format!("positions of {name} among {n} sources, order {order}, {spellings} spellings"))?;
                            ch.steps(2);
                        }
                        let got = must("source_content_for", || c.source_content_for(&format!("u{i}.js"), Some(false)))?;
                        full(got, None, || format!("content of unknown u{i}.js among {n} sources"))?;
                        ch.step();
                    }
                }
                ch.state(&(n, order, spellings));
                Ok(())
            });
            cases()
                .into_iter()
                .map(|c| {
                    let depth = 3 + (!c.name.starts_with("indexed") || c.ops.len() <= 20) as usize + thorough as usize;
                    let times = if thorough { 300 } else { 40 };
                    let c = std::sync::Arc::new(c);
                    let (d, e) = (c.clone(), c.clone());
                    let n = c.ops.len();
                    vec![
                        stage(c.name, format!("every sequence of {depth} of {n} queries on {} (map URL {:?}): {:?}", c.json, c.url, c.ops), move |ch| {
                            let mut r = Run::new(&c)?;
                            for _ in 0..depth {
                                let k = ch.pick(n);
                                r.go(ch, k)?;
                            }
                            Ok(())
                        }),
                        stage(format!("{}-repeated", d.name), format!("on the same document: each of the {n} queries repeated {times} times, or in turn with each other one; then all of them"), move |ch| {
                            let mut r = Run::new(&d)?;
                            let (k, l) = (ch.pick(n), ch.pick(n));
                            for _ in 0..times {
                                r.go(ch, k)?;
                                if l != k {
                                    r.go(ch, l)?;
                                }
                            }
                            for i in 0..n {
                                r.go(ch, i)?;
                            }
                            Ok(())
                        }),
                        stage(format!("{}-cut", e.name), format!("on the same document: any query or none; an enumeration in either order whose callback panics after 0..=8 mappings, once or twice; any of the {n} queries; all of them"), move |ch| {
                            let mut r = Run::new(&e)?;
                            let (k, l) = (ch.pick(n + 1), ch.pick(n));
                            if k < n {
                                r.go(ch, k)?;
                            }
                            let op = Op::Cut(ch.flag(), ch.pick(9));
                            for _ in 0..1 + ch.pick(2) {
                                ch.log(|| format!("{op:?}"));
                                run_op(&mut r.real, &op);
                                ch.step();
                                r.go(ch, l)?;
                            }
                            for i in 0..n {
                                r.go(ch, i).map_err(|v| Viol(format!("with an enumeration cut short ({op:?}): {}", v.0)))?;
                            }
                            Ok(())
                        }),
                    ]
                })
                .flatten()
                .chain([names])
                .collect()
        },
    });
}
