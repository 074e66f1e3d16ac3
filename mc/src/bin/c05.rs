//! C05: a validating generator refuses invalid mappings and stays intact.
use mc::cons::pos;
use mc::gen::*;
use mc::*;
use rusty_source_map::mapping::Mapping;

#[derive(Clone, Debug, Hash)]
struct Cand {
    g: (i32, i32),
    o: Option<(i32, i32)>,
    s: Option<&'static str>,
    n: Option<&'static str>,
    /// the last generated column it carries
    last: usize,
}
impl Cand {
    fn real(&self) -> Mapping {
        Mapping {
            generated: pos(self.g.0, self.g.1),
            original: self.o.map(|o| pos(o.0, o.1)),
            source: self.s.map(|s| s.into()),
            name: self.n.map(|s| s.into()),
            last_generated_column: carry(self.last, self.g.1),
        }
    }
    fn valid(&self) -> bool {
        self.g.0 >= 1
            && self.g.1 >= 0
            && match (self.o, self.s, self.n) {
                (None, None, None) => true,
                (Some((l, c)), Some(_), _) => l >= 1 && c >= 0,
                _ => false,
            }
    }
    fn emittable(&self) -> bool {
        self.g.0 < 10_000
    }
}
const E: [i32; 8] = [1, 0, -1, 2, i32::MIN, i32::MIN + 1, i32::MAX - 1, i32::MAX];
type Kind = ((i32, i32), Option<(i32, i32)>, Option<&'static str>, Option<&'static str>);
const KINDS: [Kind; 15] = [
    ((0, 0), None, None, None),
    ((-1, 0), None, None, None),
    ((1, -1), None, None, None),
    ((0, 3), Some((1, 0)), Some("a"), Some("x")),
    ((1, 3), Some((0, 0)), Some("a"), None),
    ((1, 3), Some((1, -1)), Some("fresh"), Some("new")),
    ((1, 3), Some((-1, 1)), Some("fresh"), None),
    ((1, 3), Some((1, 1)), None, None),
    ((1, 3), Some((1, 1)), None, Some("x")),
    ((1, 3), None, Some("a"), None),
    ((1, 3), None, None, Some("x")),
    ((1, 3), None, Some("fresh"), Some("new")),
    ((1, 3), None, None, None),
    ((1, 3), Some((1, 1)), Some("fresh"), Some("new")),
    ((1, 3), Some((2, 0)), Some("a"), None),
];
fn cand(ch: &mut Ch, gl: &[i32], e: &[i32]) -> Cand {
    let g = (*ch.of(gl), *ch.of(e));
    let o = if ch.flag() { Some((*ch.of(e), *ch.of(e))) } else { None };
    let s = *ch.of(&[None, Some("a"), Some("fresh")]);
    let n = *ch.of(&[None, Some("x"), Some("new")]);
    Cand { g, o, s, n, last: 0 }
}
fn pool() -> Vec<M> {
    vec![
        m(1, 1, Some((1, 0, "a")), Some("x")),
        m(2, 0, None, None),
        m(1, 0, Some((2, 2, "b")), None),
    ]
}
fn check(ch: &mut Ch, pre: &[M], c: &[Cand], post: &[M], emit_between: bool) -> Res {
    let what = || format!("history {pre:?}, then {c:?}, then {post:?}");
    ch.log(what);
    let mut g = new_gen(None, None, false);
    let mut twin = new_gen(None, None, true);
    for x in pre {
        add(&mut g, x)?;
        must("add_mapping without validation", || twin.add_mapping(x.real()))?;
        ch.step();
    }
    if emit_between {
        emit(&mut g)?;
    }
    let mut emittable = true;
    for k in c {
        let r = call(|| g.add_mapping(k.real()));
        ch.step();
        ch.outcome(&(k, r.is_ok()));
        ensure!(r.is_ok() == k.valid(), "add_mapping({:?}) is {} but the mapping is {}; {}", k, if r.is_ok() { "accepted" } else { "refused" }, if k.valid() { "valid" } else { "invalid" }, what());
        if k.valid() {
            must("add_mapping without validation", || twin.add_mapping(k.real()))?;
            emittable &= k.emittable();
        }
    }
    for x in post {
        add(&mut g, x)?;
        must("add_mapping without validation", || twin.add_mapping(x.real()))?;
    }
    ch.state(&(pre, c, post));
    if emittable {
        let (a, b) = (emit(&mut g)?, emit(&mut twin)?);
        ch.step();
        ensure!(a == b, "refused mappings left a trace: {a} instead of {b}; {}", what());
    }
    Ok(())
}
fn main() {
    run::main(Prop {
        id: "C05",
        rule: "state = one history with its candidate mappings; transition = one add_mapping or as_string call; trace = the verdict on each candidate and the final text, compared with a generator that was only given the valid ones",
        assumptions: vec!["maps with a generated line of 10000 or more are checked for acceptance but not emitted (one separator per line)"],
        stages: |thorough| {
            let mut v = vec![];
            v.push(stage("shapes", format!("every candidate with coordinates from {E:?}, any presence of original, source, name"), |ch| {
                let c = cand(ch, &E, &E);
                check(ch, &[], &[c], &[], false)
            }));
            v.push(stage("carrying", "every candidate with coordinates -1, 0, 1, 2, any presence of original, source, name, and no last generated column, one behind its column, -1, 0 or the largest integer", |ch| {
                let mut c = cand(ch, &E[..4], &E[..4]);
                c.last = ch.pick(CARRIED);
                check(ch, &[], &[c], &pool()[..1], false)
            }));
            let n = if thorough { 2 } else { 1 };
            v.push(stage("histories", format!("{n} candidates with coordinates -1, 0, 1, 3 between every pair of histories of up to 2 valid additions, emitting before or not"), move |ch| {
                let p = pool();
                let k = ch.pick(3);
                let pre: Vec<M> = (0..k).map(|_| ch.of(&p).clone()).collect();
                let c: Vec<Cand> = (0..n).map(|_| cand(ch, &[1, 0, 3], &[0, -1])).collect();
                let k = ch.pick(3);
                let post: Vec<M> = (0..k).map(|_| ch.of(&p).clone()).collect();
                let e = ch.flag();
                check(ch, &pre, &c, &post, e)
            }));
            v.push(stage("pairs", "every pair of candidates with coordinates -1, 0, 1", |ch| {
                let c = vec![cand(ch, &[1, 0], &[1, -1]), cand(ch, &[1, 0], &[1, -1])];
                check(ch, &pool()[..1], &c, &pool(), false)
            }));
            v.push(stage("after-many", format!("1 to 300 candidates of {} kinds after {:?} valid additions of 4 regular sequences (new names and sources each, new sources each, repetitions, one source), emitting before or not", KINDS.len(), mc::cons::SIZES), |ch| {
                let n = *ch.of(&mc::cons::SIZES);
                let pre = long(n as i32, *ch.of(&[2, 4, 5, 0]));
                let (g, o, s, n) = *ch.of(&KINDS);
                let c = vec![Cand { g, o, s, n, last: 0 }; *ch.of(&[1, 2, 300])];
                let e = ch.flag();
                check(ch, &pre, &c, &pool()[..1], e)
            }));
            v
        },
    });
}
