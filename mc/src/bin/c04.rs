//! C04: serialising a generator is a pure observation.
use mc::gen::*;
use mc::*;
use rusty_source_map::consumer::*;
use rusty_source_map::generator::SourceMapGenerator;

#[derive(Clone, Debug, Hash)]
enum Op {
    Add(M),
    Content(&'static str, Option<&'static str>),
    Emit,
    /// Build a consumer of the generator and query it.
    Open,
}
fn run_op(g: &mut SourceMapGenerator, op: &Op) -> Result<Option<String>, Viol> {
    match op {
        Op::Add(x) => add(g, x).map(|_| None),
        Op::Content(s, c) => must("set_source_content", || g.set_source_content(s.to_string(), c.map(|c| c.to_string()))).map(|_| None),
        Op::Emit => emit(g).map(Some),
        Op::Open => {
            let mut c = must("BasicConsumer::from_source_map", || BasicConsumer::from_source_map(g, Some("d/m.map")))?;
            let _ = mc::cons::enumerate(&mut c, IterOrd::OriginalOrd)?;
            let _ = mc::cons::gen_for(&mut c, "a", 1, 0, None)?;
            Ok(None)
        }
    }
}
fn check(ch: &mut Ch, ops: &[Op], root: Option<&str>) -> Res {
    let skip = ch.flag();
    ch.log(|| format!("root {root:?}, skipping validation: {skip}"));
    let mut g = new_gen(None, root, skip);
    let mut past: Vec<&Op> = vec![];
    for (i, op) in ops.iter().enumerate() {
        ch.log(|| format!("{op:?}"));
        ch.step();
        if let Some(t) = run_op(&mut g, op)? {
            let mut f = new_gen(None, root, skip);
            for p in &past {
                run_op(&mut f, p)?;
            }
            let want = emit(&mut f)?;
            ch.outcome(&t);
            ensure!(t == want, "operation {i} of {ops:?} emits {t}; a fresh generator with the same additions emits {want}");
            let again = emit(&mut g)?;
            ensure!(again == t, "operation {i} of {ops:?}: emitting twice in a row gives {t} then {again}");
            let again = emit(&mut g)?;
            ensure!(again == t, "operation {i} of {ops:?}: emitting three times in a row gives {t} then {again}");
        } else if !matches!(op, Op::Open) {
            past.push(op);
        }
        ch.state(&ops[..=i]);
    }
    Ok(())
}
/// As `check`, without remembering every prefix.
fn sized_check(ch: &mut Ch, ops: &[Op]) -> Res {
    let skip = ch.flag();
    let (mut g, mut f) = (new_gen(None, None, skip), new_gen(None, None, skip));
    for op in ops {
        ch.step();
        run_op(&mut g, op)?;
        if !matches!(op, Op::Emit | Op::Open) {
            run_op(&mut f, op)?;
        }
    }
    let (t, want) = (emit(&mut g)?, emit(&mut f)?);
    ch.state(&(ops.len(), &t));
    ch.outcome(&t);
    ensure!(t == want, "{} operations, serialised in between: emits {t}; a fresh generator with the same additions emits {want}", ops.len());
    Ok(())
}
fn alphabet(k: usize) -> Vec<Op> {
    let mut v = vec![
        Op::Emit,
        Op::Add(m(1, 4, Some((1, 0, "a")), Some("x"))),
        Op::Add(m(1, 2, Some((3, 1, "b")), None)),
        Op::Add(m(3, 0, Some((2, 2, "a")), None)),
        Op::Add(m(1, 4, None, None)),
        Op::Content("a", Some("A")),
        Op::Add(m(1, 4, Some((1, 0, "a")), Some("w"))),
        Op::Open,
        Op::Content("a", None),
        Op::Content("b", Some("B")),
        Op::Add(m(2, 0, None, None)),
        Op::Add(m(1, 4, Some((1, 0, "A")), None)),
        Op::Add(m(1, 2, Some((3, 1, "b")), Some("x"))),
        Op::Content("a", Some("A2")),
    ];
    v.truncate(k);
    v
}
fn main() {
    run::main(Prop {
        id: "C04",
        rule: "state = one history of operations; transition = one operation on the real generator; trace = one history, each of its emissions compared with a never-serialised generator",
        assumptions: vec![],
        stages: |thorough| {
            let mut v = vec![];
            for (k, n) in if thorough { [(14, 5), (8, 6), (6, 8)] } else { [(14, 4), (8, 5), (6, 6)] } {
                for root in [None, Some("/r")] {
                    let al = alphabet(k);
                    v.push(stage(format!("{k}ops-{n}-root-{root:?}"), format!("every history of {n} operations over {al:?}, ended by an emission"), move |ch| {
                        let mut ops: Vec<Op> = (0..n).map(|_| ch.of(&al).clone()).collect();
                        ops.push(Op::Emit);
                        check(ch, &ops, root)
                    }));
                }
            }
            let top = if thorough { 60 } else { 40 };
            v.push(stage("long", format!("{PATTERNS} regular sequences of up to {top} additions, one emission after any of them and one at the end"), move |ch| {
                let p = ch.pick(PATTERNS);
                let n = ch.pick(top + 1);
                let at = ch.pick(n + 1);
                let mut ops: Vec<Op> = long(n as i32, p).into_iter().map(Op::Add).collect();
                ops.insert(at, Op::Emit);
                ops.push(Op::Emit);
                check(ch, &ops, None)
            }));
            v.push(stage("texts", format!("{}; emitted or opened after the first or second addition", texts_bound(&TEXTS)), |ch| {
                let ms = texts(ch, &TEXTS);
                let (at, how) = (1 + ch.pick(2), ch.flag());
                let mut ops: Vec<Op> = ms.into_iter().map(Op::Add).collect();
                ops.insert(at, if how { Op::Open } else { Op::Emit });
                ops.push(Op::Emit);
                sized_check(ch, &ops)
            }));
            v.push(stage("sizes", format!("{PATTERNS} regular sequences, and one with texts of 300 equal characters first, of {:?} additions; emitted (or a consumer built) after the first, the half, all but one or all of them, and at the end", &mc::cons::SIZES), |ch| {
                let ms = sized(ch);
                let n = ms.len();
                let at = *ch.of(&[1, n / 2, n - 1, n]);
                let how = ch.flag();
                let mut ops: Vec<Op> = ms.into_iter().map(Op::Add).collect();
                ops.insert(at, if how { Op::Open } else { Op::Emit });
                ops.push(Op::Emit);
                sized_check(ch, &ops)
            }));
            v
        },
    });
}
