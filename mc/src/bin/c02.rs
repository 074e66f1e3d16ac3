//! C02: a generated map loses, invents and alters no mapping.
use mc::gen::*;
use mc::*;

fn check(ch: &mut Ch, ms: &[M], root: Option<&str>, skip: bool) -> Res {
    check_with(ch, ms, root, skip, 0)
}
/// Bit i of `emits`: the generator is also serialised after addition i.
fn check_with(ch: &mut Ch, ms: &[M], root: Option<&str>, skip: bool, emits: u128) -> Res {
    let mut g = new_gen(Some("out.js"), root, skip);
    for (i, x) in ms.iter().enumerate() {
        ch.log(|| format!("add {}", x.show()));
        add(&mut g, x)?;
        ch.step();
        if i < 128 && emits >> i & 1 == 1 {
            ch.log(|| "serialise".into());
            emit(&mut g)?;
            ch.step();
        }
    }
    let o = decode(&emit(&mut g)?)?;
    ch.step();
    ch.state(&ms);
    judge(ch, ms, &o)
}
fn judge(ch: &mut Ch, ms: &[M], o: &Out) -> Res {
    ch.outcome(&o.text);
    let (got, want) = (sorted_set(&o.maps), sorted_set(ms));
    if got != want {
        let lost: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
        let inv: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
        viol!("after adding {ms:?}: lost {lost:?}, invented {inv:?}; emitted {}", o.text);
    }
    let ws = first_use(ms.iter().filter_map(|x| x.o.as_ref().map(|o| &o.2)));
    let wn = first_use(ms.iter().filter_map(|x| x.name.as_ref()));
    ensure!(o.sources == ws, "after adding {ms:?}: sources {:?}, expected {ws:?}", o.sources);
    ensure!(o.names == wn, "after adding {ms:?}: names {:?}, expected {wn:?}", o.names);
    Ok(())
}
fn seqs(name: &str, al: Vec<M>, n: usize) -> Stage {
    let b = format!("every sequence of {n} additions from {} mappings, with and without validation", al.len());
    stage(format!("{name}-{n}"), b, move |ch| {
        let skip = ch.flag();
        let ms: Vec<M> = (0..n).map(|_| ch.of(&al).clone()).collect();
        check(ch, &ms, if n == 1 { Some("root") } else { None }, skip)
    })
}
fn main() {
    run::main(Prop {
        id: "C02",
        rule: "state = one sequence of added mappings; transition = one add_mapping or as_string call on the real generator; trace = the additions, the emitted text, and its decoding by the reference decoder",
        assumptions: vec!["reference decoder in mc/src/sm.rs (validated against the reference encoder in C01)", "generated lines of at most 100000 (the text has one separator per line)"],
        stages: |thorough| {
            let mut v = vec![];
            for n in 0..=if thorough { 4 } else { 3 } {
                v.push(seqs("ties", ties(), n));
            }
            for n in 1..=if thorough { 4 } else { 3 } {
                v.push(seqs("spread", spread(), n));
            }
            let n = if thorough { 7 } else { 5 };
            v.push(seqs("small", small(), n));
            for n in 1..=if thorough { 3 } else { 2 } {
                v.push(seqs("boundary", boundary(), n));
            }
            let n = if thorough { 6 } else { 4 };
            v.push(stage(format!("serialised-{n}"), format!("every sequence of {n} additions from {} mappings, serialised in between after every subset of them", small().len()), move |ch| {
                let al = small();
                let mut e = 0u128;
                let ms: Vec<M> = (0..n)
                    .map(|i| {
                        e |= (ch.flag() as u128) << i;
                        ch.of(&al).clone()
                    })
                    .collect();
                check_with(ch, &ms, None, false, e)
            }));
            let mid = if thorough { 100 } else { 50 };
            v.push(stage("serialised-long", format!("{PATTERNS} regular sequences of 0..={mid} additions, serialised once after any of them or after every 1st, 2nd, 3rd, 7th"), move |ch| {
                let p = ch.pick(PATTERNS);
                let n = ch.pick(mid + 1);
                let k = ch.pick(n + 4);
                let e: u128 = if k < n { 1 << k } else { (0..n).filter(|i| i % [1, 2, 3, 7][k - n] == 0).map(|i| 1u128 << i).sum() };
                let ms = long(n as i32, p);
                check_with(ch, &ms, None, false, e)
            }));
            let n = if thorough { 6 } else { 5 };
            v.push(stage(format!("walk-{n}"), format!("every sequence of {n} additions in order, each on the same or the next line, one of {WALK} kinds (no original; 3 sources, two of them differing in case; 3 names or none)"), move |ch| {
                let ms = walk(ch, n);
                check(ch, &ms, None, false)
            }));
            let top = if thorough { 200 } else { 80 };
            v.push(stage("long", format!("{PATTERNS} regular sequences of 0..={top} additions"), move |ch| {
                let p = ch.pick(PATTERNS);
                let n = ch.pick(top + 1);
                check(ch, &long(n as i32, p), None, false)
            }));
            let n = if thorough { 6 } else { 5 };
            v.push(stage(format!("contents-{n}"), format!("every history of {n} steps: {CONTENTS}"), move |ch| {
                let (ms, o) = with_contents(ch, n, None)?;
                judge(ch, &ms, &o)
            }));
            v.push(stage("texts", texts_bound(&TEXTS), move |ch| {
                let ms = texts(ch, &TEXTS);
                check(ch, &ms, None, false)
            }));
            v.push(stage("paths", texts_bound(&PATHS), move |ch| {
                let ms = texts(ch, &PATHS);
                check(ch, &ms, None, false)
            }));
            v.push(stage("carrying", format!("every sequence of 3 additions: {CARRYING}"), |ch| {
                let (ms, _carry) = carrying(ch, 3);
                check(ch, &ms, None, false)
            }));
            v.push(stage("far", FAR, |ch| {
                let ms = far(ch);
                check(ch, &ms, None, false)
            }));
            v.push(stage("sizes", format!("{PATTERNS} regular sequences of {:?} additions, and sources and names that differ behind 300 characters only", cons::SIZES), move |ch| {
                let ms = sized(ch);
                check(ch, &ms, None, false)
            }));
            v.push(stage("huge", format!("4 regular sequences of {} additions (backwards all along: at most 20000)", if thorough { format!("{:?}", cons::HUGE) } else { "131075".into() }), move |ch| {
                let ms = huge(ch, thorough);
                check(ch, &ms, None, false)
            }));
            v
        },
    });
}
