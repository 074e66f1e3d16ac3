//! C03: emitted mappings are sorted, de-duplicated and order-independent.
use mc::gen::*;
use mc::*;
use std::collections::HashSet;

fn canonical(ms: &[M]) -> Result<Vec<M>, Viol> {
    // validation makes no difference to valid mappings
    let mut g = new_gen(None, None, true);
    for x in ms {
        add(&mut g, x)?;
    }
    Ok(decode(&emit(&mut g)?)?.maps)
}
fn check(ch: &mut Ch, ms: &[M]) -> Res {
    check_with(ch, ms, 0)
}
/// Bit i of `emits`: the generator is also serialised after addition i.
fn check_with(ch: &mut Ch, ms: &[M], emits: u128) -> Res {
    let mut g = new_gen(None, None, false);
    for (i, x) in ms.iter().enumerate() {
        ch.log(|| format!("add {}", x.show()));
        add(&mut g, x)?;
        ch.step();
        if i < 128 && emits >> i & 1 == 1 {
            ch.log(|| "serialise".into());
            emit(&mut g)?;
            ch.step();
        }
    }
    let o = decode(&emit(&mut g)?)?;
    ch.step();
    ch.state(&ms);
    judge(ch, ms, &o)
}
fn judge(ch: &mut Ch, ms: &[M], o: &Out) -> Res {
    ch.outcome(&o.mappings);
    ensure!(o.maps.windows(2).all(|w| w[0].g <= w[1].g), "after adding {ms:?}: not sorted by generated position: {:?}", o.text);
    let mut seen = HashSet::new();
    for a in &o.maps {
        ensure!(seen.insert(a), "after adding {ms:?}: {a:?} emitted twice: {}", o.text);
    }
    ensure!(
        !o.mappings.ends_with(&[';', ','][..]) && !o.mappings.contains(",,") && !o.mappings.contains(";,") && !o.mappings.contains(",;") && !o.mappings.starts_with(','),
        "after adding {ms:?}: stray separators in {:?}",
        o.mappings
    );
    ensure!(o.segs.len() == sorted_set(ms).len(), "after adding {ms:?}: {} segments emitted: {}", o.segs.len(), o.text);
    // the same multiset in canonical order
    let mut canon = ms.to_vec();
    canon.sort();
    if canon != ms {
        let c = canonical(&canon)?;
        ensure!(c == o.maps, "order of adding matters: {ms:?} emits {:?} but {canon:?} emits {c:?}", o.maps);
        // and the same set without repetitions
        canon.dedup();
        canon.reverse();
        let c = canonical(&canon)?;
        ensure!(c == o.maps, "order of adding matters: {ms:?} emits {:?} but {canon:?} emits {c:?}", o.maps);
    }
    Ok(())
}
fn seqs(name: &str, al: Vec<M>, n: usize) -> Stage {
    let b = format!("every sequence of {n} additions from {} mappings (hence every order of every multiset)", al.len());
    stage(format!("{name}-{n}"), b, move |ch| {
        let ms: Vec<M> = (0..n).map(|_| ch.of(&al).clone()).collect();
        check(ch, &ms)
    })
}
fn main() {
    run::main(Prop {
        id: "C03",
        rule: "state = one sequence of added mappings; transition = one add_mapping or as_string call; trace = the decoded emission, compared with that of the same set in canonical order",
        assumptions: vec!["reference decoder in mc/src/sm.rs"],
        stages: |thorough| {
            let mut v = vec![];
            for n in 0..=if thorough { 4 } else { 3 } {
                v.push(seqs("ties", ties(), n));
            }
            for n in 1..=if thorough { 4 } else { 3 } {
                v.push(seqs("spread", spread(), n));
            }
            let n = if thorough { 7 } else { 5 };
            v.push(seqs("small", small(), n));
            for n in 1..=2 {
                v.push(seqs("boundary", boundary(), n));
            }
            let n = if thorough { 6 } else { 4 };
            v.push(stage(format!("serialised-{n}"), format!("every sequence of {n} additions from {} mappings, serialised in between after every subset of them", small().len()), move |ch| {
                let al = small();
                let mut e = 0u128;
                let ms: Vec<M> = (0..n)
                    .map(|i| {
                        e |= (ch.flag() as u128) << i;
                        ch.of(&al).clone()
                    })
                    .collect();
                check_with(ch, &ms, e)
            }));
            let mid = if thorough { 100 } else { 50 };
            v.push(stage("serialised-long", format!("{PATTERNS} regular sequences of 0..={mid} additions, serialised once after any of them or after every 1st, 2nd, 3rd, 7th"), move |ch| {
                let p = ch.pick(PATTERNS);
                let n = ch.pick(mid + 1);
                let k = ch.pick(n + 4);
                let e: u128 = if k < n { 1 << k } else { (0..n).filter(|i| i % [1, 2, 3, 7][k - n] == 0).map(|i| 1u128 << i).sum() };
                let ms = long(n as i32, p);
                check_with(ch, &ms, e)
            }));
            let n = if thorough { 6 } else { 5 };
            v.push(stage(format!("walk-{n}"), format!("every sequence of {n} additions in order, each on the same or the next line, one of {WALK} kinds (no original; 3 sources, two of them differing in case; 3 names or none)"), move |ch| {
                let ms = walk(ch, n);
                check(ch, &ms)
            }));
            let top = if thorough { 200 } else { 80 };
            v.push(stage("long", format!("{PATTERNS} regular sequences of 0..={top} additions, forwards, backwards and rotated by every third"), move |ch| {
                let p = ch.pick(PATTERNS);
                let n = ch.pick(top + 1);
                let mut ms = long(n as i32, p);
                match ch.pick(4) {
                    0 => {}
                    1 => ms.reverse(),
                    k => ms.rotate_left(n * (k - 1) / 3),
                }
                check(ch, &ms)
            }));
            let n = if thorough { 6 } else { 5 };
            v.push(stage(format!("contents-{n}"), format!("every history of {n} steps: {CONTENTS}"), move |ch| {
                let (ms, o) = with_contents(ch, n, None)?;
                judge(ch, &ms, &o)
            }));
            v.push(stage("texts", texts_bound(&TEXTS), move |ch| {
                let ms = texts(ch, &TEXTS);
                check(ch, &ms)
            }));
            v.push(stage("paths", texts_bound(&PATHS), move |ch| {
                let ms = texts(ch, &PATHS);
                check(ch, &ms)
            }));
            v.push(stage("carrying", format!("every sequence of 3 additions: {CARRYING}"), |ch| {
                let (ms, _carry) = carrying(ch, 3);
                check(ch, &ms)
            }));
            v.push(stage("far", FAR, |ch| {
                let ms = far(ch);
                check(ch, &ms)
            }));
            v.push(stage("sizes", format!("{PATTERNS} regular sequences of {:?} additions, and sources and names that differ behind 300 characters only", cons::SIZES), move |ch| {
                let ms = sized(ch);
                check(ch, &ms)
            }));
            v.push(stage("huge", format!("4 regular sequences of {} additions (backwards all along: at most 20000)", if thorough { format!("{:?}", cons::HUGE) } else { "131075".into() }), move |ch| {
                let ms = huge(ch, thorough);
                check(ch, &ms)
            }));
            v
        },
    });
}
