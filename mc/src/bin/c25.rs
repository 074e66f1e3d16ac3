//! C25: the mapping list and its comparison.
use mc::gen::*;
use mc::*;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::util::{compare_by_generated_pos_inflated as cmp, strcmp};
use std::cell::RefCell;
use std::cmp::Ordering;

/// Absent sorts behind every present text.
fn opt(a: &Option<String>, b: &Option<String>) -> Ordering {
    match (a, b) {
        (Some(a), Some(b)) => a.cmp(b),
        (None, None) => Ordering::Equal,
        (None, _) => Ordering::Greater,
        (_, None) => Ordering::Less,
    }
}
fn order(a: &M, b: &M) -> Ordering {
    let src = |m: &M| m.o.as_ref().map(|o| o.2.clone());
    let at = |m: &M| m.o.as_ref().map(|o| (o.0, o.1));
    a.g.cmp(&b.g).then_with(|| opt(&src(a), &src(b))).then_with(|| at(a).cmp(&at(b))).then_with(|| opt(&a.name, &b.name))
}
fn back(x: &Mapping) -> Result<M, Viol> {
    ensure!(x.original.is_some() == x.source.is_some(), "original without source or the reverse: {x:?}");
    Ok(M {
        g: (x.generated.line, x.generated.column),
        o: x.original.as_ref().map(|o| (o.line, o.column, x.source.clone().unwrap())),
        name: x.name.clone(),
    })
}
fn read(l: &mut MappingList) -> Result<Vec<M>, Viol> {
    must("to_array", || l.to_array())?.iter().map(back).collect()
}
fn walk(l: &MappingList) -> Result<Vec<M>, Viol> {
    let v = RefCell::new(vec![]);
    must("unsorted_for_each", || l.unsorted_for_each(|m, i| v.borrow_mut().push((i, m.clone()))))?;
    let v = v.into_inner();
    ensure!(v.iter().enumerate().all(|(i, x)| x.0 == i), "unsorted_for_each numbers its calls {:?}", v.iter().map(|x| x.0).collect::<Vec<_>>());
    let mut v: Vec<M> = v.iter().map(|x| back(&x.1)).collect::<Result<_, _>>()?;
    v.sort_by(order);
    Ok(v)
}
fn sorted(ms: &[M]) -> Vec<M> {
    let mut v = ms.to_vec();
    v.sort_by(order);
    v
}

/// Mappings that differ in each field, around each other.
fn alphabet() -> Vec<M> {
    vec![
        m(1, 0, None, None),
        m(1, 4, Some((1, 0, "b")), None),
        m(1, 4, Some((1, 0, "a")), Some("n")),
        m(1, 4, Some((1, 0, "a")), None),
        m(1, 4, Some((2, 0, "a")), None),
        m(1, 4, Some((1, 3, "a")), Some("m")),
        m(1, 4, None, None),
        m(2, 1, Some((1, 0, "a")), None),
        m(2, 3, Some((1, 0, "b")), Some("m")),
        m(2, 3, Some((1, 0, "b")), Some("n")),
    ]
}
fn fields() -> Vec<M> {
    let mut v = vec![];
    for g in [(1, 0), (1, 5), (2, 0), (2, 5), (i32::MAX, i32::MAX), (1, i32::MAX)] {
        v.push(M { g, o: None, name: None });
        for s in ["a", "ab", "B"] {
            for o in [(1, 0), (1, 9), (2, 0), (i32::MAX, i32::MAX), (1, i32::MAX), (3, 1)] {
                for n in [None, Some("x"), Some("y"), Some("")] {
                    v.push(M { g, o: Some((o.0, o.1, s.into())), name: n.map(|s: &str| s.to_string()) });
                }
            }
        }
    }
    v
}
fn sign(x: i32) -> Ordering {
    x.cmp(&0)
}

fn main() {
    run::main(Prop {
        id: "C25",
        rule: "state = one multiset of mappings held, or one pair of mappings compared; transition = one addition, read or comparison; trace = one sequence of additions and reads on one real list, or one pair/triple",
        assumptions: vec!["mappings are valid: an original position and a source come together", "a missing source or name sorts behind every present one"],
        stages: |thorough| {
            let depth = if thorough { 7 } else { 6 };
            vec![
                stage("sequences", format!("every sequence of {depth} steps, each an addition of one of {} mappings or a read; walked and read twice at the end", alphabet().len()), move |ch| {
                    let a = alphabet();
                    let mut l = MappingList::new();
                    let mut held = vec![];
                    for _ in 0..depth {
                        let k = ch.pick(a.len() + 1);
                        ch.step();
                        if k < a.len() {
                            l.add(a[k].real());
                            held.push(a[k].clone());
                        } else {
                            let r = read(&mut l)?;
                            ensure!(r == sorted(&held), "read in the middle: {r:?}, held (in order of adding) {held:?}");
                        }
                    }
                    ch.log(|| format!("added {held:?}"));
                    let want = sorted(&held);
                    ch.state(&want);
                    let w = walk(&l)?;
                    ensure!(w == want, "unsorted_for_each shows {w:?} after adding {held:?}");
                    let r = read(&mut l)?;
                    ch.steps(4);
                    ensure!(r == want, "to_array gives {r:?} after adding {held:?}");
                    let r = read(&mut l)?;
                    ensure!(r == want, "second to_array gives {r:?} after adding {held:?}");
                    let w = walk(&l)?;
                    ensure!(w == want, "unsorted_for_each after reading shows {w:?} after adding {held:?}");
                    ch.outcome(&want);
                    Ok(())
                }),
                stage("long", "0..=150 mappings in 8 layouts (increasing, decreasing, all equal, saw-tooth, one late straggler at each place, interleaved), read after every k-th addition", |ch| {
                    let n = ch.pick(151) as i32;
                    let lay = ch.pick(8);
                    let every = *ch.of(&[0, 1, 7, 50]);
                    let mut l = MappingList::new();
                    let mut held = vec![];
                    for i in 0..n {
                        let x = match lay {
                            0 => m(1 + i / 10, i % 10, Some((1, i, "a")), None),
                            1 => m(1 + (n - i) / 10, (n - i) % 10, Some((1, i, "a")), None),
                            2 => m(3, 3, Some((2, 2, "a")), Some("n")),
                            3 => m(1 + i % 7, i, None, None),
                            4 => m(1, if i == n - 1 { 0 } else { i + 1 }, None, None),
                            5 => m(1, if i == n / 2 { 0 } else { i + 1 }, Some((1, 1, if i % 2 == 0 { "a" } else { "b" })), None),
                            6 => m(1, 0, Some((1, (i * 7) % 13, "a")), if i % 3 == 0 { Some("n") } else { None }),
                            _ => m(1 + (i * 31) % 17, (i * 11) % 5, Some((1 + i % 2, i, "c")), None),
                        };
                        l.add(x.real());
                        held.push(x);
                        ch.step();
                        if every > 0 && i % every == 0 {
                            let r = read(&mut l)?;
                            ensure!(r == sorted(&held), "after {} additions of layout {lay}, read every {every}: {r:?}", i + 1);
                        }
                    }
                    ch.state(&(n, lay, every));
                    let r = read(&mut l)?;
                    ensure!(r == sorted(&held), "after {n} additions of layout {lay}, read every {every}: {r:?}");
                    Ok(())
                }),
                stage("sizes", format!("{PATTERNS} regular sequences of {:?} additions, and sources and names that differ behind 300 characters only; read once in the middle or not", mc::cons::SIZES), |ch| {
                    let ms = sized(ch);
                    let mid = ch.flag();
                    let mut l = MappingList::new();
                    for (i, x) in ms.iter().enumerate() {
                        l.add(x.real());
                        ch.step();
                        if mid && i == ms.len() / 2 {
                            ensure!(read(&mut l)? == sorted(&ms[..=i]), "after {} of {} additions", i + 1, ms.len());
                        }
                    }
                    ch.state(&ms);
                    ensure!(read(&mut l)? == sorted(&ms), "after {} additions, read before: {mid}", ms.len());
                    ensure!(walk(&l)? == sorted(&ms), "unsorted_for_each after {} additions", ms.len());
                    Ok(())
                }),
                stage("texts", texts_bound(&TEXTS), |ch| {
                    let ms = texts(ch, &TEXTS);
                    let mut l = MappingList::new();
                    for x in &ms {
                        l.add(x.real());
                        ch.step();
                    }
                    ch.state(&ms);
                    ensure!(read(&mut l)? == sorted(&ms), "to_array after adding {ms:?}");
                    for a in &ms {
                        for b in &ms {
                            let got = must("compare", || cmp(&a.real(), &b.real()))?;
                            ensure!(sign(got) == order(a, b), "comparison of {a:?} with {b:?} is {got}");
                        }
                    }
                    Ok(())
                }),
                stage("carrying", format!("every sequence of 3 additions, read in the middle or not: {CARRYING}; compared with each other"), |ch| {
                    let mid = ch.pick(4);
                    let (ms, _carry) = carrying(ch, 3);
                    let mut l = MappingList::new();
                    let real: Vec<Mapping> = ms.iter().map(|x| x.real()).collect();
                    for (i, x) in real.iter().enumerate() {
                        l.add(x.clone());
                        ch.step();
                        if i == mid {
                            let _ = read(&mut l)?;
                        }
                    }
                    ch.state(&(&ms, real.iter().map(|x| x.last_generated_column).collect::<Vec<_>>()));
                    ensure!(read(&mut l)? == sorted(&ms), "to_array after adding {real:?}");
                    let mut got: Vec<Option<i32>> = l.to_array().iter().map(|x| x.last_generated_column).collect();
                    let mut want: Vec<Option<i32>> = real.iter().map(|x| x.last_generated_column).collect();
                    got.sort();
                    want.sort();
                    ensure!(got == want, "to_array after adding {real:?} carries {got:?}");
                    for (a, x) in real.iter().zip(&ms) {
                        for (b, y) in real.iter().zip(&ms) {
                            let got = must("compare", || cmp(a, b))?;
                            ensure!(order(x, y) == Ordering::Equal || sign(got) == order(x, y), "comparison of {a:?} with {b:?} is {got}");
                        }
                    }
                    Ok(())
                }),
                stage("paths", texts_bound(&PATHS), |ch| {
                    let ms = texts(ch, &PATHS);
                    let mut l = MappingList::new();
                    for x in &ms {
                        l.add(x.real());
                        ch.step();
                    }
                    ch.state(&ms);
                    ensure!(read(&mut l)? == sorted(&ms), "to_array after adding {ms:?}");
                    Ok(())
                }),
                stage("comparison", format!("every pair of {} mappings with small and extreme positions: sign agrees with the order by fields, so it is total, antisymmetric, transitive, and zero only for equal mappings", fields().len()), |ch| {
                    let f = fields();
                    let (i, j) = (ch.pick(f.len()), ch.pick(f.len()));
                    let (a, b) = (&f[i], &f[j]);
                    ch.state(&(i, j));
                    ch.step();
                    let got = must("compare", || cmp(&a.real(), &b.real()))?;
                    ch.log(|| format!("compare {a:?} with {b:?}: {got}"));
                    ch.outcome(&got);
                    ensure!(sign(got) == order(a, b), "comparison of {a:?} with {b:?} is {got}");
                    Ok(())
                }),
                stage("strings", "every pair of 36 texts and an absent one", |ch| {
                    let base = ["", "a", "b", "aa", "ab", "A", "\u{e9}", "\u{1f600}", "z"];
                    let mut all: Vec<Option<String>> = vec![None];
                    for x in base {
                        for y in ["", "a", "\u{e9}", "~"] {
                            all.push(Some(format!("{x}{y}")));
                        }
                    }
                    let (a, b) = (ch.of(&all).clone(), ch.of(&all).clone());
                    ch.state(&(&a, &b));
                    ch.step();
                    let got = must("strcmp", || strcmp(a.clone(), b.clone()))?;
                    ch.outcome(&got);
                    ensure!(sign(got) == opt(&a, &b), "strcmp({a:?}, {b:?}) is {got}");
                    Ok(())
                }),
            ]
        },
    });
}
