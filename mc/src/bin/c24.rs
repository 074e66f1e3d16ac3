//! C24: the indexed string set against a list.
use mc::cons::full;
use mc::*;
use rusty_source_map::array_set::ArraySet;

const NAMES: [&str; 6] = ["a", "b", "", "A", "ab", "__proto__"];

fn same(ch: &mut Ch, s: &ArraySet, want: &[String], probes: &[String], what: &dyn Fn() -> String) -> Res {
    let n = want.len();
    let mut distinct: Vec<&String> = want.iter().collect();
    distinct.sort();
    distinct.dedup();
    full(s.to_vec(), want.to_vec(), || format!("to_vec {}", what()))?;
    full(s.size(), distinct.len(), || format!("size {}", what()))?;
    ch.steps(2);
    for p in probes {
        full(s.has(p.clone()), want.contains(p), || format!("has({p:?}) {}", what()))?;
        full(s.index_of(p.clone()), want.iter().position(|x| x == p), || format!("index_of({p:?}) {}", what()))?;
        ch.steps(2);
    }
    for i in (-2..n as i32 + 3).chain([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 1 << 16, 256 + n as i32]) {
        full(s.at(i), if i < 0 { None } else { want.get(i as usize).cloned() }, || format!("at({i}) {}", what()))?;
        ch.step();
    }
    ch.outcome(&want);
    Ok(())
}
fn put(l: &mut Vec<String>, s: &str, dup: bool) {
    if dup || !l.iter().any(|x| x == s) {
        l.push(s.to_string());
    }
}
fn main() {
    run::main(Prop {
        id: "C24",
        rule: "state = one list of stored elements; transition = one public query compared with the list; trace = one sequence of additions on one real set (observed after every addition), then a clone and a handed-out list modified",
        assumptions: vec!["sets of fewer than 2^31 elements"],
        stages: |thorough| {
            let depth = if thorough { 9 } else { 7 };
            vec![
                stage("sequences", format!("every sequence of {depth} additions of {:?} with and without duplicates allowed", &NAMES[..3]), move |ch| {
                    let mut s = ArraySet::new();
                    let mut l = vec![];
                    let probes: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
                    let mut trace = vec![];
                    same(ch, &s, &l, &probes, &|| "of the empty set".into())?;
                    for _ in 0..depth {
                        let k = ch.pick(6);
                        let (x, dup) = (NAMES[k / 2], k % 2 == 1);
                        trace.push((x, dup));
                        must("add", || s.add(x.to_string(), dup))?;
                        put(&mut l, x, dup);
                        ch.state(&l);
                        ch.step();
                        same(ch, &s, &l, &probes, &|| format!("after adding {trace:?}"))?;
                    }
                    ch.log(|| format!("add {trace:?}: {l:?}"));
                    // copies do not alias the set
                    let mut copy = s.clone();
                    copy.add("zz".into(), true);
                    copy.add("a".into(), true);
                    let mut v = s.to_vec();
                    v.clear();
                    same(ch, &s, &l, &probes, &|| format!("after changing copies of the set of {trace:?}"))?;
                    let mut lc = l.clone();
                    put(&mut lc, "zz", true);
                    put(&mut lc, "a", true);
                    same(ch, &copy, &lc, &probes, &|| format!("of a copy of the set of {trace:?}, extended"))?;
                    s.add("yy".into(), false);
                    same(ch, &copy, &lc, &probes, &|| format!("of a copy of the set of {trace:?}, after extending the original"))
                }),
                stage("from-array", format!("every list of 0..={} strings from {NAMES:?}, built with from_array with and without duplicates, then one more addition", depth - 1), move |ch| {
                    let n = ch.pick(depth);
                    let dup = ch.flag();
                    let xs: Vec<String> = (0..n).map(|_| ch.of(&NAMES).to_string()).collect();
                    let probes: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
                    let mut s = must("from_array", || ArraySet::from_array(xs.clone(), dup))?;
                    let mut l = vec![];
                    xs.iter().for_each(|x| put(&mut l, x, dup));
                    ch.log(|| format!("from_array({xs:?}, {dup})"));
                    ch.state(&l);
                    same(ch, &s, &l, &probes, &|| format!("of from_array({xs:?}, {dup})"))?;
                    for (x, d) in [("b", false), ("ab", true)] {
                        s.add(x.into(), d);
                        put(&mut l, x, d);
                        same(ch, &s, &l, &probes, &|| format!("of from_array({xs:?}, {dup}) after adding {x:?}, {d}"))?;
                    }
                    Ok(())
                }),
                stage("pairs", format!("sets of every two of 34 texts (blank, empty, differing in case, blanks, accents, percent signs, prefixes, long) in both orders, with a third one between or not; all 34 asked for"), |ch| {
                    let mut t: Vec<String> = ["", " ", "  ", "\t", "\n", "\r\n", "\0", "a", "A", " a", "a ", "a\n", "aa", "a/", "/a", "./a", "a.", "\u{e9}", "e\u{301}", "E", "\u{c9}", "ss", "\u{df}", "\u{feff}a", "\u{feff}", "%61", "a%20", "0", "00", "-1", "\u{ff41}", "\u{1f600}"].iter().map(|s| s.to_string()).collect();
                    t.push("a".repeat(300));
                    t.push("a".repeat(301));
                    let mut s = ArraySet::new();
                    let mut l = vec![];
                    let (i, j, mid, dup) = (ch.pick(34), ch.pick(34), ch.flag(), ch.flag());
                    for x in [Some(&t[i]), Some(&"mid".to_string()).filter(|_| mid), Some(&t[j])].into_iter().flatten() {
                        must("add", || s.add(x.clone(), dup))?;
                        put(&mut l, x, dup);
                        ch.step();
                    }
                    ch.log(|| format!("add {l:?}"));
                    ch.state(&l);
                    same(ch, &s, &l, &t, &|| format!("after adding {l:?}"))
                }),
                stage("long", "1..=300 additions, every period 1..=24 of repetition, duplicates allowed never, always or every third time", |ch| {
                    let n = 1 + ch.pick(300);
                    let per = 1 + if n % 10 == 0 { ch.pick(24) } else { [0, 2, 16, 298][ch.pick(4)] };
                    let mode = ch.pick(3);
                    let mut s = ArraySet::new();
                    let mut l = vec![];
                    for i in 0..n {
                        let x = format!("n{}", i % per);
                        let dup = mode == 1 || (mode == 2 && i % 3 == 0);
                        s.add(x.clone(), dup);
                        put(&mut l, &x, dup);
                    }
                    ch.state(&(n, per, mode));
                    let probes: Vec<String> = (0..per.min(n) + 1).map(|i| format!("n{i}")).collect();
                    same(ch, &s, &l, &probes, &|| format!("after {n} additions of period {per}, mode {mode}"))
                }),
                stage("sizes", format!("{:?} additions, distinct, or repeating half or all but one; texts of 3 to 300 characters with common beginnings; observed at the end at places thinned out", [&mc::cons::SIZES[..], &mc::cons::HUGE[..]].concat()), |ch| {
                    let n = *ch.of(&[&mc::cons::SIZES[..], &mc::cons::HUGE[..]].concat());
                    let per = *ch.of(&[n, n / 2, n - 1]);
                    let mode = ch.pick(3);
                    let pre = "p".repeat(*ch.of(&[1, 100, 300]));
                    let name = |i: usize| format!("{pre}{}", i % per);
                    let mut s = ArraySet::new();
                    let mut l: Vec<String> = vec![];
                    let mut first = std::collections::HashMap::new();
                    for i in 0..n {
                        let dup = mode == 1 || (mode == 2 && i % 3 == 0);
                        let x = name(i);
                        s.add(x.clone(), dup);
                        if dup || !first.contains_key(&x) {
                            first.entry(x.clone()).or_insert(l.len());
                            l.push(x);
                        }
                        ch.step();
                    }
                    ch.state(&(n, per, mode, &pre));
                    let what = || format!("{n} additions of period {per}, mode {mode}, texts {pre:?} + number");
                    full(s.size(), first.len(), || format!("size after {}", what()))?;
                    ensure!(s.to_vec() == l, "to_vec after {}", what());
                    for i in mc::cons::thin_out((0..n + 2).collect::<Vec<_>>()) {
                        let x = format!("{pre}{i}");
                        full(s.has(x.clone()), first.contains_key(&x), || format!("has({x:?}) after {}", what()))?;
                        full(s.index_of(x.clone()), first.get(&x).cloned(), || format!("index_of({x:?}) after {}", what()))?;
                        full(s.at(i as i32), l.get(i).cloned(), || format!("at({i}) after {}", what()))?;
                        ch.steps(3);
                    }
                    Ok(())
                }),
            ]
        },
    });
}
