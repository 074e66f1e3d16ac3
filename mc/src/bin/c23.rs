//! C23: binary search over a sorted list.
use mc::cons::full;
use mc::*;
use rusty_source_map::binary_search::{search, GREATEST_LOWER_BOUND, LEAST_UPPER_BOUND};

fn check(ch: &mut Ch, hay: &[i32], needle: i32) -> Res {
    // items carry an identity besides their key, to see which one is meant
    let items: Vec<(i32, usize)> = hay.iter().cloned().zip(0..).collect();
    // comparisons of different magnitude: only the sign may matter
    for scale in [1, 7] {
        for bias in [None, Some(GREATEST_LOWER_BOUND), Some(LEAST_UPPER_BOUND)] {
            let got = must("search", || search(needle, &items, |n, i| (n - i.0) * scale, |a, b| (a.0 - b.0) * scale, bias))?;
            ch.step();
            ch.outcome(&(hay.len(), got));
            let key = if hay.contains(&needle) {
                Some(needle)
            } else if bias == Some(LEAST_UPPER_BOUND) {
                hay.iter().cloned().filter(|x| *x > needle).min()
            } else {
                hay.iter().cloned().filter(|x| *x < needle).max()
            };
            let want = key.map_or(-1, |k| hay.iter().position(|x| *x == k).unwrap() as i32);
            full(got, want, || format!("search for {needle} in {hay:?} with bias {bias:?}"))?;
        }
    }
    Ok(())
}
fn main() {
    run::main(Prop {
        id: "C23",
        rule: "state = one (sorted list, needle); transition = one search with one bias compared with the linear reference; trace = the 6 searches for one needle in one list",
        assumptions: vec![],
        stages: |thorough| {
            let top = if thorough { 24 } else { 18 };
            let long = if thorough { 1500 } else { 400 };
            vec![
                stage("sorted-lists", format!("every sorted list of 0..={top} elements over {{1,3,5,7,9,11}}, every needle 0..=12"), move |ch| {
                    let n = ch.pick(top + 1);
                    let needle = ch.pick(13) as i32;
                    let mut hay: Vec<i32> = vec![];
                    for _ in 0..n {
                        let lo = hay.last().map_or(0, |l| (l - 1) / 2);
                        hay.push(2 * (lo + ch.pick((6 - lo) as usize) as i32) + 1);
                    }
                    ch.log(|| format!("search {needle} in {hay:?}"));
                    ch.state(&(&hay, needle));
                    check(ch, &hay, needle)
                }),
                stage("runs", "lists of 1..=5 runs of 1..=12 equal elements each, every needle in, between and outside the runs", |ch| {
                    let k = 1 + ch.pick(5);
                    let needle = ch.pick(2 * k + 1) as i32;
                    let hay: Vec<i32> = (0..k).flat_map(|i| {
                        let r = 1 + if k <= 3 { ch.pick(12) } else { [0, 1, 2, 5, 11][ch.pick(5)] };
                        vec![2 * i as i32 + 1; r]
                    }).collect();
                    ch.log(|| format!("search {needle} in {hay:?}"));
                    ch.state(&(&hay, needle));
                    check(ch, &hay, needle)
                }),
                stage("long", format!("0..={long} distinct elements (and with every third doubled), every needle in, between and outside"), move |ch| {
                    let n = ch.pick(long + 1) as i32;
                    let dup = ch.flag();
                    let hay: Vec<i32> = (0..n).map(|i| 2 * (if dup { i - (i % 3 == 1) as i32 } else { i }) + 1).collect();
                    let needle = ch.pick(2 * n as usize + 3) as i32;
                    ch.state(&(n, dup, needle));
                    check(ch, &hay, needle)
                }),
                stage("sizes", "lists of 1000, 1023..=1025, 4096, 4097, 32767..=32769, 65535..=65537, 131071..=131075, 200000 and 262147 elements, all distinct, or with runs of equal ones of length 2, 3, 300 or all; every needle next to a run's end for short lists, else thinned out", |ch| {
                    let n = *ch.of(&[1000, 1023, 1024, 1025, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 131074, 131075, 200000, 262147]);
                    let run = *ch.of(&[1, 2, 3, 300, n]);
                    let hay: Vec<i32> = (0..n).map(|i| 2 * (i / run) + 1).collect();
                    for needle in mc::cons::thin_out((0..2 * (n / run) + 4).collect()) {
                        check(ch, &hay, needle)?;
                    }
                    ch.state(&(n, run));
                    Ok(())
                }),
            ]
        },
    });
}
