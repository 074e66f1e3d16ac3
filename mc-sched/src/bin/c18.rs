//! C18: opening an indexed map under every schedule of its parallel workers.
use mc::cons::*;
use mc::*;
use mc_sched::*;
use rusty_source_map::consumer::*;

#[global_allocator]
static ALLOC: Alloc = Alloc;

#[derive(Clone, Debug)]
struct Input {
    json: String,
    /// None = must be refused
    m: Option<IModel>,
}
fn digest(c: &mut IndexedConsumer, m: &IModel) -> Result<String, Viol> {
    let mut s = String::new();
    let (l, k) = m.grid();
    for l in &l {
        for k in &k {
            s += &format!("{:?}", must("original_position_for", || c.original_position_for(pos(*l, *k), None).map(Ans::of))?);
        }
    }
    for x in &m.secs {
        for u in &x.m.urls {
            s += &format!("{:?}", must("all_generated_position_for", || c.all_generated_position_for(u, 1, None).iter().map(raw).collect::<Vec<_>>())?);
            s += &format!("{:?}", call(|| c.source_content_for(u, None)).ok());
        }
    }
    Ok(s)
}
fn verify(ch: &mut Ch, i: &Input, got: Result<Consumer, String>, deep: bool) -> Result<Option<String>, Viol> {
    let (mut c, m) = match (got, &i.m) {
        (Err(_), None) => return Ok(None),
        (Err(p), Some(_)) => viol!("opening {} panics: {p}", i.json),
        (Ok(_), None) => viol!("opening {} succeeds; it must be refused", i.json),
        (Ok(Consumer::BasicConsumer(_)), Some(_)) => viol!("opening {} gives a basic consumer", i.json),
        (Ok(Consumer::IndexedConsumer(c)), Some(m)) => (c, m),
    };
    let want: Vec<String> = m.secs.iter().flat_map(|s| s.m.urls.clone()).collect();
    full(must("get_sources", || c.get_sources())?, want, || format!("sources of {}", i.json))?;
    let e: Vec<sm::Seg> = enumerate(&mut c, IterOrd::GeneratedOrd)?.iter().map(|r| r.seg).collect();
    // section maps have no two segments at one position
    let want: Vec<sm::Seg> = m.secs.iter().flat_map(|s| s.m.segs.iter().map(|g| shift_seg(s.off, *g)).collect::<Vec<_>>()).collect();
    full(e, want, || format!("mappings of {}", i.json))?;
    ch.steps(3);
    if deep {
        Ok(Some(digest(&mut c, m)?))
    } else {
        Ok(None)
    }
}
fn open_in(json: &str) -> Consumer {
    create_consumer(json, Some("http://h/d/m.map")).expect("refused as JSON")
}

const OFFS: [(i32, i32); 6] = [(0, 0), (0, 6), (1, 0), (9, 4), (2, 4), (0, 7)];
fn section(k: usize, off: (i32, i32), version: i32, url: bool, nested_root: bool) -> ((u32, u32), Doc, String) {
    let o = |src, line, col| Some(sm::Orig { src, line, col, name: Some(k as u32 % 2) });
    let g = |line, col, orig| sm::Seg { line, col, orig };
    let segs = match k % 3 {
        0 => vec![g(0, 0, o(0, k as u32, 1))],
        1 => vec![g(0, 1, o(1, k as u32, 0)), g(0, 3, None)],
        _ => vec![g(0, 2, o(1, 0, 0)), g(1, 0, o(0, k as u32, 7))],
    };
    let mut d = sec_doc(&segs, k, true);
    if nested_root {
        d.root = Some("r".into());
        d.contents = Some(vec![Some(format!("own {k}")), Some(format!("shared {k}"))]);
    }
    let mut map = d.json();
    if version != 3 {
        map = map.replacen("\"version\":3", &format!("\"version\":{version}"), 1);
    }
    let u = if url { ",\"url\":\"http://h/x.map\"" } else { "" };
    let text = format!("{{\"offset\":{{\"line\":{},\"column\":{}}},\"map\":{map}{u}}}", off.0, off.1);
    ((off.0 as u32, off.1 as u32), d, text)
}
/// version, and per section: offset, version, by url
fn input(version: i32, parts: &[((i32, i32), i32, bool)], root: bool) -> Input {
    let secs: Vec<_> = parts.iter().enumerate().map(|(k, (o, v, u))| section(k, *o, *v, *u, root)).collect();
    let json = format!("{{\"version\":{version},\"sections\":[{}]}}", secs.iter().map(|s| s.2.clone()).collect::<Vec<_>>().join(","));
    let ok = version == 3
        && parts.windows(2).all(|w| w[0].0 <= w[1].0)
        && parts.iter().all(|p| !p.2 && p.1 == 3);
    let m = IModel {
        secs: secs
            .iter()
            .map(|(off, d, _)| Sec { off: *off, m: d.model(Some("http://h/d/m.map")), d: d.clone() })
            .collect(),
        json: json.clone(),
        url: Some("http://h/d/m.map".into()),
    };
    Input { json, m: Some(m).filter(|_| ok) }
}
fn explore_one(ch: &mut Ch, i: &Input, plan: &Plan, deep: bool) -> Res {
    let json = i.json.clone();
    let (got, tr) = run(ch, plan, move || Box::new(Sendable(open_in(&json))));
    ch.log(|| format!("open {} with {plan:?}: tasks ran in order {:?}, {} allocations", i.json, tr.order, tr.allocs));
    ch.steps(tr.switches);
    ch.state(&(&i.json, &tr.order));
    ch.outcome(&got.is_ok());
    let d = verify(ch, i, got.map(|c| c.0), deep)?;
    if let Some(d) = d {
        let json = i.json.clone();
        let seq = Plan { threads: 1, migrate: false, inline: Some(Inline::First), preempt: vec![], fixed: None };
        let (got, _) = run(ch, &seq, move || Box::new(Sendable(open_in(&json))));
        let e = verify(ch, i, got.map(|c| c.0), true)?;
        full(Some(d), e, || format!("answers of {} under schedule {:?} against the sequential one", i.json, tr.order))?;
    }
    Ok(())
}
struct Sendable<T>(T);
unsafe impl<T> Send for Sendable<T> {}

fn main() {
    // lazily built tables are built once, before anything is explored
    let _ = std::panic::catch_unwind(|| open_in(&input(3, &[((0, 0), 3, false)], true).json));
    run::main(Prop {
        id: "C18",
        rule: "state = one (document, order in which tasks ran); transition = one scheduling decision or one comparison of the opened consumer with the reference; trace = one schedule of the real parallel code on one document",
        assumptions: vec![
            "rayon itself is replaced at its join entry point: tasks run on threads of their own, one at a time, switched at forks, ends of tasks and (bounded) allocations",
            "parallel work started by other means than rayon's join (scopes, spawned threads) runs as it is, uncontrolled",
        ],
        stages: |thorough| {
            let full_plan = Plan { threads: 8, migrate: true, inline: None, preempt: vec![], fixed: None };
            let mut v = vec![];
            for n in 0..=3usize {
                let p = full_plan.clone();
                v.push(stage(format!("order-{n}"), format!("every document of {n} sections with every choice of offset from {OFFS:?}, sources contents and root or not; every schedule"), move |ch| {
                    let parts: Vec<_> = (0..n).map(|_| (*ch.of(&OFFS[..if n == 3 { 4 } else { 6 }]), 3, false)).collect();
                    let root = ch.flag();
                    explore_one(ch, &input(3, &parts, root), &p, n <= 2)
                }));
            }
            let p = full_plan.clone();
            v.push(stage("versions", "1..=3 sections, ordered or last one out of order; top-level version 3, 2 or 4; one section of another version, one given by URL, or none; every schedule", move |ch| {
                let n = 1 + ch.pick(3);
                let mut parts: Vec<_> = (0..n).map(|k| (OFFS[k], 3, false)).collect();
                if n > 1 && ch.flag() {
                    parts[n - 1].0 = (-1, 7);
                }
                let version = *ch.of(&[3, 2, 4]);
                match ch.pick(1 + 2 * n) {
                    0 => (),
                    k if k <= n => parts[k - 1].1 = 2,
                    k => parts[k - n - 1].2 = true,
                }
                explore_one(ch, &input(version, &parts, false), &p, false)
            }));
            v.push(stage("contents", "1..=3 sections whose maps have no mappings, no sources, separators only, a file name, a nested field of another version, or nothing of that; one of them of version 3, 2, 4, 0, -3 or 33 or by URL; each side of a join first", |ch| {
                let n = 1 + ch.pick(3);
                let bad = ch.pick(n);
                let fault = ch.pick(7);
                let version = [3, 2, 4, 0, -3, 33, 3][fault];
                let parts: Vec<_> = (0..n).map(|k| (OFFS[k], 3, fault == 6 && k == bad)).collect();
                let mut secs = vec![];
                for k in 0..n {
                    let ((l, c), mut d, _) = section(k, OFFS[k], 3, false, false);
                    match ch.pick(6) {
                        0 => (),
                        1 => d.mappings = String::new(),
                        2 => {
                            d.mappings = ";;A,C".into();
                            d.sources.clear();
                            d.contents = None;
                        }
                        3 => d.mappings = ";,;".into(),
                        4 => d.contents = Some(vec![]),
                        _ => d.names.clear(),
                    }
                    if d.names.is_empty() {
                        d.mappings = "AAAA".into();
                    }
                    let extra = if ch.flag() { ",\"file\":\"f\",\"x\":{\"version\":3}" } else { "" };
                    let mut map = d.json();
                    map.insert_str(map.len() - 1, extra);
                    if k == bad {
                        map = map.replacen("\"version\":3", &format!("\"version\":{version}"), 1);
                    }
                    let u = if parts[k].2 { ",\"url\":\"http://h/x.map\"" } else { "" };
                    secs.push(((l, c), d, format!("{{\"offset\":{{\"line\":{l},\"column\":{c}}},\"map\":{map}{u}}}")));
                }
                let json = format!("{{\"version\":3,\"sections\":[{}]}}", secs.iter().map(|s| s.2.clone()).collect::<Vec<_>>().join(","));
                let m = IModel {
                    secs: secs.iter().map(|(off, d, _)| Sec { off: *off, m: d.model(Some("http://h/d/m.map")), d: d.clone() }).collect(),
                    json: json.clone(),
                    url: Some("http://h/d/m.map".into()),
                };
                let i = Input { json, m: Some(m).filter(|_| fault == 0) };
                let inline = *ch.of(&[Inline::First, Inline::Second]);
                explore_one(ch, &i, &Plan { threads: 4, migrate: true, inline: Some(inline), preempt: vec![], fixed: None }, false)
            }));
            let p = full_plan.clone();
            v.push(stage("order-4", "4 sections at every choice of offsets from 3; every schedule", move |ch| {
                let parts: Vec<_> = (0..4).map(|_| (*ch.of(&OFFS[..3]), 3, false)).collect();
                explore_one(ch, &input(3, &parts, false), &p, false)
            }));
            let top = if thorough { 6 } else { 5 };
            let p = full_plan.clone();
            v.push(stage(format!("order-{top}"), format!("5..={top} sections: in order, in order with equal offsets, swapped at one place; every schedule"), move |ch| {
                let n = 5 + ch.pick(top - 4);
                let mut parts: Vec<_> = (0..n).map(|k| ((k as i32 / 2, 9 * (k as i32 % 2)), 3, false)).collect();
                match ch.pick(n + 1) {
                    0 => (),
                    1 => parts[2].0 = parts[1].0,
                    k => parts.swap(k - 2, k - 1),
                }
                explore_one(ch, &input(3, &parts, true), &p, false)
            }));
            const MANY: [usize; 12] = [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];
            v.push(stage("pools", format!("1..=40 or {MANY:?} sections in order (next to each other, far apart, or all on one line), or swapped at one place (long lists: or of another version or by URL there); pools of 1, 2, 3, 4 and 8 threads, tasks stolen or not; both sides of each join one after the other: the first one first, the second one first, alternating"), |ch| {
                let k = ch.pick(40 + MANY.len());
                let n = if k < 40 { 1 + k } else { MANY[k - 40] };
                let threads = *ch.of(&[1, 2, 3, 4, 8]);
                let migrate = ch.flag();
                let gap = *ch.of(&[1, 50, 0]);
                let mut parts: Vec<_> = (0..n).map(|k| (if gap == 0 { (0, 9 * k as i32) } else { (gap * (k as i32 / 2), 9 * (k as i32 % 2)) }, 3, false)).collect();
                let at: Vec<usize> = if n <= 40 { (0..n).collect() } else { [0, 1, 31, 32, 33, 50, 63, 64, 65, 66, 99, 100, 127, 128, 129, n / 2, n - 1].into_iter().filter(|k| *k < n).collect() };
                let k = *ch.of(&at);
                if n <= 40 || k == 0 {
                    if k > 0 {
                        parts.swap(k - 1, k);
                    }
                } else {
                    match ch.pick(3) {
                        0 => parts.swap(k - 1, k),
                        1 => parts[k].1 = 2,
                        _ => parts[k].2 = true,
                    }
                }
                let inline = *ch.of(&[Inline::First, Inline::Second, Inline::Alternate]);
                let plan = Plan { threads, migrate, inline: Some(inline), preempt: vec![], fixed: None };
                explore_one(ch, &input(3, &parts, false), &plan, false)
            }));
            for n in 2..=3usize {
                let k = if n == 2 { 800 } else { 1120 };
                let deep = if thorough { 2 } else { 1 };
                v.push(stage(format!("preempt-{n}"), format!("{n} sections in order, or with the last one first; {deep} preemption(s), each at every one of the first {k} allocations (two: every 16th); otherwise oldest or youngest task first; the preempted task goes on next or last"), move |ch| {
                    let mut parts: Vec<_> = (0..n).map(|k| ((k as i32, 0), 3, false)).collect();
                    if ch.flag() {
                        parts.rotate_right(1);
                    }
                    let mut preempt = vec![ch.pick(k) as u64];
                    if deep == 2 && n == 2 {
                        preempt.push(16 * ch.pick(k / 16) as u64 + 3);
                    }
                    let fixed = Fixed { youngest: ch.flag(), target: ch.pick(n - 1), soon: ch.flag() };
                    let plan = Plan { threads: 8, migrate: true, inline: None, preempt, fixed: Some(fixed) };
                    explore_one(ch, &input(3, &parts, true), &plan, false)
                }));
            }
            v
        },
    });
}
