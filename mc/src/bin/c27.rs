//! C27: relative and joined paths are inverse and normalised.
use mc::*;
use rusty_source_map::util;

fn norm(s: &str) -> Result<String, Viol> {
    must(&format!("compute_source_url(None, {s:?}, None)"), || util::compute_source_url(None, s, None))
}
fn rel(a: &str, b: &str) -> Result<String, Viol> {
    must(&format!("relative({a:?}, {b:?})"), || util::relative(a.to_string(), b.to_string()))
}
fn join(a: &str, b: &str) -> Result<String, Viol> {
    must(&format!("join({a:?}, {b:?})"), || util::join(a, b))
}
fn strip(s: &str) -> (String, String) {
    let i = s.find(['?', '#']).unwrap_or(s.len());
    (s[..i].trim_end_matches('/').to_string(), s[i..].to_string())
}

fn pair(ch: &mut Ch, root: &str, target: &str) -> Res {
    let (ru, tu) = (url::parse(root), url::parse(target));
    ch.state(&(root, target));
    let n = norm(target)?;
    ch.step();
    full2(&n, &tu.text(), || format!("normalising {target:?}"))?;
    let nn = norm(&n)?;
    full2(&nn, &n, || format!("normalising {n:?} (from {target:?}) again"))?;
    let r = rel(root, target)?;
    ch.step();
    ch.outcome(&r);
    if !url::same_space(&ru, &tu) {
        full2(&r, &n, || format!("relative({root:?}, {target:?}), which have nothing in common"))?;
    } else if ru.ups == 0 {
        ensure!(url::kind_of(&r) == url::Kind::Rel, "relative({root:?}, {target:?}) = {r:?} is not a relative path");
        let back = join(root, &r)?;
        ch.step();
        // the directory itself and its ancestors may gain a trailing slash
        let dir: Vec<&String> = ru.segs.iter().filter(|s| !s.is_empty()).collect();
        let at: Vec<&String> = tu.segs.iter().filter(|s| !s.is_empty()).collect();
        let above = tu.ups > 0 && at.is_empty() || tu.ups == 0 && at.len() <= dir.len() && at[..] == dir[..at.len()];
        let ok = back == n || above && strip(&back) == strip(&n);
        ensure!(ok, "join({root:?}, relative({root:?}, {target:?}) = {r:?}) = {back:?}, expected {n:?}");
    }
    // joining, with and without the trailing slash of the directory
    let want = url::join(&ru, &tu).text();
    let a = join(root, &n)?;
    full2(&a, &want, || format!("join({root:?}, {n:?})"))?;
    ch.step();
    if !root.ends_with('/') && !root.is_empty() {
        let b = join(&format!("{root}/"), &n)?;
        full2(&b, &a, || format!("join({root:?} + '/', {n:?}) against join without the slash"))?;
        let r2 = rel(&format!("{root}/"), target)?;
        full2(&r2, &r, || format!("relative({root:?} + '/', {target:?}) against relative without the slash"))?;
        ch.steps(2);
    }
    Ok(())
}
fn full2(got: &str, want: &str, what: impl Fn() -> String) -> Res {
    ensure!(got == want, "{} gives {got:?}, expected {want:?}", what());
    Ok(())
}
const PRE: [&str; 10] = ["", "/", "http://h/", "http://h:81/", "//h/", "webpack:///", "http://h:82/", "https://h/", "http://u:p@h/", "file:///"];
const PRE2: [&str; 8] = ["http://h/", "http://u@h/", "http://v@h/", "http://u:p@h/", "http://u:q@h/", "http://:p@h/", "http://u@h:81/", "webpack://h/"];

fn main() {
    run::main(Prop {
        id: "C27",
        rule: "state = one pair of directory and target; transition = one relative, join or normalise call; trace = the laws checked on one pair",
        assumptions: vec![
            "reference URL model in mc/src/url.rs",
            "the inverse law is claimed for directories without leading '..', and up to a trailing slash when the target is the directory or one of its ancestors",
            "out of scope: empty path segments, percent-encoded dots, directories with query or fragment",
        ],
        stages: |thorough| {
            let mut v = vec![];
            let seg = ["a", "b", ".", "..", "A"];
            let (rn, tn) = if thorough { (4, 4) } else { (3, 3) };
            // same prefix for both: the interesting half
            for (i, pre) in PRE.iter().enumerate() {
                let roots = url::texts(&[pre], &seg, rn, &[""]);
                let targets = url::texts(&[pre], &seg, tn, if thorough { &[""][..] } else { &["", "?q/..#f"][..] });
                v.push(stage(format!("same-{i}"), format!("{} directories of up to {rn} segments x {} targets of up to {tn} segments below {pre:?}", roots.len(), targets.len()), move |ch| {
                    let r = ch.of(&roots);
                    let t = ch.of(&targets);
                    ch.log(|| format!("directory {r:?}, target {t:?}"));
                    pair(ch, r, t)
                }));
            }
            let roots = url::texts(&PRE, &["a", "..", ".", "p0"], 2, &[""]);
            let targets = url::texts(&PRE, &["a", "ab", "..", "p0"], 2, &["", "?q", "#f"]);
            v.push(stage("mixed", format!("{} directories x {} targets of all kinds", roots.len(), targets.len()), move |ch| {
                let r = ch.of(&roots);
                let t = ch.of(&targets);
                ch.log(|| format!("directory {r:?}, target {t:?}"));
                pair(ch, r, t)
            }));
            let tails = url::texts(&PRE, &["a", ".."], 2, &["?", "#", "?#", "??", "##", "?#x", "#?", "?x#", "?a?b", "#a#b", "?/../x"]);
            let dirs = url::texts(&PRE, &["a", ".."], 1, &[""]);
            v.push(stage("tails", format!("{} directories x {} targets of all kinds with queries and fragments that are empty or contain each other", dirs.len(), tails.len()), move |ch| {
                let r = ch.of(&dirs);
                let t = ch.of(&tails);
                ch.log(|| format!("directory {r:?}, target {t:?}"));
                pair(ch, r, t)
            }));
            let roots2 = url::texts(&PRE2, &["a", "..", "A"], 2, &[""]);
            let targets2 = url::texts(&PRE2, &["a", "b", ".."], 2, &["", "?q", "#f"]);
            v.push(stage("users", format!("{} directories x {} targets with and without user and password {PRE2:?}", roots2.len(), targets2.len()), move |ch| {
                let r = ch.of(&roots2);
                let t = ch.of(&targets2);
                ch.log(|| format!("directory {r:?}, target {t:?}"));
                pair(ch, r, t)
            }));
            let pre3 = ["", "/", "http://h/"];
            let seg3 = ["a", "A", "~", "%7E", "%7e", "%41", "%61", "%2f", "%2F", "%25", "%"];
            let roots3 = url::texts(&pre3, &seg3, 2, &[""]);
            let targets3 = url::texts(&pre3, &seg3, 2, &["", "?%41%"]);
            v.push(stage("percent", format!("{} directories x {} targets of up to 2 segments {seg3:?}", roots3.len(), targets3.len()), move |ch| {
                let r = ch.of(&roots3);
                let t = ch.of(&targets3);
                ch.log(|| format!("directory {r:?}, target {t:?}"));
                pair(ch, r, t)
            }));
            let n = if thorough { 7 } else { 5 };
            let deep = url::texts(&["", "/"], &["a", ".."], n, &[""]);
            v.push(stage("deep", format!("{0} x {0} paths of up to {n} segments 'a' and '..'", deep.len()), move |ch| {
                let r = ch.of(&deep);
                let t = ch.of(&deep);
                pair(ch, r, t)
            }));
            let chain = [1usize, 5, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300];
            v.push(stage("chains", format!("directory and target chains of {chain:?} segments each: names, names that differ in the middle or at the end only, '..', names and '..', names of 300 characters; 4 kinds"), move |ch| {
                let pre = *ch.of(&["", "/", "http://h/", "//h/"]);
                let down = |k: usize, s: &str| (0..k).map(|i| format!("{s}{i}/")).collect::<String>();
                let shape = |k: usize, n: usize| -> String {
                    match k {
                        0 => down(n, "a"),
                        1 => down(n, "a") + "z/",
                        2 => (0..n).map(|i| if i == n / 2 { "y/".into() } else { format!("a{i}/") }).collect(),
                        3 => down(n, "a") + &"../".repeat(n / 2) + "b/",
                        4 => down(n.min(20), &"x".repeat(300)),
                        5 => (0..n).map(|i| if i % 3 == 2 { "../".into() } else { format!("c{i}/./") }).collect(),
                        _ => "../".repeat(n) + "b/",
                    }
                };
                let (n, k) = (*ch.of(&chain), *ch.of(&chain));
                let r = format!("{pre}{}", shape(ch.pick(6), n).trim_end_matches('/'));
                let t = format!("{pre}{}{}", shape(ch.pick(7), k), ch.of(&["", "t.js"]));
                pair(ch, &r, &t)
            }));
            v
        },
    });
}
