//! C07: the emitted document is valid JSON and preserves all text.
use mc::cons::*;
use mc::gen::*;
use mc::*;
use serde_json::{json, Value};

#[derive(Clone, Debug, Hash, Default)]
struct Fields {
    file: Option<String>,
    root: Option<String>,
    sources: Vec<String>,
    names: Vec<String>,
    contents: Vec<Option<String>>,
}
fn check(ch: &mut Ch, f: &Fields, reopen: bool) -> Res {
    ch.log(|| format!("{f:?}"));
    ch.state(f);
    let mut g = new_gen(f.file.as_deref(), f.root.as_deref(), false);
    for (i, s) in f.sources.iter().enumerate() {
        add(&mut g, &M { g: (1, i as i32), o: Some((1, 0, s.clone())), name: f.names.get(i).cloned() })?;
        ch.step();
    }
    let mut want = json!({"version": 3, "sources": f.sources, "names": f.names});
    if let Some(x) = &f.file {
        want["file"] = json!(x);
    }
    if let Some(x) = &f.root {
        want["sourceRoot"] = json!(x);
    }
    for (s, c) in f.sources.iter().zip(&f.contents) {
        if c.is_some() {
            must("set_source_content", || g.set_source_content(s.clone(), c.clone()))?;
        }
    }
    if f.contents.iter().any(|c| c.is_some()) {
        want["sourcesContent"] = json!(f.contents);
    }
    let text = emit(&mut g)?;
    ch.step();
    ch.outcome(&text);
    let got: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => viol!("emitted text is not JSON ({e}): {text}"),
    };
    want["mappings"] = got["mappings"].clone();
    ensure!(want["mappings"].is_string(), "no mappings in {text}");
    ensure!(got == want, "supplied {f:?}, emitted {text}, expected {want}");
    if reopen {
        let c = open_basic(&text, None)?;
        ch.step();
        let again = serde_json::to_value(&c.source_map).map_err(|e| Viol(format!("cannot serialise the opened document: {e}")))?;
        ensure!(again == got, "opened and serialised again: {again}, was {got}");
        // as the section of an indexed map
        let ij = indexed_json(&[((0, 0), text.clone()), ((5, 3), text.clone())]);
        let c = open_indexed(&ij, None)?;
        let again = serde_json::to_value(&c.source_map).map_err(|e| Viol(format!("cannot serialise the opened document: {e}")))?;
        ensure!(again == serde_json::from_str::<Value>(&ij).unwrap(), "opened and serialised again: {again}, was {ij}");
        ch.step();
    }
    Ok(())
}
fn opt(s: &str) -> Option<String> {
    Some(s.to_string())
}
fn main() {
    run::main(Prop {
        id: "C07",
        rule: "state = one choice of texts for all fields; transition = one call on the real generator or consumer; trace = emit, parse, compare, reopen (alone and as sections), serialise, compare",
        assumptions: vec!["independent JSON parser: serde_json (trusted, it is also what the code uses)", "source texts that no URL parser accepts (such as '//') are not reopened"],
        stages: |thorough| {
            let mut v = vec![];
            let blk = 64u32;
            let blocks = (0x110000 / blk) as usize;
            v.push(stage("all-characters", "every Unicode scalar value in every string field (blocks of 64)", move |ch| {
                let b = ch.pick(blocks) as u32;
                let s: String = (b * blk..(b + 1) * blk).filter_map(char::from_u32).collect();
                if s.is_empty() {
                    return Ok(());
                }
                let f = Fields {
                    file: opt(&s),
                    root: opt(&format!("r/{s}")),
                    sources: vec![format!("x/{s}"), "plain.js".into()],
                    names: vec![s.clone(), format!("{s}{s}")],
                    contents: vec![opt(&s), opt(&format!("{s}\n{s}"))],
                };
                check(ch, &f, true)
            }));
            v.push(stage("single-characters", "every one of the first 768 characters alone in every string field", move |ch| {
                let Some(c) = char::from_u32(ch.pick(768) as u32) else { return Ok(()) };
                let s = c.to_string();
                let f = Fields { file: opt(&s), root: opt(&format!("r{s}")), sources: vec![format!("x{s}")], names: vec![s.clone()], contents: vec![opt(&s)] };
                check(ch, &f, c != ':')?;
                let f = Fields { file: opt(&s), root: opt(&s), sources: vec![s.clone()], names: vec![s.clone()], contents: vec![opt(&s)] };
                check(ch, &f, c != ':')
            }));
            let texts: Vec<&'static str> = vec!["", "a", "\"", "\\", "\\\"", "\u{0}", "\n\r\t", "\u{2028}", "é", "😀", "</script>", "null", "\\u0041", "a b", "{\"x\":1}", "\u{7f}\u{80}\u{feff}", "%41%zz"];
            let t2 = texts.clone();
            v.push(stage("fields", format!("every combination of texts {texts:?} or absent for file, root, name and content"), move |ch| {
                let o = |ch: &mut Ch| -> Option<String> {
                    let k = ch.pick(texts.len() + 1);
                    if k == 0 { None } else { opt(texts[k - 1]) }
                };
                let f = Fields { file: o(ch), root: o(ch), sources: vec!["s.js".into()], names: o(ch).into_iter().collect(), contents: vec![o(ch)] };
                check(ch, &f, true)
            }));
            let n = if thorough { 3 } else { 2 };
            v.push(stage("lists", format!("{n} sources, names and contents from {t2:?}, pairwise distinct names and sources, contents present or null"), move |ch| {
                let root = *ch.of(&[None, Some("/r")]);
                let mut f = Fields { file: opt("f"), root: root.map(|s| s.into()), ..Default::default() };
                for i in 0..n {
                    let k = ch.pick(t2.len());
                    f.sources.push(format!("s/{i}{}", t2[k]));
                    f.names.push(format!("{}{i}", t2[(k + 5) % t2.len()]));
                    f.contents.push(if ch.flag() { Some(t2[(k * 3 + i) % t2.len()].into()) } else { None });
                }
                check(ch, &f, true)
            }));
            let hard: Vec<char> = "\r\n\t \"\\/'<&{[:,%#?.a0\u{feff}\u{2028}\u{0}\u{7f}\u{a0}\u{e9}\u{301}\u{1f600}\u{fffd}\u{1b}".chars().collect();
            let len = if thorough { 3 } else { 2 };
            v.push(stage("short-texts", format!("every text of up to {len} of the characters {hard:?}, in every field at once, and in all but the URLs"), move |ch| {
                let n = 1 + ch.pick(len);
                let t: String = (0..n).map(|_| *ch.of(&hard)).collect();
                let url = !t.contains(':') && t.chars().filter(|c| *c == '/' || *c == '\\').count() < 2;
                let mut f = Fields { file: opt(&t), root: opt(&t), sources: vec![t.clone(), "b".into()], names: vec![t.clone()], contents: vec![None, None] };
                // a text that no URL parser accepts is neither joined nor reopened
                if url {
                    f.contents = vec![opt(&t), opt(&format!("b{t}"))];
                }
                check(ch, &f, url)?;
                f.root = opt("r");
                f.sources = vec!["s.js".into(), "b".into()];
                f.contents = vec![opt(&t), None];
                check(ch, &f, true)
            }));
            v.push(stage("lengths", "one field (file, root, source, name or content) of every length 0..=300 and around powers of two up to 2^17, of 5 repeated characters", |ch| {
                let k = ch.pick(301 + 9 * 3);
                let len = if k <= 300 { k } else { (512usize << ((k - 301) / 3)) + (k - 301) % 3 - 1 };
                let t = ch.of(&["a", "\u{e9}", "\u{1f600}", "\"", "/"]).repeat(len);
                let mut f = Fields { file: opt("f"), root: opt("r"), sources: vec!["s.js".into()], names: vec!["n".into()], contents: vec![opt("c")] };
                match ch.pick(5) {
                    0 => f.file = Some(t),
                    1 => f.root = Some(t),
                    2 => f.sources[0] = format!("x{t}"),
                    3 => f.names[0] = t,
                    _ => f.contents[0] = Some(t),
                }
                // a URL of nothing but slashes is none
                let reopen = !f.root.as_ref().map_or(false, |r| r.starts_with("//"));
                check(ch, &f, reopen)
            }));
            v.push(stage("many", format!("{SIZES:?} sources, names and contents, of 300 equal characters first or not"), |ch| {
                let n = *ch.of(&SIZES);
                let pre = if n <= 1025 && ch.flag() { "p".repeat(300) } else { "".into() };
                let f = Fields {
                    file: None,
                    root: None,
                    sources: (0..n).map(|i| format!("{pre}s{i}")).collect(),
                    names: (0..n).map(|i| format!("{pre}n{i}")).collect(),
                    contents: (0..n).map(|i| if i % 7 == 3 { None } else { Some(format!("{pre}c{i}")) }).collect(),
                };
                check(ch, &f, true)
            }));
            v
        },
    });
}
