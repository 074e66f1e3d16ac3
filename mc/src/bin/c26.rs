//! C26: opening picks the right consumer and refuses what is no v3 map.
use mc::cons::*;
use mc::*;
use rusty_source_map::consumer::*;
use rusty_source_map::source_map::SourceMapJson;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Opened {
    Err,
    Panic,
    Basic,
    Indexed,
}
const URLS: [Option<&str>; 7] = [None, Some("http://m/n/o.map"), Some("dir/o.map"), Some("dir/map"), Some("http://m/n/"), Some("/d/o?q=a/b#f"), Some("../o")];
fn kind(text: &str) -> Opened {
    match call(|| create_consumer(text, None)) {
        Ok(Ok(Consumer::BasicConsumer(_))) => Opened::Basic,
        Ok(Ok(Consumer::IndexedConsumer(_))) => Opened::Indexed,
        Ok(Err(_)) => Opened::Err,
        Err(_) => Opened::Panic,
    }
}

const GOOD: &str = r#"{"version":3,"sources":["a.js","b.js"],"names":["n"],"mappings":"AAAAA;ACCA,C"}"#;
const BEFORE: [&str; 26] = ["", " ", "\n", "\r\n\t ", ")]}'", ")]}'\n", ")]}',\n", ")]}\n", "\u{feff}", "\u{feff}\n", "\n\u{feff}", "data:application/json,", "data:application/json;charset=utf-8,", "//# sourceMappingURL=", "//\n", "/**/", "while(1);", "for(;;);", "(", "[", "\"", "#", "<!--", "\0", "null", "{}\n"];
const BEHIND: [&str; 16] = ["", " ", "\n", "\r\n\t ", ";", ")", "]", "\"", "\0", "\u{feff}", "//x", "/**/", "\n{}", "\nnull", "-->", "\u{1a}"];
/// Everything a basic consumer answers, as one value.
fn digest(ch: &mut Ch, c: &mut BasicConsumer, m: &Model) -> Result<String, Viol> {
    let mut s = format!("{:?}", must("get_sources", || c.get_sources())?);
    let (l, k) = m.gen_grid();
    for l in &l {
        for k in &k {
            s += &format!("{:?}", orig_for(c, *l, *k, None)?);
            ch.step();
        }
    }
    let (l, k) = m.orig_grid();
    for u in &m.urls {
        for l in &l {
            s += &format!("{:?}", all_for(c, u, *l, None)?);
            for k in &k {
                s += &format!("{:?}", gen_for(c, u, *l, *k, Some(source_map_mappings::Bias::LeastUpperBound))?);
                ch.steps(2);
            }
        }
        s += &format!("{:?}", call(|| c.source_content_for(u, None)).map_err(|_| "panic"));
    }
    s += &format!("{:?}{:?}", enumerate(c, IterOrd::GeneratedOrd)?, enumerate(c, IterOrd::OriginalOrd)?);
    must("compute_column_spans", || c.compute_column_spans())?;
    s += &format!("{:?}", enumerate(c, IterOrd::GeneratedOrd)?);
    Ok(s)
}
fn idigest(ch: &mut Ch, c: &mut IndexedConsumer, m: &IModel) -> Result<String, Viol> {
    let mut s = format!("{:?}", must("get_sources", || c.get_sources())?);
    let (l, k) = m.grid();
    for l in &l {
        for k in &k {
            s += &format!("{:?}", must("original_position_for", || c.original_position_for(pos(*l, *k), None).map(Ans::of))?);
            ch.step();
        }
    }
    for u in m.secs.iter().flat_map(|x| &x.m.urls) {
        for l in 1..4 {
            s += &format!("{:?}", must("all_generated_position_for", || c.all_generated_position_for(u, l, None).iter().map(raw).collect::<Vec<_>>())?);
            s += &format!("{:?}", must("generated_position_for", || c.generated_position_for(u, l, 1, None).map(|p| (p.line, p.column)))?);
            ch.steps(2);
        }
        s += &format!("{:?}", call(|| c.source_content_for(u, None)).map_err(|_| "panic"));
    }
    s += &format!("{:?}{:?}", enumerate(c, IterOrd::GeneratedOrd)?, enumerate(c, IterOrd::OriginalOrd)?);
    must("computed_column_spans", || c.computed_column_spans())?;
    s += &format!("{:?}", enumerate(c, IterOrd::GeneratedOrd)?);
    Ok(s)
}
fn accessors(c: &mut Consumer, basic: bool) -> Res {
    let at = match c {
        Consumer::BasicConsumer(b) => b as *const BasicConsumer as usize,
        Consumer::IndexedConsumer(i) => i as *const IndexedConsumer as usize,
    };
    let b = Some(at).filter(|_| basic);
    let i = Some(at).filter(|_| !basic);
    let what = if basic { "basic" } else { "indexed" };
    full(call(|| c.as_basic_consumer() as *const _ as usize).ok(), b, || format!("as_basic_consumer on a {what} consumer"))?;
    full(call(|| c.as_indexed_consumer() as *const _ as usize).ok(), i, || format!("as_indexed_consumer on a {what} consumer"))?;
    full(call(|| c.as_basic_consumer_mut() as *const _ as usize).ok(), b, || format!("as_basic_consumer_mut on a {what} consumer"))?;
    full(call(|| c.as_indexed_consumer_mut() as *const _ as usize).ok(), i, || format!("as_indexed_consumer_mut on a {what} consumer"))?;
    full(call(|| c.try_as_basic_consumer().map(|x| x as *const _ as usize)), Ok(b), || format!("try_as_basic_consumer on a {what} consumer"))?;
    full(call(|| c.try_as_indexed_consumer().map(|x| x as *const _ as usize)), Ok(i), || format!("try_as_indexed_consumer on a {what} consumer"))?;
    full(call(|| c.try_as_basic_consumer_mut().map(|x| x as *const _ as usize)), Ok(b), || format!("try_as_basic_consumer_mut on a {what} consumer"))?;
    full(call(|| c.try_as_indexed_consumer_mut().map(|x| x as *const _ as usize)), Ok(i), || format!("try_as_indexed_consumer_mut on a {what} consumer"))
}

fn fields(ch: &mut Ch) -> Res {
    // (text, acceptable?)
    let version = *ch.of(&[
        ("3", Some(3)), ("", None), ("2", Some(2)), ("4", Some(4)), ("0", Some(0)), ("1", Some(1)), ("-3", Some(-3)), ("33", Some(33)), ("259", Some(259)),
        ("65539", Some(65539)), ("2147483647", Some(i32::MAX)), ("-2147483648", Some(i32::MIN)), ("4294967299", None), ("1e40", None), ("3.5", None), ("\"3\"", None), ("null", None),
        ("true", None), ("[3]", None), ("{}", None),
    ]);
    let one = format!(r#"[{{"offset":{{"line":0,"column":0}},"map":{GOOD}}}]"#);
    // None = ill-typed, Some(present)
    let sections = [("", Some(false)), ("null", Some(false)), ("[]", Some(true)), (one.as_str(), Some(true)), ("\"x\"", None), ("{}", None), ("[1]", None)];
    let sections = *ch.of(&sections);
    let basics = ch.flag(); // sources, names and mappings present
    let file = *ch.of(&[("", true), ("\"f.js\"", true), ("null", true), ("7", false)]);
    let contents = *ch.of(&[("", true), ("[null,\"t\"]", true), ("[1]", false)]);
    let extra = ch.flag();
    let order = ch.pick(3);
    let mut parts: Vec<String> = vec![];
    let mut put = |k: &str, v: &str| {
        if !v.is_empty() {
            parts.push(format!("\"{k}\": {v}"))
        }
    };
    put("version", version.0);
    put("sections", sections.0);
    if basics {
        put("sources", "[\"a.js\",\"b.js\"]");
        put("names", "[\"n\"]");
        put("mappings", "\"AAAAA;ACCA,C\"");
    }
    put("file", file.0);
    put("sourcesContent", contents.0);
    if extra {
        put("x_google_ignoreList", "[0]");
        put("debugId", "{\"version\":2,\"sections\":[]}");
    }
    let n = parts.len();
    match order {
        1 => parts.reverse(),
        2 if n > 0 => parts.rotate_left(n / 2),
        _ => (),
    }
    let text = format!("{}{{{}}}", if order == 1 { "\n\t " } else { "" }, parts.join(", \n"));
    ch.log(|| text.clone());
    ch.state(&text);
    ch.step();
    let got = kind(&text);
    ch.outcome(&got);
    let typed = sections.1.is_some() && file.1 && contents.1;
    let want: &[Opened] = match (version.1, typed) {
        (None, _) | (_, false) => &[Opened::Err],
        (Some(3), true) => match (sections.1.unwrap(), basics) {
            (true, _) => &[Opened::Indexed],
            (false, true) => &[Opened::Basic],
            // no sources: opens as basic or is refused, but is never indexed
            (false, false) => &[Opened::Basic, Opened::Err, Opened::Panic],
        },
        (Some(_), true) => &[Opened::Err, Opened::Panic],
    };
    ensure!(want.contains(&got), "create_consumer({text}) is {got:?}, expected {want:?}");
    // the constructors
    let b = call(|| BasicConsumer::new(&text, None)).is_ok();
    let i = call(|| IndexedConsumer::new(&text, None)).is_ok();
    ch.steps(2);
    if want.contains(&Opened::Err) || want.contains(&Opened::Panic) {
        if !(version.1 == Some(3) && typed) {
            if let Ok(j) = serde_json::from_str::<SourceMapJson>(&text) {
                let b = call(|| BasicConsumer::from_source_map_json(j.clone(), None)).is_ok();
                let i = call(|| IndexedConsumer::from_source_map_json(j.clone(), None)).is_ok();
                ch.steps(2);
                ensure!(!b && !i, "from_source_map_json accepts {text}: basic {b}, indexed {i}");
            }
            ensure!(!b && !i, "constructor accepts {text}: basic {b}, indexed {i}");
        }
    } else if want == [Opened::Indexed] {
        ensure!(i, "IndexedConsumer::new refuses {text}");
    } else {
        ensure!(b && !i, "BasicConsumer::new accepts: {b}, IndexedConsumer::new accepts: {i} for {text}");
    }
    Ok(())
}

fn main() {
    run::main(Prop {
        id: "C26",
        rule: "state = one text; transition = one attempt to open it or one query compared between routes; trace = all routes tried on one text",
        assumptions: vec![
            "JSON arrays of exactly the eight document fields in declaration order (which serde also takes for the document) are left out",
            "a document of version 3 with neither sections nor sources may be refused or opened, but not as indexed",
            "of a refusal it does not matter whether it is a panic or an error where the property says only 'refused'",
        ],
        stages: |thorough| {
            vec![
                stage("fields", "20 versions (right, wrong, ill-typed, absent) x 7 forms of sections x basic fields present or not x 4 file x 3 contents x unknown fields x 3 orders of the fields", fields),
                stage("unknown-fields", "indexed maps of 0..=2 sections with each of 7 unknown fields, before or after the known ones, in the document, the section, the offset, the section's map, or everywhere: opens as without", |ch| {
                    let x = *ch.of(&["\"x_facebook\":[null]", "\"lines\":\"u\"", "\"debugId\":{\"version\":2}", "\"\":0", "\"Line\":7", "\"names2\":\"\"", "\"ignoreList\":[1]"]);
                    let whither = ch.pick(5);
                    let first = ch.flag();
                    let n = ch.pick(3);
                    let at = |place: usize, known: &str| match (whither == place || whither == 4, first) {
                        (false, _) => format!("{{{known}}}"),
                        (_, true) => format!("{{{x}{}{known}}}", if known.is_empty() { "" } else { "," }),
                        _ => format!("{{{known},{x}}}"),
                    };
                    let good = &GOOD[1..GOOD.len() - 1];
                    let secs: Vec<String> = (0..n).map(|k| at(1, &format!("\"offset\":{},\"map\":{}", at(2, &format!("\"line\":{},\"column\":0", k * 5)), at(3, good)))).collect();
                    let known = format!("\"version\":3,\"sections\":[{}]", secs.join(","));
                    let text = at(0, &known);
                    let basic = at(0, good);
                    ch.log(|| format!("{text} / {basic}"));
                    ch.state(&text);
                    full(kind(&text), Opened::Indexed, || format!("create_consumer({text})"))?;
                    full(kind(&basic), Opened::Basic, || format!("create_consumer({basic})"))?;
                    let mut a = must("IndexedConsumer::new", || IndexedConsumer::new(&text, None))?;
                    let mut b = must("IndexedConsumer::new", || IndexedConsumer::new(&format!("{{{known}}}"), None))?;
                    full(enumerate(&mut a, IterOrd::GeneratedOrd)?, enumerate(&mut b, IterOrd::GeneratedOrd)?, || format!("mappings of {text}"))?;
                    let mut a = must("BasicConsumer::new", || BasicConsumer::new(&basic, None))?;
                    let mut b = must("BasicConsumer::new", || BasicConsumer::new(GOOD, None))?;
                    full(enumerate(&mut a, IterOrd::GeneratedOrd)?, enumerate(&mut b, IterOrd::GeneratedOrd)?, || format!("mappings of {basic}"))?;
                    ch.steps(6);
                    Ok(())
                }),
                stage("cut-texts", "every proper prefix of 3 documents, and every document with junk of 4 kinds appended or prepended, and JSON values that are no objects", |ch| {
                    let ind = indexed_json(&[((0, 0), GOOD.to_string())]);
                    let docs = [GOOD.to_string(), ind, r#"{"version":3,"file":"é\"\\","sources":[],"names":[],"mappings":""}"#.into()];
                    let d = ch.of(&docs).clone();
                    let text = match ch.pick(4) {
                        0 => {
                            let cuts: Vec<usize> = (0..d.len()).filter(|i| d.is_char_boundary(*i)).collect();
                            d[..*ch.of(&cuts)].to_string()
                        }
                        1 => format!("{d}{}", ch.of(&["}", ",", "{}", "x", "\0", "3"])),
                        2 => format!("{}{d}", ch.of(&["{", "[", "x", ",", "\u{feff}x", "3"])),
                        _ => ch.of(&["", " ", "null", "3", "\"\"", "true", "[]", "[3]", "[{}]", "{}", "{\"version\":[3]}", "\"{}\"", "nope", "<html>"]).to_string(),
                    };
                    ch.log(|| text.clone());
                    ch.state(&text);
                    ch.step();
                    let got = kind(&text);
                    ch.outcome(&got);
                    full(got, Opened::Err, || format!("create_consumer({text:?})"))?;
                    ensure!(call(|| BasicConsumer::new(&text, None)).is_err() && call(|| IndexedConsumer::new(&text, None)).is_err(), "a constructor accepts {text:?}");
                    ensure!(call(|| BasicConsumer::consume(text.clone(), "".into(), |_| ())).is_err() && call(|| IndexedConsumer::consume(text.clone(), "".into(), |_| ())).is_err(), "consume accepts {text:?}");
                    ch.steps(4);
                    Ok(())
                }),
                stage("wrapped", format!("a basic and an indexed document behind or before every Unicode character that is no JSON white space (blocks of 64), refused"), |ch| {
                    let ind = indexed_json(&[((0, 0), GOOD.to_string())]);
                    let b = ch.pick(0x110000 / 64) as u32;
                    let before = ch.flag();
                    for c in (b * 64..(b + 1) * 64).filter_map(char::from_u32).filter(|c| !" \t\n\r".contains(*c)) {
                        for d in [GOOD, &ind] {
                            let text = if before { format!("{c}{d}") } else { format!("{d}{c}") };
                            ch.step();
                            full(kind(&text), Opened::Err, || format!("create_consumer({text:?})"))?;
                            if c < '\u{180}' || c == '\u{feff}' || "\u{2028}\u{2029}\u{3000}\u{fffe}\u{fffd}".contains(c) {
                                ensure!(call(|| BasicConsumer::new(&text, None)).is_err() && call(|| IndexedConsumer::new(&text, None)).is_err(), "a constructor accepts {text:?}");
                                ch.steps(2);
                            }
                        }
                    }
                    ch.state(&(b, before));
                    Ok(())
                }),
                stage("dressed", format!("a basic and an indexed document with each pair of {} things before and {} behind that some tools put there: only JSON white space leaves it acceptable", BEFORE.len(), BEHIND.len()), |ch| {
                    let ind = indexed_json(&[((0, 0), GOOD.to_string())]);
                    let indexed = ch.flag();
                    let d = if indexed { ind.as_str() } else { GOOD };
                    let (x, y) = (*ch.of(&BEFORE), *ch.of(&BEHIND));
                    let text = format!("{x}{d}{y}");
                    ch.log(|| text.clone());
                    ch.state(&text);
                    let blank = |s: &str| s.chars().all(|c| " \t\n\r".contains(c));
                    let want = match (blank(x) && blank(y), indexed) {
                        (false, _) => Opened::Err,
                        (_, true) => Opened::Indexed,
                        _ => Opened::Basic,
                    };
                    full(kind(&text), want.clone(), || format!("create_consumer({text:?})"))?;
                    full(call(|| BasicConsumer::new(&text, None)).is_ok(), want == Opened::Basic, || format!("BasicConsumer::new accepts {text:?}"))?;
                    full(call(|| IndexedConsumer::new(&text, None)).is_ok(), want == Opened::Indexed, || format!("IndexedConsumer::new accepts {text:?}"))?;
                    ch.steps(3);
                    Ok(())
                }),
                stage("basic-routes", "every map of 1..=2 segments, 3 roots, 7 map URLs, contents or not: create_consumer, BasicConsumer::new, from_source_map_json and consume answer alike; all accessors", move |ch| {
                    let a = if thorough { dense() } else { thin() };
                    let n = 1 + ch.pick(2);
                    let mut d = Doc::new(&a.build(ch, n), 3, 2);
                    d.root = ch.of(&[None, Some("r/x"), Some("http://h/r")]).map(|s| s.into());
                    if ch.flag() {
                        d.contents = Some(vec![Some("c".into()), None, Some("d".into())]);
                    }
                    let url = *ch.of(&URLS);
                    let m = d.model(url);
                    let text = d.json();
                    ch.log(|| format!("{text} at {url:?}"));
                    ch.state(&(&text, url));
                    let mut c = open(&text, url)?;
                    ensure!(matches!(c, Consumer::BasicConsumer(_)), "not basic: {text}");
                    accessors(&mut c, true)?;
                    ch.steps(8);
                    let want = digest(ch, c.as_basic_consumer_mut(), &m)?;
                    ch.outcome(&want);
                    let got = digest(ch, &mut must("BasicConsumer::new", || BasicConsumer::new(&text, url))?, &m)?;
                    full(got, want.clone(), || format!("answers of BasicConsumer::new({text}, {url:?}) against create_consumer's"))?;
                    let j: SourceMapJson = serde_json::from_str(&text).unwrap();
                    let got = digest(ch, &mut must("from_source_map_json", || BasicConsumer::from_source_map_json(j, url))?, &m)?;
                    full(got, want.clone(), || format!("answers of BasicConsumer::from_source_map_json({text}, {url:?}) against create_consumer's"))?;
                    if let Some(u) = url {
                        let mut got = None;
                        must("consume", || BasicConsumer::consume(text.clone(), u.into(), |mut c| got = Some(digest(ch, &mut c, &m))))?;
                        let Some(got) = got else { viol!("consume does not call back for {text}") };
                        full(got?, want, || format!("answers inside BasicConsumer::consume({text}, {u:?}) against create_consumer's"))?;
                    }
                    Ok(())
                }),
                stage("sizes", "8 regular maps of 40, 129, 257 and 1025 segments, opened in 5 ways: same answers; the scoped consumer without map URL, too; queries thinned out", |ch| {
                    let n = *ch.of(&[40, 129, 257, 1025]);
                    let d = Doc::new(&long(n, ch.pick(PATTERNS)), LONG_SRC, LONG_NAMES);
                    let url = *ch.of(&[None, Some("dir/o.map")]);
                    let text = d.json();
                    ch.state(&(&text, url));
                    let ask = |ch: &mut Ch, c: &mut BasicConsumer| -> Result<String, Viol> {
                        let mut s = String::new();
                        for i in thin_out((0..n as i32).collect::<Vec<_>>()).into_iter().step_by(3) {
                            s += &format!("{:?}", orig_for(c, 1 + i / 7, i, None)?);
                            s += &format!("{:?}", gen_for(c, &d.model(url).urls[i as usize % LONG_SRC], 1 + i / 5, i % 9, None)?);
                            ch.steps(2);
                        }
                        Ok(s + &format!("{:?}{:?}", enumerate(c, IterOrd::GeneratedOrd)?, enumerate(c, IterOrd::OriginalOrd)?))
                    };
                    let want = ask(ch, &mut open_basic(&text, url)?)?;
                    ch.outcome(&want);
                    for r in 1..ROUTES {
                        let got = ask(ch, &mut open_by(r, &text, url)?)?;
                        ensure!(got == want, "opened in way {r} at {url:?}, {text} answers otherwise than by create_consumer");
                    }
                    Ok(())
                }),
                stage("indexed-routes", "every indexed map of 0..=2 sections from 8 section maps and 10 offsets, 7 map URLs: create_consumer, IndexedConsumer::new, from_source_map_json and consume answer alike; all accessors", |ch| {
                    let pool = section_pool();
                    let n = ch.pick(3);
                    let mut last = 0;
                    let mut secs = vec![];
                    for k in 0..n {
                        let o = last + ch.pick(OFFSETS.len() - last);
                        last = o;
                        let mut d = sec_doc(&pool[ch.pick(pool.len())], k, k == 1);
                        if k == 1 {
                            d.contents = Some(vec![None, Some("x".into())]);
                        }
                        secs.push((OFFSETS[o], d));
                    }
                    let url = *ch.of(&URLS);
                    let mut m = IModel::new(secs);
                    for s in &mut m.secs {
                        s.m = s.d.model(url);
                    }
                    if !m.disjoint() {
                        return Ok(());
                    }
                    let text = m.json.clone();
                    ch.log(|| format!("{text} at {url:?}"));
                    ch.state(&(&text, url));
                    let mut c = open(&text, url)?;
                    ensure!(matches!(c, Consumer::IndexedConsumer(_)), "not indexed: {text}");
                    accessors(&mut c, false)?;
                    ch.steps(8);
                    let want = idigest(ch, c.as_indexed_consumer_mut(), &m)?;
                    ch.outcome(&want);
                    let got = idigest(ch, &mut must("IndexedConsumer::new", || IndexedConsumer::new(&text, url))?, &m)?;
                    full(got, want.clone(), || format!("answers of IndexedConsumer::new({text}, {url:?}) against create_consumer's"))?;
                    let j: SourceMapJson = serde_json::from_str(&text).unwrap();
                    let got = idigest(ch, &mut must("from_source_map_json", || IndexedConsumer::from_source_map_json(j, url))?, &m)?;
                    full(got, want.clone(), || format!("answers of IndexedConsumer::from_source_map_json({text}, {url:?}) against create_consumer's"))?;
                    if let Some(u) = url {
                        let mut got = None;
                        must("consume", || IndexedConsumer::consume(text.clone(), u.into(), |mut c| got = Some(idigest(ch, &mut c, &m))))?;
                        let Some(got) = got else { viol!("consume does not call back for {text}") };
                        full(got?, want, || format!("answers inside IndexedConsumer::consume({text}, {u:?}) against create_consumer's"))?;
                    }
                    Ok(())
                }),
            ]
        },
    });
}
