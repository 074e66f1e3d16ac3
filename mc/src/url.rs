//! Reference model of source URLs: four kinds of URL text, ordinary joining
//! and dot-segment removal. Written without the `url` crate.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// scheme including ':', host (may be empty): "http:" "h"
    Abs(String, String),
    /// host: "//h/..."
    Scheme(String),
    /// "/..."
    Path,
    /// anything else
    Rel,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct U {
    pub kind: Kind,
    /// surplus leading ".." (only for Rel)
    pub ups: usize,
    /// path after the leading slash (or after the ups); the last one is the
    /// file and may be empty
    pub segs: Vec<String>,
    pub query: Option<String>,
    pub frag: Option<String>,
}

fn encode(s: &str, out_of: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        if (c as u32) <= 0x20 || (c as u32) >= 0x7f || out_of.contains(c) {
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                r += &format!("%{:02X}", x);
            }
        } else {
            r.push(c)
        }
    }
    r
}

const SPECIAL: [(&str, &str); 6] = [("http:", ":80"), ("https:", ":443"), ("ftp:", ":21"), ("ws:", ":80"), ("wss:", ":443"), ("file:", "")];
/// Hosts of the web schemes know no case, and their own port goes without saying.
fn host(scheme: &str, h: &str) -> String {
    let Some((_, port)) = SPECIAL.iter().find(|s| s.0 == scheme) else { return h.to_string() };
    let at = h.rfind('@').map_or(0, |i| i + 1);
    let low = h[..at].to_string() + &h[at..].to_ascii_lowercase();
    low.strip_suffix(port).unwrap_or(&low).to_string()
}

/// The kind of a URL as it is written in its normal form.
pub fn kind_of(s: &str) -> Kind {
    match written(s) {
        Kind::Abs(s, h) => {
            let s = s.to_ascii_lowercase();
            let h = host(&s, &h);
            Kind::Abs(s, h)
        }
        Kind::Scheme(h) => Kind::Scheme(host("http:", &h)),
        k => k,
    }
}
fn written(s: &str) -> Kind {
    if let Some(r) = s.strip_prefix("//") {
        return Kind::Scheme(r[..r.find(['/', '?', '#']).unwrap_or(r.len())].to_string());
    }
    if s.starts_with('/') {
        return Kind::Path;
    }
    if let Some(i) = s.find(":/") {
        if i > 0 && s[..i].bytes().all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b)) {
            let host = s[i + 1..].strip_prefix("//").unwrap_or("");
            let host = &host[..host.find(['/', '?', '#']).unwrap_or(host.len())];
            return Kind::Abs(s[..i + 1].to_string(), host.to_string());
        }
    }
    Kind::Rel
}

fn apply(kind: &Kind, base: &[String], ups: usize, path: &[&str]) -> (usize, Vec<String>) {
    let mut segs: Vec<String> = base.to_vec();
    let mut ups = ups;
    let n = path.len();
    for (i, p) in path.iter().enumerate() {
        let last = i + 1 == n;
        match *p {
            "." => {
                if last {
                    segs.push(String::new())
                }
            }
            ".." => {
                if segs.pop().is_none() && *kind == Kind::Rel {
                    ups += 1;
                }
                if last {
                    segs.push(String::new())
                }
            }
            p => segs.push(p.to_string()),
        }
    }
    (ups, segs)
}

/// Parse and normalise.
pub fn parse(s: &str) -> U {
    let kind = kind_of(s);
    let rest = match &written(s) {
        Kind::Abs(sc, h) => {
            let r = &s[sc.len()..];
            r.strip_prefix("//").map(|r| &r[h.len()..]).unwrap_or(r)
        }
        Kind::Scheme(h) => &s[2 + h.len()..],
        _ => s,
    };
    let (rest, frag) = match rest.find('#') {
        Some(i) => (&rest[..i], Some(encode(&rest[i + 1..], "\"<>`"))),
        None => (rest, None),
    };
    let (rest, query) = match rest.find('?') {
        Some(i) => (&rest[..i], Some(encode(&rest[i + 1..], "\"<>'"))),
        None => (rest, None),
    };
    let path = if kind == Kind::Rel { rest } else { rest.strip_prefix('/').unwrap_or(rest) };
    let enc: Vec<String> = path.split('/').map(|p| encode(p, "\"<>`{}")).collect();
    let parts: Vec<&str> = enc.iter().map(|s| s.as_str()).collect();
    let (ups, segs) = apply(&kind, &[], 0, &parts);
    U { kind, ups, segs, query, frag }
}

impl U {
    pub fn text(&self) -> String {
        let mut s = match &self.kind {
            Kind::Abs(sc, h) => format!("{sc}//{h}/"),
            Kind::Scheme(h) => format!("//{h}/"),
            Kind::Path => "/".into(),
            Kind::Rel => String::new(),
        };
        for _ in 0..self.ups {
            s += "../";
        }
        s += &self.segs.join("/");
        if let Some(q) = &self.query {
            s += "?";
            s += q;
        }
        if let Some(f) = &self.frag {
            s += "#";
            s += f;
        }
        s
    }
    /// As a directory: what relative paths are joined onto.
    fn dir(&self) -> U {
        let mut d = self.clone();
        d.query = None;
        d.frag = None;
        if d.segs.last().map_or(true, |l| !l.is_empty()) {
            d.segs.push(String::new());
        }
        d
    }
    /// The directory a file lies in.
    fn parent(&self) -> U {
        let mut d = self.clone();
        d.query = None;
        d.frag = None;
        d.segs.pop();
        d.segs.push(String::new());
        d
    }
    fn bare(&self) -> bool {
        self.kind == Kind::Rel && self.ups == 0 && self.segs.len() == 1 && self.segs[0].is_empty()
    }
}

/// Join `path` onto the directory `root`.
pub fn join(root: &U, path: &U) -> U {
    match (&root.kind, &path.kind) {
        (_, Kind::Abs(..)) => path.clone(),
        (Kind::Abs(s, _), Kind::Scheme(h)) => U { kind: Kind::Abs(s.clone(), h.clone()), ..path.clone() },
        (_, Kind::Scheme(_)) => path.clone(),
        (Kind::Abs(..), Kind::Path) | (Kind::Scheme(_), Kind::Path) => U { kind: root.kind.clone(), ..path.clone() },
        (_, Kind::Path) => path.clone(),
        (_, Kind::Rel) => {
            let mut d = root.dir();
            if !path.bare() {
                d.segs.pop();
                let mut parts: Vec<&str> = vec![".."; path.ups];
                parts.extend(path.segs.iter().map(|s| s.as_str()));
                let (ups, segs) = apply(&root.kind, &d.segs, d.ups, &parts);
                d.ups = ups;
                d.segs = segs;
            }
            d.query = path.query.clone();
            d.frag = path.frag.clone();
            d
        }
    }
}

pub fn normalize(s: &str) -> String {
    parse(s).text()
}

/// The reported URL of a source.
pub fn resolve(root: Option<&str>, source: &str, map: Option<&str>) -> String {
    let root = root.filter(|r| !r.is_empty());
    let map = map.filter(|r| !r.is_empty());
    let mut s = source;
    if root.is_some() && kind_of(s) == Kind::Path {
        s = &s[1..];
    }
    let mut u = parse(s);
    if let Some(r) = root {
        u = join(&parse(r), &u);
    }
    if let Some(m) = map {
        u = join(&parse(m).parent(), &u);
    }
    u.text()
}

/// Same URL kind, and for those that have one, same origin.
pub fn same_space(a: &U, b: &U) -> bool {
    a.kind == b.kind
}

/// All paths of up to `n` segments over `alpha`, with and without a trailing
/// slash, prefixed and suffixed in every given way.
pub fn texts(prefixes: &[&str], alpha: &[&str], n: usize, suffixes: &[&str]) -> Vec<String> {
    let mut paths: Vec<String> = vec![String::new()];
    let mut cur: Vec<String> = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for c in &cur {
            for a in alpha {
                next.push(if c.is_empty() { a.to_string() } else { format!("{c}/{a}") });
            }
        }
        for p in &next {
            paths.push(p.clone());
            paths.push(format!("{p}/"));
        }
        cur = next;
    }
    let mut out = vec![];
    for pre in prefixes {
        for p in &paths {
            for s in suffixes {
                out.push(format!("{pre}{p}{s}"));
            }
        }
    }
    out
}
