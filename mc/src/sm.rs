//! Reference source-map model: an independent decoder/encoder of the
//! "mappings" text and the flat list of segments it stands for.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Orig {
    pub src: u32,
    pub line: u32, // 0-based
    pub col: u32,
    pub name: Option<u32>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Seg {
    pub line: u32, // 0-based generated line
    pub col: u32,
    pub orig: Option<Orig>,
}
impl Seg {
    pub fn gen(&self) -> (u32, u32) {
        (self.line, self.col)
    }
}

pub const DIGITS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn vlq(v: i64) -> String {
    let mut n: u128 = if v < 0 { ((-(v as i128)) as u128) << 1 | 1 } else { (v as u128) << 1 };
    let mut s = String::new();
    loop {
        let d = (n & 31) as usize;
        n >>= 5;
        s.push(DIGITS[if n > 0 { d | 32 } else { d }] as char);
        if n == 0 {
            return s;
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Bad {
    Char,
    Truncated,
    Fields(usize),
    Negative,
    TooBig,
}

/// Decode one segment's text into its signed fields.
pub fn fields(s: &str) -> Result<Vec<i64>, Bad> {
    let mut out = vec![];
    let (mut acc, mut shift, mut open) = (0i128, 0u32, false);
    for b in s.bytes() {
        let d = DIGITS.iter().position(|x| *x == b).ok_or(Bad::Char)? as i128;
        if shift > 60 {
            return Err(Bad::TooBig);
        }
        acc += (d & 31) << shift;
        shift += 5;
        open = d & 32 != 0;
        if !open {
            let m = acc >> 1;
            out.push(if acc & 1 == 1 { -m } else { m } as i64);
            acc = 0;
            shift = 0;
        }
    }
    if open {
        return Err(Bad::Truncated);
    }
    Ok(out)
}

/// Decode a mappings text by the Source Map v3 rules, segments in text order.
pub fn decode(text: &str) -> Result<Vec<Seg>, Bad> {
    let mut out = vec![];
    let (mut src, mut ol, mut oc, mut nm) = (0i64, 0i64, 0i64, 0i64);
    for (li, l) in text.split(';').enumerate() {
        let mut gc = 0i64;
        for s in l.split(',') {
            if s.is_empty() {
                continue;
            }
            let f = fields(s)?;
            let chk = |v: i64| if v < 0 { Err(Bad::Negative) } else if v > u32::MAX as i64 { Err(Bad::TooBig) } else { Ok(v as u32) };
            if !matches!(f.len(), 1 | 4 | 5) {
                return Err(Bad::Fields(f.len()));
            }
            gc += f[0];
            let col = chk(gc)?;
            let mut orig = None;
            if f.len() >= 4 {
                src += f[1];
                ol += f[2];
                oc += f[3];
                let mut o = Orig { src: chk(src)?, line: chk(ol)?, col: chk(oc)?, name: None };
                if f.len() == 5 {
                    nm += f[4];
                    o.name = Some(chk(nm)?);
                }
                orig = Some(o);
            }
            out.push(Seg { line: li as u32, col, orig });
        }
    }
    Ok(out)
}

/// Encode segments (any order within a line; lines non-decreasing) as text.
pub fn encode(segs: &[Seg]) -> String {
    let mut s = String::new();
    let (mut line, mut gc, mut src, mut ol, mut oc, mut nm) = (0u32, 0i64, 0i64, 0i64, 0i64, 0i64);
    let mut first = true;
    for m in segs {
        while line < m.line {
            s.push(';');
            line += 1;
            gc = 0;
            first = true;
        }
        assert!(line == m.line, "encode: lines must not decrease");
        if !first {
            s.push(',');
        }
        first = false;
        s += &vlq(m.col as i64 - gc);
        gc = m.col as i64;
        if let Some(o) = m.orig {
            s += &vlq(o.src as i64 - src);
            s += &vlq(o.line as i64 - ol);
            s += &vlq(o.col as i64 - oc);
            src = o.src as i64;
            ol = o.line as i64;
            oc = o.col as i64;
            if let Some(n) = o.name {
                s += &vlq(n as i64 - nm);
                nm = n as i64;
            }
        }
    }
    s
}
