//! C01: VLQ encoding is exact for every 32-bit integer.
use mc::*;
use rusty_source_map::{base64, base64_vlq::base64vlq_encode};

/// The encoder as a transition system: state = magnitude still to be emitted,
/// each transition emits one digit. Walk it against the real output.
fn check(v: i32, ch: &mut Ch) -> Res {
    let real = base64vlq_encode(v);
    let bytes = real.as_bytes();
    let mut rest: u64 = if v < 0 { ((-(v as i64)) as u64) << 1 | 1 } else { (v as u64) << 1 };
    let mut i = 0;
    loop {
        let d = (rest & 31) as usize;
        rest >>= 5;
        let want = sm::DIGITS[if rest > 0 { d | 32 } else { d }];
        if bytes.get(i) != Some(&want) {
            viol!("base64vlq_encode({v}) = {real:?}, canonical VLQ is {:?}", sm::vlq(v as i64));
        }
        i += 1;
        if rest == 0 {
            break;
        }
    }
    ch.steps(i as u64);
    if i != bytes.len() {
        viol!("base64vlq_encode({v}) = {real:?}, canonical VLQ is {:?}", sm::vlq(v as i64));
    }
    Ok(())
}

fn range(lo: i64, hi: i64, chunk: i64, name: &str) -> Stage {
    let n = ((hi - lo + chunk) / chunk) as usize;
    stage(name, format!("every integer in [{lo}, {hi}]"), move |ch| {
        let k = ch.pick(n) as i64;
        let (a, b) = (lo + k * chunk, (lo + (k + 1) * chunk - 1).min(hi));
        ch.log(|| format!("base64vlq_encode(v) for v in {a}..={b}"));
        let mut cur = a;
        match call(|| {
            while cur <= b {
                check(cur as i32, ch)?;
                cur += 1;
            }
            Ok::<(), Viol>(())
        }) {
            Err(p) => viol!("base64vlq_encode({cur}) panicked: {p}"),
            Ok(r) => r?,
        }
        ch.state(&(a, b));
        ch.outcome(&base64vlq_encode(b as i32).len());
        Ok(())
    })
}

fn main() {
    run::main(Prop {
        id: "C01",
        rule: "state = block of consecutive integers fully checked; transition = one base64 digit compared with the reference encoder; trace = one block",
        assumptions: vec!["reference VLQ encoder in mc/src/sm.rs, cross-checked against the reference decoder in the same run"],
        stages: |_thorough| {
            let mut v = vec![];
            v.push(stage("digits", "base64 digit encoder on [-70000, 70000] and around every power of two", |ch| {
                let mut probe: Vec<i32> = (-70000..70000).collect();
                for k in 0..32u32 {
                    for d in -3i64..=3 {
                        for s in [-1i64, 1] {
                            let x = s * (1i64 << k) + d;
                            if let Ok(x) = i32::try_from(x) {
                                probe.push(x);
                            }
                        }
                    }
                }
                for n in probe {
                    ch.step();
                    ch.state(&n);
                    let want = if (0..64).contains(&n) { Some(sm::DIGITS[n as usize] as char) } else { None };
                    let got = must("base64::encode", || base64::encode(n))?;
                    ch.outcome(&got);
                    ensure!(got == want, "base64::encode({n}) = {got:?}, expected {want:?}");
                }
                Ok(())
            }));
            v.push(stage("reference", "reference encoder and decoder agree around every power of two", |ch| {
                let k = ch.pick(32);
                for s in [-1i64, 1] {
                    for d in -40i64..=40 {
                        let x = s * (1i64 << k) + d;
                        ensure!(sm::fields(&sm::vlq(x)) == Ok(vec![x]), "reference model broken at {x}");
                        ch.state(&x);
                        if let Ok(x) = i32::try_from(x) {
                            check(x, ch)?;
                        }
                    }
                }
                Ok(())
            }));
            v.push(range(-40_000, 40_000, 500, "small"));
            v.push(range(i32::MIN as i64, i32::MAX as i64, 1 << 20, "all-2^32"));
            v
        },
    });
}
