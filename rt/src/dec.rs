//! C01-C06: the decoders against the reference decoders over spec/grammar.json.
use crate::grammar::*;
use crate::rng::Rng;
use crate::{Out, Prop, Verdict, dispatch, run_ba, run_bp};
use s2protocol::*;
use serde_json::{Value as J, json};

fn compare(got: Out, want: R<(String, usize)>) -> Verdict {
    match (got, want) {
        (Ok(g), Ok(w)) if g == w => Ok(true),
        (Err(_), Err(())) => Ok(true),
        (g, w) => Err(format!("real decoder: {g:?}; contract: {w:?}").chars().take(1200).collect()),
    }
}
fn data(c: &J) -> Vec<u8> {
    unhex(c["hex"].as_str().unwrap())
}

// ------------------------------------------------------------ C01
fn c01_gen(r: &mut Rng, i: usize) -> J {
    if i < 65536 / 4 && i % 4 == 0 {
        // exhaustive over two byte prefixes (every 1st byte, coarse 2nd byte), then zeros
        let b = i / 4 * 16 + i % 16;
        return json!({"hex": hex(&[(b >> 8) as u8, b as u8, 0, 0])});
    }
    let mut o = vec![];
    match r.below(6) {
        0 => o = r.bytes(14),
        1 => {
            let v = r.int(-(1i128 << 64), 1i128 << 64);
            put_vlq_padded(v, r.below(4), &mut o);
        }
        2 => {
            let b = r.below(65);
            let v = (1i128 << b) + r.range(-1, 1);
            put_vlq_padded(if r.chance(1, 2) { -v } else { v }, r.below(3), &mut o);
        }
        3 => {
            let n = 1 + r.below(13);
            for _ in 0..n {
                o.push(r.byte() | 0x80);
            }
            o.push(r.byte() & 0x7f);
        }
        _ => {
            let v = r.int(-(i64::MAX as i128), i64::MAX as i128);
            put_vlq(v, &mut o);
        }
    }
    if r.chance(1, 4) {
        let k = r.below(o.len() + 1);
        o.truncate(k);
    } else {
        let k = r.below(4);
        o.extend(r.bytes(k));
    }
    json!({"hex": hex(&o)})
}
fn c01_run(c: &J) -> Verdict {
    let d = data(c);
    let got = match parse_vlq_int(&d) {
        Ok((t, v)) => {
            if !d.ends_with(t) {
                return Err("tail".into());
            }
            Ok((v.to_string(), d.len() - t.len()))
        }
        Err(e) => Err(format!("{e:?}")),
    };
    compare(got, ref_vlq(&d).map(|(v, n)| (v.to_string(), n)))
}

// ------------------------------------------------------------ C02
const KINDS: [(&str, u8); 6] = [("bitarray", 1), ("blob", 2), ("vlq", 9), ("bool", 6), ("fourcc", 7), ("tag", 0)];
fn c02_gen(r: &mut Rng, i: usize) -> J {
    let (k, tag) = KINDS[i % 6];
    let mut o = vec![];
    let t = if r.chance(1, 8) { r.byte() } else { tag };
    let which = r.below(9);
    o.push(if k == "tag" { if r.chance(1, 4) { r.byte() } else { [0, 1, 2, 3, 4, 5, 6, 7, 9][which] } } else { t });
    match k {
        "blob" | "bitarray" => {
            let n = r.below(40);
            let n = r.size(n, 200_000) as i128;
            let len = match r.below(8) {
                0 => -n - 1,
                1 => r.int(-(i64::MAX as i128), i64::MAX as i128),
                _ => n,
            };
            put_vlq_padded(len, r.below(2), &mut o);
            let have = match r.below(4) {
                0 => r.below(48),
                _ => (if k == "blob" { n as usize } else { (n as usize).div_ceil(8) }) + r.below(3),
            };
            o.extend(r.bytes(have));
        }
        "vlq" => put_vlq_padded(r.int(-(1i128 << 63), 1i128 << 63), r.below(3), &mut o),
        _ => {
            let n = r.below(7);
            o.extend(r.bytes(n))
        }
    }
    if r.chance(1, 12) {
        let k = r.below(o.len() + 1);
        o.truncate(k);
    }
    json!({"kind": k, "which": which, "hex": hex(&o)})
}
fn c02_run(c: &J) -> Verdict {
    let d = data(c);
    let want = |e: E| ref_ba(&e, &d).map(|(v, t)| (v.dbg_string(), (d.len() - t.len()) * 8));
    match c["kind"].as_str().unwrap() {
        "blob" => compare(run_ba(&d, 0, |x| Ok(tagged_blob(x)?)), want(E::Blob)),
        "bitarray" => {
            let w = (|| {
                if d.first() != Some(&1) {
                    return Err(());
                }
                let (v, n) = ref_vlq(&d[1..])?;
                let rest = &d[1 + n..];
                if v < 0 {
                    return Err(());
                }
                let bytes = (v + 7) / 8;
                if bytes > rest.len() as i128 {
                    return Err(());
                }
                Ok((format!("{:?}", &rest[..bytes as usize]), (1 + n + bytes as usize) * 8))
            })();
            compare(run_ba(&d, 0, |x| Ok(tagged_bitarray(x)?)), w)
        }
        "vlq" => compare(run_ba(&d, 0, |x| Ok(tagged_vlq_int(x)?)), want(E::Vlq("i64".into()))),
        "bool" => compare(run_ba(&d, 0, |x| Ok(tagged_bool(x)?)), want(E::Bool)),
        "fourcc" => compare(run_ba(&d, 0, |x| Ok(tagged_fourcc(x)?)), want(E::FourCc)),
        _ => {
            let i = c["which"].as_u64().unwrap() as usize;
            let (f, t): (for<'a> fn(&'a [u8]) -> S2ProtoResult<&'a [u8], &'a [u8]>, u8) = match i {
                0 => (|x| Ok(validate_array_tag(x)?), 0),
                1 => (|x| Ok(validate_bitarray_tag(x)?), 1),
                2 => (|x| Ok(validate_blob_tag(x)?), 2),
                3 => (|x| Ok(validate_choice_tag(x)?), 3),
                4 => (|x| Ok(validate_opt_tag(x)?), 4),
                5 => (|x| Ok(validate_struct_tag(x)?), 5),
                6 => (|x| Ok(validate_bool_tag(x)?), 6),
                7 => (|x| Ok(validate_fourcc_tag(x)?), 7),
                _ => (|x| Ok(validate_int_tag(x)?), 9),
            };
            let got = match f(&d) {
                Ok((t, v)) => Ok((format!("{v:?}"), (d.len() - t.len()) * 8)),
                Err(e) => Err(format!("{e:?}")),
            };
            let w = if d.first() == Some(&t) { Ok((format!("{:?}", [t]), 8)) } else { Err(()) };
            compare(got, w)
        }
    }
}

// ------------------------------------------------------------ C03 / C04
fn c03_gen(r: &mut Rng, i: usize) -> J {
    let n = if r.chance(1, 12) { 60 + r.below(12) } else { i % 65 };
    let off = i / 65 % 8;
    let need = (n + off).div_ceil(8);
    let len = match r.below(5) {
        0 => need.saturating_sub(1 + r.below(2)),
        1 => need + r.below(3),
        _ => need,
    };
    let bias = match r.below(4) {
        0 => 0,
        1 => r.int(i64::MIN as i128, i64::MAX as i128) as i64,
        _ => *r.pick(&[1i64, -128, -32768, -524288, i32::MIN as i64, i64::MIN]),
    };
    json!({"op": (["int", "int", "packed", "bool", "rtake"][r.below(5)]), "n": n, "off": off, "bias": bias, "hex": hex(&r.bytes(len))})
}
fn c03_run(c: &J) -> Verdict {
    let d = data(c);
    let (n, off) = (c["n"].as_u64().unwrap() as usize, c["off"].as_u64().unwrap() as usize);
    if d.is_empty() && off > 0 {
        return Ok(false);
    }
    let bias = c["bias"].as_i64().unwrap();
    let mut b = Bits { d: &d, pos: off };
    let fits = n <= 64;
    match c["op"].as_str().unwrap() {
        "int" | "packed" => {
            let packed = c["op"] == "packed";
            let k = if packed { bias } else { 0 };
            let w = if fits { b.take(n).map(|v| ((v as u64 as i64).wrapping_add(k).to_string(), b.pos)) } else { Err(()) };
            let got = if packed { parse_packed_int((&d, off), bias, n) } else { take_n_bits_into_i64((&d, off), n) };
            let got = got.map(|(t, v)| (v.to_string(), (d.len() - t.0.len()) * 8 + t.1)).map_err(|e| format!("{e:?}"));
            compare(got, w)
        }
        "rtake" => {
            // the low-level step: at most eight bits, input position reported as an offset past the byte
            if n > 8 {
                return Ok(false);
            }
            let w = b.take(n).map(|v| (v.to_string(), 0));
            let got = rtake_n_bits((&d, off), n).map(|(_, v)| (v.to_string(), 0)).map_err(|e| format!("{e:?}"));
            if n == 0 && d.is_empty() {
                return Ok(false);
            }
            compare(got, w)
        }
        _ => {
            let w = b.take(1).map(|v| ((v != 0).to_string(), b.pos));
            compare(run_bp(&d, off, parse_bool), w)
        }
    }
}
fn c04_gen(r: &mut Rng, i: usize) -> J {
    let n = if r.chance(1, 3) { r.below(400) } else if r.chance(1, 16) { r.below(5000) } else { i % 40 };
    let off = r.below(8);
    let need = (n + off).div_ceil(8);
    let len = match r.below(5) {
        0 => need.saturating_sub(1 + r.below(2)),
        1 => need + r.below(3),
        _ => need,
    };
    json!({"op": (["array", "array", "align", "byte", "fourcc", "null"][r.below(6)]), "n": n, "off": off, "hex": hex(&r.bytes(len))})
}
fn c04_run(c: &J) -> Verdict {
    let d = data(c);
    let (n, off) = (c["n"].as_u64().unwrap() as usize, c["off"].as_u64().unwrap() as usize);
    if d.is_empty() && off > 0 {
        return Ok(false);
    }
    let mut b = Bits { d: &d, pos: off };
    match c["op"].as_str().unwrap() {
        "array" => {
            let w = b.array(n).map(|v| (format!("{v:?}"), b.pos));
            let got = take_bit_array((&d, off), n)
                .map(|(t, v)| (format!("{v:?}"), (d.len() - t.0.len()) * 8 + t.1))
                .map_err(|e| format!("{e:?}"));
            compare(got, w)
        }
        "align" => {
            b.align();
            compare(run_bp(&d, off, byte_align), Ok(("()".into(), b.pos)))
        }
        "byte" => {
            let w = b.take(8).map(|v| (v.to_string(), b.pos));
            compare(run_bp(&d, off, take_unaligned_byte), w)
        }
        "fourcc" => {
            let w = b.array(32).map(|v| (format!("{v:?}"), b.pos));
            compare(run_bp(&d, off, take_fourcc), w)
        }
        _ => compare(run_bp(&d, off, take_null), Ok(("()".into(), off))),
    }
}

// ------------------------------------------------------------ C05 / C06
fn entry(ba: bool, i: usize) -> usize {
    // indices of the dispatch table of that format, round robin
    static BA: std::sync::OnceLock<[Vec<usize>; 2]> = std::sync::OnceLock::new();
    let v = BA.get_or_init(|| {
        let f = |b: bool| (0..dispatch::TABLE.len()).filter(|k| dispatch::TABLE[*k].1 == b).collect();
        [f(false), f(true)]
    });
    let v = &v[ba as usize];
    v[i % v.len()]
}
fn c05_gen(r: &mut Rng, i: usize) -> J {
    let k = entry(true, i);
    let (ver, ba, name, _) = dispatch::TABLE[k];
    let t = ty_id(ver, ba, name);
    let mut budget = 30;
    let v = gen_ty(t, r, &mut budget);
    let mode = r.below(9);
    let m = match mode {
        0..=2 => Mutate::Shuffle,
        3 => Mutate::Drop,
        4 | 5 => Mutate::Dup,
        6 => Mutate::UnknownTag,
        _ => Mutate::None,
    };
    let mut e = Enc { o: vec![], rng: r, m, left: 1 };
    e.ba_type(t, &v);
    let mut o = e.o;
    match mode {
        7 => {
            let k = r.below(o.len() + 1);
            o.truncate(k);
        }
        8 => {
            let k = r.below(o.len());
            o[k] = if r.chance(1, 2) { o[k] ^ (1 << r.below(8)) } else { r.byte() };
        }
        _ => {
            let k = r.below(3);
            o.extend(r.bytes(k))
        }
    }
    json!({"ver": ver, "type": name, "hex": hex(&o)})
}
fn find(c: &J, ba: bool) -> (usize, dispatch::F) {
    let ver = c["ver"].as_u64().unwrap() as u32;
    let n = c["type"].as_str().unwrap();
    let e = dispatch::TABLE.iter().find(|e| e.0 == ver && e.1 == ba && e.2 == n).unwrap();
    (ty_id(ver, ba, n), e.3)
}
fn c05_run(c: &J) -> Verdict {
    let d = data(c);
    let (t, f) = find(c, true);
    let w = ref_ba_type(t, &d).map(|(v, tail)| (v.dbg_string(), (d.len() - tail.len()) * 8));
    compare(f(&d, 0), w)
}
fn c06_gen(r: &mut Rng, i: usize) -> J {
    let k = entry(false, i);
    let (ver, ba, name, _) = dispatch::TABLE[k];
    let t = ty_id(ver, ba, name);
    let off = r.below(8);
    let mut b = BitOut::default();
    b.put(r.byte() as u128 & ((1 << off) - 1), off);
    let mut budget = 24;
    let mode = r.below(8);
    if mode == 0 {
        let n = r.below(60);
        let d = if off > 0 && n == 0 { vec![0] } else { r.bytes(n) };
        return json!({"ver": ver, "type": name, "off": off, "hex": hex(&d)});
    }
    let v = gen_ty(t, r, &mut budget);
    b.ty(t, &v, r);
    let mut o = b.o;
    if o.is_empty() {
        o.push(r.byte());
    }
    match mode {
        1 => {
            let k = 1 + r.below(o.len());
            o.truncate(k);
        }
        2 => {
            let k = r.below(o.len());
            o[k] ^= 1 << r.below(8);
        }
        _ => {
            let k = r.below(3);
            o.extend(r.bytes(k))
        }
    }
    json!({"ver": ver, "type": name, "off": off, "hex": hex(&o)})
}
fn c06_run(c: &J) -> Verdict {
    let d = data(c);
    let off = c["off"].as_u64().unwrap() as usize;
    let (t, f) = find(c, false);
    let mut b = Bits { d: &d, pos: off };
    let w = ref_bp_type(t, &mut b).map(|v| (v.dbg_string(), b.pos));
    compare(f(&d, off), w)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "byte strings: encoded boundary and random integers with padding, truncation and garbage, plus a grid of two-byte prefixes; every case counts as non-trivial (value, length or rejection is compared)", n: (600_000, 3_000_000), generate: c01_gen, run: c01_run },
        Prop { id: "C02", rule: "a kind byte (usually right), a length (exact, negative, huge) and payload bytes around that length; compared with the contract", n: (500_000, 4_000_000), generate: c02_gen, run: c02_run },
        Prop { id: "C03", rule: "every width 0..64 at every bit offset plus wider requests, random bytes around the needed length, random biases", n: (500_000, 4_000_000), generate: c03_gen, run: c03_run },
        Prop { id: "C04", rule: "widths 0..400 at random offsets, random bytes around the needed length", n: (300_000, 3_000_000), generate: c04_gen, run: c04_run },
        Prop { id: "C05", rule: "each byte-aligned type of both protocols in turn: a random value tree encoded with shuffled, dropped, duplicated or unknown fields, truncation or corruption; decoded value text, length and rejection compared with the reference decoder", n: (200_000, 2_000_000), generate: c05_gen, run: c05_run },
        Prop { id: "C06", rule: "each bit-packed type of both protocols in turn at a random bit offset: an encoded random value tree, possibly truncated or corrupted, or random bytes; decoded value text, length and rejection compared with the reference decoder", n: (500_000, 4_000_000), generate: c06_gen, run: c06_run },
    ]
}
