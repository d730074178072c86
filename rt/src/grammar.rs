//! The committed protocol layout (spec/grammar.json) and everything the reference side derives
//! from it: decoders, encoders, random value trees and the Debug text a decoded value must have.
use crate::rng::Rng;
use serde_json::Value as J;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
    Vlq(String),
    Blob,
    Bool,
    FourCc,
    FourCcB,
    Type(usize),
    Opt(Box<E>),
    ArrBa(Box<E>),
    Int(i128, u32),
    Byte,
    Null,
    ArrBp(i128, u32, Box<E>),
    Str(i128, u32),
    Bits64(u32),
    BitArr(u32),
    ABlob(usize),
}
#[derive(Debug, Clone)]
pub struct Field {
    pub n: String,
    pub ty: String,
    pub opt: bool,
    /// a blob that decodes as empty when left out
    pub empty: bool,
    pub tag: i64,
    pub e: E,
}
#[derive(Debug, Clone)]
pub enum Def {
    Struct { fields: Vec<Field>, decl: Vec<usize> },
    Wrap(E, String),
    Choice { via_choice: bool, bits: u32, off: i128, variants: Vec<(i64, String, Option<E>)> },
}
#[derive(Debug, Clone)]
pub struct Ty {
    pub ver: u32,
    pub ba: bool,
    pub name: String,
    pub def: Def,
}
pub struct Grammar {
    pub types: Vec<Ty>,
    pub index: HashMap<(u32, bool, String), usize>,
}
fn expr(j: &J, ba: bool, res: &dyn Fn(&str) -> usize) -> E {
    let sub = || Box::new(expr(&j["e"], ba, res));
    let off = j["off"].as_i64().unwrap_or(0) as i128;
    let bits = j["bits"].as_u64().unwrap_or(0) as u32;
    match j["k"].as_str().unwrap() {
        "vlq" => E::Vlq(j["n"].as_str().unwrap_or("i64").to_string()),
        "blob" => E::Blob,
        "bool" => E::Bool,
        "fourcc" if ba => E::FourCc,
        "fourcc" => E::FourCcB,
        "type" => E::Type(res(j["t"].as_str().unwrap())),
        "opt" => E::Opt(sub()),
        "arr" if ba => E::ArrBa(sub()),
        "arr" => E::ArrBp(off, bits, sub()),
        "int" => E::Int(off, bits),
        "byte" => E::Byte,
        "null" => E::Null,
        "str" => E::Str(off, bits),
        "bits64" => E::Bits64(j["lenbits"].as_u64().unwrap() as u32),
        "bitarr" => E::BitArr(j["lenbits"].as_u64().unwrap() as u32),
        "ablob" => E::ABlob(bits as usize),
        x => panic!("{x}"),
    }
}
pub fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| {
        let j: J = serde_json::from_str(include_str!("../../spec/grammar.json")).unwrap();
        let mut names = vec![];
        for ver in ["87702", "75689"] {
            for fmt in ["byte_aligned", "bit_packed"] {
                for (n, d) in j[ver][fmt]["types"].as_object().unwrap() {
                    names.push((ver.parse::<u32>().unwrap(), fmt == "byte_aligned", n.clone(), d.clone()));
                }
            }
        }
        // 75690: the bit-packed types of 75689 with every container made of its own types, as
        // that protocol defines them (the crate reuses 87702's containers: known finding)
        for (n, d) in j["87702"]["bit_packed"]["types"].as_object().unwrap() {
            let own = j["75689"]["bit_packed"]["types"].get(n).unwrap_or(d);
            names.push((75690, false, n.clone(), own.clone()));
        }
        let mut index = HashMap::new();
        for (i, (v, b, n, _)) in names.iter().enumerate() {
            index.insert((*v, *b, n.clone()), i);
        }
        for fmt in ["byte_aligned", "bit_packed"] {
            for n in j["75689"][fmt]["reexports"].as_array().unwrap() {
                let n = n.as_str().unwrap().to_string();
                let ba = fmt == "byte_aligned";
                if let Some(&i) = index.get(&(87702, ba, n.clone())) {
                    index.entry((75689, ba, n)).or_insert(i);
                }
            }
        }
        let types = names
            .iter()
            .map(|(v, b, n, d)| {
                let res = |t: &str| {
                    *index.get(&(*v, *b, t.to_string())).unwrap_or_else(|| panic!("{v} {t}"))
                };
                let def = match d["k"].as_str().unwrap() {
                    "struct" => {
                        let fields: Vec<Field> = d["fields"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|f| Field {
                                n: f["n"].as_str().unwrap().into(),
                                ty: f["ty"].as_str().unwrap().into(),
                                opt: f["opt"].as_bool().unwrap(),
                                empty: f["empty_if_missing"] == true,
                                tag: f["tag"].as_i64().unwrap_or(0),
                                e: expr(&f["e"], *b, &res),
                            })
                            .collect();
                        let decl = d["decl"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| fields.iter().position(|f| f.n == x.as_str().unwrap()).unwrap())
                            .collect();
                        Def::Struct { fields, decl }
                    }
                    "wrap" => Def::Wrap(expr(&d["e"], *b, &res), d["ty"].as_str().unwrap().into()),
                    _ => Def::Choice {
                        via_choice: d["via"].as_str().unwrap_or("") == "choice",
                        bits: d["bits"].as_u64().unwrap_or(0) as u32,
                        off: d["off"].as_i64().unwrap_or(0) as i128,
                        variants: d["variants"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|x| {
                                (
                                    x["tag"].as_i64().unwrap(),
                                    x["n"].as_str().unwrap().to_string(),
                                    if x["e"].is_null() { None } else { Some(expr(&x["e"], *b, &res)) },
                                )
                            })
                            .collect(),
                    },
                };
                Ty { ver: *v, ba: *b, name: n.clone(), def }
            })
            .collect();
        Grammar { types, index }
    })
}
pub fn ty_id(ver: u32, ba: bool, name: &str) -> usize {
    *grammar().index.get(&(ver, ba, name.to_string())).unwrap_or_else(|| panic!("{ver} {name}"))
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Int(i128),
    Bool(bool),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<V>),
    Arr(Vec<V>),
    /// fields in grammar (protocol) order
    Struct(usize, Vec<V>),
    Wrap(usize, Box<V>),
    Choice(usize, usize, Option<Box<V>>),
}
impl V {
    /// the text `{:?}` of the decoded Rust value must have
    pub fn dbg(&self, o: &mut String) {
        let g = grammar();
        match self {
            V::Int(i) => o.push_str(&i.to_string()),
            V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            V::Bytes(b) => o.push_str(&format!("{b:?}")),
            V::Unit => o.push_str("()"),
            V::None => o.push_str("None"),
            V::Some(v) => {
                o.push_str("Some(");
                v.dbg(o);
                o.push(')');
            }
            V::Arr(vs) => {
                o.push('[');
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    v.dbg(o);
                }
                o.push(']');
            }
            V::Struct(t, vs) => {
                let Def::Struct { fields, decl } = &g.types[*t].def else { panic!() };
                o.push_str(&g.types[*t].name);
                if !decl.is_empty() {
                    o.push_str(" { ");
                    for (i, d) in decl.iter().enumerate() {
                        if i > 0 {
                            o.push_str(", ");
                        }
                        o.push_str(&fields[*d].n);
                        o.push_str(": ");
                        vs[*d].dbg(o);
                    }
                    o.push_str(" }");
                }
            }
            V::Wrap(t, v) => {
                o.push_str(&g.types[*t].name);
                o.push_str(" { value: ");
                v.dbg(o);
                o.push_str(" }");
            }
            V::Choice(t, k, v) => {
                let Def::Choice { variants, .. } = &g.types[*t].def else { panic!() };
                o.push_str(&variants[*k].1);
                if let Some(v) = v {
                    o.push('(');
                    v.dbg(o);
                    o.push(')');
                }
            }
        }
    }
    pub fn dbg_string(&self) -> String {
        let mut s = String::new();
        self.dbg(&mut s);
        s
    }
    /// field by name of a struct value
    pub fn f(&self, name: &str) -> &V {
        let V::Struct(t, vs) = self else { panic!("{self:?} has no fields ({name})") };
        let Def::Struct { fields, .. } = &grammar().types[*t].def else { panic!() };
        &vs[fields.iter().position(|f| f.n == name).unwrap_or_else(|| panic!("{name}"))]
    }
    pub fn f_mut(&mut self, name: &str) -> &mut V {
        let V::Struct(t, vs) = self else { panic!("no fields ({name})") };
        let Def::Struct { fields, .. } = &grammar().types[*t].def else { panic!() };
        &mut vs[fields.iter().position(|f| f.n == name).unwrap()]
    }
    /// strips wrappers/payload choices down to the inner value
    pub fn inner(&self) -> &V {
        match self {
            V::Wrap(_, v) => v.inner(),
            v => v,
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            V::Int(i) => *i,
            V::Wrap(_, v) => v.int(),
            V::Choice(_, _, Some(v)) => v.int(),
            v => panic!("{v:?}"),
        }
    }
    pub fn variant(&self) -> (&'static str, Option<&V>) {
        let V::Choice(t, k, v) = self else { panic!("{self:?}") };
        let Def::Choice { variants, .. } = &grammar().types[*t].def else { panic!() };
        (variants[*k].1.as_str(), v.as_deref())
    }
    pub fn type_name(&self) -> &'static str {
        match self {
            V::Struct(t, _) | V::Wrap(t, _) | V::Choice(t, _, _) => grammar().types[*t].name.as_str(),
            _ => "",
        }
    }
}
pub fn narrow(n: &str) -> (i128, i128) {
    match n {
        "u8" => (0, u8::MAX as i128),
        "u16" => (0, u16::MAX as i128),
        "u32" => (0, u32::MAX as i128),
        "u64" => (0, i64::MAX as i128),
        "i8" => (i8::MIN as i128, i8::MAX as i128),
        "i16" => (i16::MIN as i128, i16::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "i64" => (-(i64::MAX as i128), i64::MAX as i128),
        x => panic!("{x}"),
    }
}

// ---------------------------------------------------------------- reference decoding
pub type R<T> = Result<T, ()>;
pub fn ref_vlq(inp: &[u8]) -> R<(i128, usize)> {
    // sign bit, 6 bits, then 7 per byte, least significant group first
    let mut mag: u128 = 0;
    let mut shift = 0u32;
    let mut neg = false;
    for (i, b) in inp.iter().enumerate() {
        if i >= 10 {
            return Err(());
        }
        let v = (*b & 0x7f) as u128;
        if i == 0 {
            neg = v & 1 == 1;
            mag = v >> 1;
            shift = 6;
        } else {
            mag |= v << shift;
            shift += 7;
        }
        if b & 0x80 == 0 {
            if mag >= 1 << 63 {
                return Err(());
            }
            return Ok((if neg { -(mag as i128) } else { mag as i128 }, i + 1));
        }
    }
    Err(())
}
fn p_vlq<'a>(i: &'a [u8]) -> R<(i128, &'a [u8])> {
    let (v, n) = ref_vlq(i)?;
    Ok((v, &i[n..]))
}
fn p_tag(i: &[u8], t: u8) -> R<&[u8]> {
    if i.first() == Some(&t) { Ok(&i[1..]) } else { Err(()) }
}
pub fn ref_ba<'a>(e: &E, i: &'a [u8]) -> R<(V, &'a [u8])> {
    Ok(match e {
        E::Vlq(n) => {
            let (v, i) = p_vlq(p_tag(i, 9)?)?;
            let (lo, hi) = narrow(n);
            if v < lo || v > hi {
                return Err(());
            }
            (V::Int(v), i)
        }
        E::Blob => {
            let (v, i) = p_vlq(p_tag(i, 2)?)?;
            if v < 0 || v > i.len() as i128 {
                return Err(());
            }
            (V::Bytes(i[..v as usize].to_vec()), &i[v as usize..])
        }
        E::Bool => {
            let i = p_tag(i, 6)?;
            (V::Bool(*i.first().ok_or(())? != 0), &i[1..])
        }
        E::FourCc => {
            let i = p_tag(i, 7)?;
            if i.len() < 4 {
                return Err(());
            }
            (V::Int(u32::from_be_bytes([i[0], i[1], i[2], i[3]]) as i128), &i[4..])
        }
        E::Opt(e) => {
            let i = p_tag(i, 4)?;
            let p = *i.first().ok_or(())?;
            if p != 0 {
                let (v, i) = ref_ba(e, &i[1..])?;
                (V::Some(Box::new(v)), i)
            } else {
                (V::None, &i[1..])
            }
        }
        E::ArrBa(e) => {
            let (n, mut i) = p_vlq(p_tag(i, 0)?)?;
            if n < 0 || n > i.len() as i128 {
                return Err(()); // every element takes at least one byte
            }
            let mut out = vec![];
            for _ in 0..n {
                let (v, t) = ref_ba(e, i)?;
                i = t;
                out.push(v);
            }
            (V::Arr(out), i)
        }
        E::Type(t) => return ref_ba_type(*t, i),
        x => panic!("{x:?}"),
    })
}
pub fn ref_ba_type(t: usize, i: &[u8]) -> R<(V, &[u8])> {
    match &grammar().types[t].def {
        Def::Wrap(e, _) => {
            let (v, i) = ref_ba(e, i)?;
            Ok((V::Wrap(t, Box::new(v)), i))
        }
        Def::Choice { via_choice, variants, .. } => {
            let (n, i) = p_vlq(p_tag(i, if *via_choice { 3 } else { 9 })?)?;
            let k = variants.iter().position(|v| v.0 as i128 == n).ok_or(())?;
            match &variants[k].2 {
                None => Ok((V::Choice(t, k, None), i)),
                Some(e) => {
                    let (v, i) = ref_ba(e, i)?;
                    Ok((V::Choice(t, k, Some(Box::new(v))), i))
                }
            }
        }
        Def::Struct { fields, .. } => {
            let (n, mut i) = p_vlq(p_tag(i, 5)?)?;
            let mut vals: Vec<Option<V>> = fields.iter().map(|f| if f.opt { Some(V::None) } else { None }).collect();
            if n < 0 || n > i.len() as i128 {
                return Err(());
            }
            for _ in 0..n {
                let (tag, t) = p_vlq(i)?;
                i = t;
                let k = fields.iter().position(|f| f.tag as i128 == tag).ok_or(())?;
                match &vals[k] {
                    None => {}
                    Some(V::None) if fields[k].opt => {}
                    _ => return Err(()),
                }
                let (v, t) = ref_ba(&fields[k].e, i)?;
                i = t;
                vals[k] = Some(v);
            }
            let vs: Option<Vec<V>> = vals.into_iter().zip(fields).map(|(v, f)| if f.empty { Some(v.unwrap_or(V::Bytes(vec![]))) } else { v }).collect();
            Ok((V::Struct(t, vs.ok_or(())?), i))
        }
    }
}
#[derive(Clone, Copy)]
pub struct Bits<'a> {
    pub d: &'a [u8],
    pub pos: usize, // in bits
}
impl Bits<'_> {
    pub fn take(&mut self, n: usize) -> R<u128> {
        if self.pos + n > self.d.len() * 8 {
            return Err(());
        }
        let mut v = 0u128;
        let mut left = n;
        while left > 0 {
            let off = self.pos % 8;
            let k = left.min(8 - off);
            let chunk = (self.d[self.pos / 8] >> off) as u128 & ((1 << k) - 1);
            v = v << k | chunk;
            self.pos += k;
            left -= k;
        }
        Ok(v)
    }
    pub fn align(&mut self) {
        self.pos = self.pos.div_ceil(8) * 8;
    }
    pub fn array(&mut self, n: usize) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![0]);
        }
        let mut out = vec![];
        let mut left = n;
        while left > 0 {
            let k = left.min(8);
            out.push(self.take(k)? as u8);
            left -= k;
        }
        Ok(out)
    }
}
pub fn ref_bp(e: &E, r: &mut Bits) -> R<V> {
    Ok(match e {
        E::Int(off, n) => {
            let v = r.take(*n as usize)? as u64 as i64;
            V::Int((*off as i64).wrapping_add(v) as i128)
        }
        E::Bool => V::Bool(r.take(1)? != 0),
        E::Byte => V::Int(r.take(8)? as i128),
        E::FourCcB => V::Bytes(r.array(32)?),
        E::Null => V::Unit,
        E::Opt(e) => {
            if r.take(1)? != 0 {
                V::Some(Box::new(ref_bp(e, r)?))
            } else {
                V::None
            }
        }
        E::ArrBp(off, n, e) => {
            let len = off + r.take(*n as usize)? as i128;
            let mut out = vec![];
            for _ in 0..len.max(0) {
                out.push(ref_bp(e, r)?);
            }
            V::Arr(out)
        }
        E::Str(off, n) => {
            let len = off + r.take(*n as usize)? as i128;
            r.align();
            V::Bytes(r.array(len as usize * 8)?)
        }
        E::Bits64(n) => {
            let len = r.take(*n as usize)? as usize;
            if len > 64 {
                return Err(());
            }
            V::Int(r.take(len)? as u64 as i64 as i128)
        }
        E::BitArr(n) => {
            let len = r.take(*n as usize)? as usize;
            V::Bytes(r.array(len)?)
        }
        E::ABlob(n) => {
            r.align();
            V::Bytes(r.array(*n)?)
        }
        E::Type(t) => ref_bp_type(*t, r)?,
        x => panic!("{x:?}"),
    })
}
pub fn ref_bp_type(t: usize, r: &mut Bits) -> R<V> {
    match &grammar().types[t].def {
        Def::Wrap(e, _) => Ok(V::Wrap(t, Box::new(ref_bp(e, r)?))),
        Def::Choice { bits, off, variants, .. } => {
            let n = off + r.take(*bits as usize)? as i128;
            let k = variants.iter().position(|v| v.0 as i128 == n).ok_or(())?;
            match &variants[k].2 {
                None => Ok(V::Choice(t, k, None)),
                Some(e) => Ok(V::Choice(t, k, Some(Box::new(ref_bp(e, r)?)))),
            }
        }
        Def::Struct { fields, .. } => {
            let mut vs = vec![];
            for f in fields {
                vs.push(ref_bp(&f.e, r)?);
            }
            Ok(V::Struct(t, vs))
        }
    }
}

// ---------------------------------------------------------------- encoding
pub fn put_vlq(v: i128, o: &mut Vec<u8>) {
    put_vlq_padded(v, 0, o)
}
pub fn put_vlq_padded(v: i128, pad: usize, o: &mut Vec<u8>) {
    let mut m = v.unsigned_abs();
    let mut groups = vec![((m & 0x3f) << 1) as u8 | (v < 0) as u8];
    m >>= 6;
    while m != 0 {
        groups.push((m & 0x7f) as u8);
        m >>= 7;
    }
    for _ in 0..pad {
        groups.push(0);
    }
    let n = groups.len();
    for (i, g) in groups.into_iter().enumerate() {
        o.push(if i + 1 < n { g | 0x80 } else { g });
    }
}
pub enum Mutate {
    None,
    /// shuffle field order of every record
    Shuffle,
    Drop,
    Dup,
    UnknownTag,
}
pub struct Enc<'a> {
    pub o: Vec<u8>,
    pub rng: &'a mut Rng,
    pub m: Mutate,
    /// how many record-level mutations remain to be applied
    pub left: usize,
}
impl Enc<'_> {
    pub fn ba(&mut self, e: &E, v: &V) {
        match (e, v) {
            (E::Vlq(_), V::Int(i)) => {
                self.o.push(9);
                put_vlq(*i, &mut self.o)
            }
            (E::Blob, V::Bytes(b)) => {
                self.o.push(2);
                put_vlq(b.len() as i128, &mut self.o);
                self.o.extend(b)
            }
            (E::Bool, V::Bool(b)) => {
                self.o.push(6);
                let x = if *b { 1 + self.rng.below(255) as u8 } else { 0 };
                self.o.push(x)
            }
            (E::FourCc, V::Int(i)) => {
                self.o.push(7);
                self.o.extend((*i as u32).to_be_bytes())
            }
            (E::Opt(_), V::None) => self.o.extend([4, 0]),
            (E::Opt(e), V::Some(v)) => {
                self.o.push(4);
                let x = if self.rng.chance(3, 4) { 1 } else { 1 + self.rng.below(255) as u8 };
                self.o.push(x);
                self.ba(e, v)
            }
            (E::ArrBa(e), V::Arr(vs)) => {
                self.o.push(0);
                put_vlq(vs.len() as i128, &mut self.o);
                for v in vs {
                    self.ba(e, v)
                }
            }
            (E::Type(t), v) => self.ba_type(*t, v),
            x => panic!("{x:?}"),
        }
    }
    pub fn ba_type(&mut self, t: usize, v: &V) {
        match (&grammar().types[t].def, v) {
            (Def::Wrap(e, _), V::Wrap(_, v)) => self.ba(e, v),
            (Def::Choice { via_choice, variants, .. }, V::Choice(_, k, p)) => {
                self.o.push(if *via_choice { 3 } else { 9 });
                put_vlq(variants[*k].0 as i128, &mut self.o);
                if let (Some(e), Some(p)) = (&variants[*k].2, p) {
                    self.ba(e, p)
                }
            }
            (Def::Struct { fields, .. }, V::Struct(_, vs)) => {
                let mut entries: Vec<usize> = vec![];
                for (k, f) in fields.iter().enumerate() {
                    // absent optionals are sometimes left out altogether
                    if f.opt && vs[k] == V::None && self.rng.chance(1, 2) {
                        continue;
                    }
                    entries.push(k);
                }
                let hit = self.left > 0 && !entries.is_empty() && self.rng.chance(1, 2);
                let mut unknown = None;
                match self.m {
                    Mutate::Shuffle => {
                        for i in (1..entries.len()).rev() {
                            let j = self.rng.below(i + 1);
                            entries.swap(i, j)
                        }
                    }
                    Mutate::Drop if hit => {
                        let k = self.rng.below(entries.len());
                        entries.remove(k);
                        self.left -= 1
                    }
                    Mutate::Dup if hit => {
                        let k = self.rng.below(entries.len());
                        let at = self.rng.below(entries.len() + 1);
                        entries.insert(at, entries[k]);
                        self.left -= 1
                    }
                    Mutate::UnknownTag if hit => {
                        unknown = Some(self.rng.below(entries.len()));
                        self.left -= 1
                    }
                    _ => {}
                }
                self.o.push(5);
                put_vlq(entries.len() as i128, &mut self.o);
                for (i, k) in entries.into_iter().enumerate() {
                    let mut tag = fields[k].tag as i128;
                    if unknown == Some(i) {
                        tag = match self.rng.below(3) {
                            0 => fields.iter().map(|f| f.tag as i128).max().unwrap() + 1,
                            1 => -1 - tag,
                            _ => self.rng.int(-1 << 40, 1 << 40),
                        };
                    }
                    put_vlq(tag, &mut self.o);
                    self.ba(&fields[k].e, &vs[k]);
                }
            }
            x => panic!("{x:?}"),
        }
    }
}
#[derive(Default, Clone)]
pub struct BitOut {
    pub o: Vec<u8>,
    pub pos: usize,
}
impl BitOut {
    pub fn put(&mut self, v: u128, n: usize) {
        let mut left = n;
        while left > 0 {
            let off = self.pos % 8;
            if off == 0 {
                self.o.push(0);
            }
            let k = left.min(8 - off);
            let chunk = (v >> (left - k)) as u8 & ((1u16 << k) - 1) as u8;
            *self.o.last_mut().unwrap() |= chunk << off;
            self.pos += k;
            left -= k;
        }
    }
    pub fn align(&mut self, fill: u128) {
        let n = (8 - self.pos % 8) % 8;
        self.put(fill & ((1 << n) - 1), n);
    }
    pub fn array(&mut self, b: &[u8], n: usize) {
        let mut left = n;
        for x in b {
            let k = left.min(8);
            self.put(*x as u128, k);
            left -= k;
        }
    }
    pub fn e(&mut self, e: &E, v: &V, rng: &mut Rng) {
        match (e, v) {
            (E::Int(off, n), V::Int(i)) => self.put((*i as i64).wrapping_sub(*off as i64) as u64 as u128, *n as usize),
            (E::Bool, V::Bool(b)) => self.put(*b as u128, 1),
            (E::Byte, V::Int(i)) => self.put(*i as u128, 8),
            (E::FourCcB, V::Bytes(b)) => self.array(b, 32),
            (E::Null, _) => {}
            (E::Opt(_), V::None) => self.put(0, 1),
            (E::Opt(e), V::Some(v)) => {
                self.put(1, 1);
                self.e(e, v, rng)
            }
            (E::ArrBp(off, n, e), V::Arr(vs)) => {
                self.put((vs.len() as i128 - off) as u128, *n as usize);
                for v in vs {
                    self.e(e, v, rng)
                }
            }
            (E::Str(off, n), V::Bytes(b)) => {
                self.put((b.len() as i128 - off) as u128, *n as usize);
                self.align(rng.byte() as u128);
                self.array(b, b.len() * 8)
            }
            (E::Bits64(n), V::Int(i)) => {
                let i = *i as i64 as u64;
                let need = 64 - i.leading_zeros() as usize;
                let room = ((1usize << n) - 1).min(64);
                let len = need + rng.below(room - need + 1);
                self.put(len as u128, *n as usize);
                self.put(i as u128, len)
            }
            (E::BitArr(n), V::Bytes(b)) => {
                let len = b.len() * 8;
                self.put(len as u128, *n as usize);
                self.array(b, len)
            }
            (E::ABlob(n), V::Bytes(b)) => {
                self.align(rng.byte() as u128);
                self.array(b, *n)
            }
            (E::Type(t), v) => self.ty(*t, v, rng),
            x => panic!("{x:?}"),
        }
    }
    pub fn ty(&mut self, t: usize, v: &V, rng: &mut Rng) {
        match (&grammar().types[t].def, v) {
            (Def::Wrap(e, _), V::Wrap(_, v)) => self.e(e, v, rng),
            (Def::Choice { bits, off, variants, .. }, V::Choice(_, k, p)) => {
                self.put((variants[*k].0 as i128 - off) as u128, *bits as usize);
                if let (Some(e), Some(p)) = (&variants[*k].2, p) {
                    self.e(e, p, rng)
                }
            }
            (Def::Struct { fields, .. }, V::Struct(_, vs)) => {
                for (f, v) in fields.iter().zip(vs) {
                    self.e(&f.e, v, rng)
                }
            }
            x => panic!("{x:?}"),
        }
    }
}

// ---------------------------------------------------------------- random values
/// `budget` bounds the number of array elements in the whole tree
pub fn gen_e(e: &E, rng: &mut Rng, budget: &mut usize) -> V {
    let len = |rng: &mut Rng, max: usize, budget: &mut usize| {
        let cap = max.min(9).min(*budget / 2 + 1);
        let n = match rng.below(5) {
            0 => 0,
            1 => cap.min(1),
            2 => cap.min(2),
            _ => rng.below(cap + 1),
        };
        // long lists only near the top of the tree
        let n = if *budget >= 6 { rng.size(n, max) } else { n };
        *budget = budget.saturating_sub(n);
        n
    };
    match e {
        E::Vlq(n) => {
            let (lo, hi) = narrow(n);
            V::Int(rng.int(lo, hi))
        }
        E::Blob => {
            let n = rng.below(12);
            V::Bytes(text(rng, n, usize::MAX))
        }
        E::Bool => V::Bool(rng.chance(1, 2)),
        E::FourCc => V::Int(rng.int(0, u32::MAX as i128)),
        E::FourCcB => V::Bytes(rng.bytes(4)),
        E::Type(t) => gen_ty(*t, rng, budget),
        E::Opt(e) => {
            if rng.chance(3, 5) {
                V::Some(Box::new(gen_e(e, rng, budget)))
            } else {
                V::None
            }
        }
        E::ArrBa(e) => {
            let n = len(rng, usize::MAX, budget);
            V::Arr((0..n).map(|_| gen_e(e, rng, budget)).collect())
        }
        E::Int(off, n) => {
            if *n >= 64 {
                V::Int(rng.u64() as i64 as i128)
            } else {
                V::Int(off + rng.int(0, (1i128 << n) - 1))
            }
        }
        E::Byte => V::Int(rng.byte() as i128),
        E::Null => V::Unit,
        E::ArrBp(off, n, e) => {
            let max = ((1usize << (*n).min(20)) - 1) as i128;
            let k = len(rng, max as usize, budget) as i128;
            let k = k.max(*off).max(0);
            V::Arr((0..k).map(|_| gen_e(e, rng, budget)).collect())
        }
        E::Str(off, n) => {
            let max = (1usize << (*n).min(16)) - 1;
            let least = (*off).max(1) as usize;
            let k = (1 + rng.below(max.min(12))).max(least);
            let t = text(rng, k, max);
            V::Bytes(if t.len() < least { text(rng, k, k) } else { t })
        }
        E::Bits64(n) => {
            let room = ((1usize << n) - 1).min(64);
            let w = rng.below(room + 1);
            V::Int(if w == 0 { 0 } else { (rng.u64() >> (64 - w)) as i64 as i128 })
        }
        E::BitArr(n) => {
            let max = (((1usize << (*n).min(16)) - 1) / 8).min(12);
            if max == 0 {
                return V::Bytes(vec![0]);
            }
            let k = 1 + rng.below(max);
            V::Bytes(rng.bytes(k))
        }
        E::ABlob(n) => {
            let k = n.div_ceil(8);
            V::Bytes(rng.bytes(k))
        }
        #[allow(unreachable_patterns)]
        x => panic!("{x:?}"),
    }
}
/// usually n bytes, never more than max
fn text(rng: &mut Rng, n: usize, max: usize) -> Vec<u8> {
    if max > n {
        let w = match rng.word() {
            Some(w) => Some(w),
            None if rng.chance(1, 10) => {
                let w = *rng.pick(&["Marine", "Zergling", "Larva", "SCV"]);
                Some(rng.near(w))
            }
            None => None,
        };
        if let Some(w) = w {
            if w.len() <= max {
                return w.into_bytes();
            }
        }
    }
    let n = if max > n { rng.size(n, max) } else { n };
    if rng.chance(1, 4) {
        return rng.bytes(n);
    }
    if n < 20 && rng.chance(1, 4) {
        let mut t = "Zergling Ünit ☃ Liberator".chars().skip(rng.below(10)).take(n).collect::<String>();
        while t.len() > max {
            t.pop();
        }
        if t.len() >= n {
            return t.into_bytes();
        }
    }
    (0..n).map(|_| *rng.pick(b"abcdefgXYZ0189_. ")).collect()
}
pub fn gen_ty(t: usize, rng: &mut Rng, budget: &mut usize) -> V {
    match &grammar().types[t].def {
        Def::Wrap(e, _) => V::Wrap(t, Box::new(gen_e(e, rng, budget))),
        Def::Choice { variants, .. } => {
            let k = rng.below(variants.len());
            V::Choice(t, k, variants[k].2.as_ref().map(|e| Box::new(gen_e(e, rng, budget))))
        }
        Def::Struct { fields, .. } => V::Struct(t, fields.iter().map(|f| gen_e(&f.e, rng, budget)).collect()),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
