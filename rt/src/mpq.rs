//! Writes small MPQ archives, so that every reader can be driven with chosen bytes.
use crate::grammar::*;
use crate::rng::Rng;
use serde_json::{Value as J, json};

fn table() -> Vec<u32> {
    let mut seed = 0x0010_0001u32;
    let mut t = vec![0; 0x500];
    for i in 0..0x100 {
        for k in 0..5 {
            seed = (seed * 125 + 3) % 0x2AAAAB;
            let hi = (seed & 0xFFFF) << 16;
            seed = (seed * 125 + 3) % 0x2AAAAB;
            t[i + k * 0x100] = hi | seed & 0xFFFF;
        }
    }
    t
}
fn hash(t: &[u32], name: &str, kind: usize) -> u32 {
    let (mut a, mut b) = (0x7FED7FEDu32, 0xEEEEEEEEu32);
    for c in name.to_uppercase().bytes() {
        a = t[(kind << 8) + c as usize] ^ a.wrapping_add(b);
        b = (c as u32).wrapping_add(a).wrapping_add(b).wrapping_add(b << 5).wrapping_add(3);
    }
    a
}
fn encrypt(t: &[u32], words: &[u32], key: u32) -> Vec<u8> {
    let (mut a, mut b) = (key, 0xEEEEEEEEu32);
    let mut o = vec![];
    for w in words {
        b = b.wrapping_add(t[0x400 + (a & 0xFF) as usize]);
        o.extend((w ^ a.wrapping_add(b)).to_le_bytes());
        a = ((!a << 0x15).wrapping_add(0x11111111)) | (a >> 0x0B);
        b = w.wrapping_add(b).wrapping_add(b << 5).wrapping_add(3);
    }
    o
}
/// An archive whose user data is `content`, holding these files uncompressed.
pub fn archive(content: &[u8], files: &[(&str, &[u8])]) -> Vec<u8> {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<u32>> = OnceLock::new();
    let t = T.get_or_init(table);
    let start = 16 + content.len() + 8;
    let mut body = vec![];
    let (mut hashes, mut blocks) = (vec![], vec![]);
    for (i, (n, d)) in files.iter().enumerate() {
        hashes.extend([hash(t, n, 1), hash(t, n, 2), 0, i as u32]);
        blocks.extend([32 + body.len() as u32, d.len() as u32, d.len() as u32, 0x8100_0000]);
        body.extend_from_slice(d);
    }
    let n = files.len() as u32;
    let (ho, bo) = (32 + body.len() as u32, 32 + body.len() as u32 + 16 * n);
    let mut o = b"MPQ\x1b".to_vec();
    for w in [content.len() as u32 + 8, start as u32, content.len() as u32] {
        o.extend(w.to_le_bytes());
    }
    o.extend_from_slice(content);
    o.resize(start, 0);
    o.extend(b"MPQ\x1a");
    for w in [32, bo + 16 * n] {
        o.extend(w.to_le_bytes());
    }
    o.extend([0, 0, 3, 0]);
    for w in [ho, bo, n, n] {
        o.extend(w.to_le_bytes());
    }
    o.extend(body);
    o.extend(encrypt(t, &hashes, hash(t, "(hash table)", 3)));
    o.extend(encrypt(t, &blocks, hash(t, "(block table)", 3)));
    o
}
/// The archive a case describes: with its user data, or without any.
pub fn made(o: &J, files: &[(&str, &[u8])]) -> Vec<u8> {
    let h = unhex(o["header"].as_str().unwrap());
    let mut d = archive(&h, files);
    if o["bare"] == true {
        d.drain(..16 + h.len() + 8);
    }
    d
}
/// Makes a case's archive one that is no replay: another signature, or no user data.
pub fn foreign(o: &mut J, build: u32, r: &mut Rng) {
    if r.chance(1, 3) {
        o["bare"] = json!(true);
    } else {
        let s: &[&[u8]] = &[b"", b"StarCraft II replay\x1b12", b"StarCraft II replay\x1b1", b"StarCraft II replay\x1b11\0", b"starCraft II replay\x1b11", b"StarCraft II replay", b"Warcraft III replay\x1b11"];
        o["header"] = json!(hex(&signed(build, r.pick(s), r)));
        o["foreign"] = json!(true);
    }
}
/// An encoded replay header of this base build; the rest of it is random.
pub fn header(build: u32, r: &mut Rng) -> Vec<u8> {
    signed(build, b"StarCraft II replay\x1b11", r)
}
fn signed(build: u32, signature: &[u8], r: &mut Rng) -> Vec<u8> {
    let t = ty_id(87702, true, "ReplaySHeader");
    let mut v = gen_ty(t, r, &mut 6);
    *v.f_mut("m_signature") = V::Bytes(signature.to_vec());
    *v.f_mut("m_version").f_mut("m_base_build") = V::Int(build as i128);
    let mut e = Enc { o: vec![], m: Mutate::None, rng: r, left: 0 };
    e.ba_type(t, &v);
    e.o
}
/// A file in a scratch directory, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(data: &[u8]) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("rt-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        let p = d.join("case.SC2Replay");
        std::fs::write(&p, data).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
        let _ = std::fs::remove_dir(self.0.parent().unwrap());
    }
}
