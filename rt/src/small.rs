//! C12, C13 (expansion), C19, C20, C22.
use crate::grammar::{hex, unhex};
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::game_events::ability::*;
use s2protocol::tracker_events::*;
use serde_json::{Value as J, json};
use std::collections::HashMap;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, contract says {want:?}")) }
}
// ------------------------------------------------------------ C12
fn c12_gen(r: &mut Rng, i: usize) -> J {
    let tag = match i % 3 {
        0 => r.int(0, u32::MAX as i128) as i64,
        1 => r.int(i64::MIN as i128, i64::MAX as i128) as i64,
        _ => 1i64 << (i / 3 % 63),
    };
    json!({"tag": tag, "i": r.int(0, (1 << 14) - 1) as i64, "r": r.int(0, (1 << 18) - 1) as i64,
           "wi": r.int(0, u32::MAX as i128) as i64, "wr": r.int(0, u32::MAX as i128) as i64})
}
fn c12_run(c: &J) -> Verdict {
    let g = |k: &str| c[k].as_i64().unwrap();
    let tag = g("tag") as i128;
    eq("unit_tag_index", unit_tag_index(tag as i64) as i128, tag.div_euclid(1 << 18).rem_euclid(1 << 14))?;
    eq("unit_tag_recycle", unit_tag_recycle(tag as i64) as i128, tag.rem_euclid(1 << 18))?;
    let (i, r) = (g("i") as u32, g("r") as u32);
    let t = unit_tag(i, r);
    eq("join then split", (unit_tag_index(t), unit_tag_recycle(t)), (i, r))?;
    eq("unit_tag", unit_tag(g("wi") as u32, g("wr") as u32) as i128, g("wi") as i128 * (1 << 18) + g("wr") as i128)?;
    if (0..1i128 << 32).contains(&tag) {
        eq("split then join", unit_tag(unit_tag_index(tag as i64), unit_tag_recycle(tag as i64)) as i128, tag)?;
    }
    Ok(true)
}
// ------------------------------------------------------------ C13
pub fn expand(first: u32, items: &[i32]) -> Vec<(u32, i32, i32)> {
    let mut idx = first as i128;
    let mut out = vec![];
    let mut k = 0;
    while k + 3 <= items.len() {
        idx += items[k] as i128;
        let c = |v: i32| (v as i128 * 4).clamp(i32::MIN as i128, i32::MAX as i128) as i32;
        out.push((idx.rem_euclid(1 << 32) as u32, c(items[k + 1]), c(items[k + 2])));
        k += 3;
    }
    out
}
pub fn c13_gen(r: &mut Rng, _i: usize) -> J {
    let n = r.below(14);
    let n = r.size(n, 900);
    let full = r.chance(1, 2);
    let items: Vec<i64> = (0..n)
        .map(|_| if full { r.int(i32::MIN as i128, i32::MAX as i128) } else { r.range(-3, 300) } as i64)
        .collect();
    json!({"kind": "expand", "first": r.int(0, u32::MAX as i128) as i64, "items": items})
}
pub fn c13_expand_run(c: &J) -> Verdict {
    let first = c["first"].as_i64().unwrap() as u32;
    let items: Vec<i32> = c["items"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect();
    let want = expand(first, &items);
    let got: Vec<(u32, i32, i32)> = UnitPositionsEvent { first_unit_index: first, items }
        .to_unit_positions_vec()
        .into_iter()
        .map(|p| (p.tag, p.x, p.y))
        .collect();
    eq("expansion", got, want)?;
    Ok(true)
}
// ------------------------------------------------------------ C19
pub fn c19_units(r: &mut Rng) -> J {
    // small id spaces so that look-ups collide often
    let id = |r: &mut Rng, p: &str| {
        let w = format!("{p}{}", r.below(6));
        match r.word() {
            Some(w) => w,
            None if r.chance(1, 12) => r.near(&w),
            None => w,
        }
    };
    // a number few of which differ, seldom one that is far off
    let few = |r: &mut Rng| if r.chance(1, 30) { *r.pick(&[255usize, 256, 65_535, 16]) } else { r.below(3) };
    let mut units = serde_json::Map::new();
    for u in ["Marine", "SCV", "Hatchery", "Overlord"] {
        if r.chance(1, 5) {
            continue;
        }
        let u = crate::sm::name(r, &[u]);
        let ab: Vec<J> = (0..r.below(5))
            .map(|_| {
                let cmds: Vec<J> = (0..r.below(4))
                    .map(|_| json!({"id": (if r.chance(1, 5) { J::Null } else { json!(id(r, "c")) }), "index": few(r)}))
                    .collect();
                json!({"id": id(r, "a"), "index": (if r.chance(1, 4) { J::Null } else { json!(few(r)) }), "commands": cmds})
            })
            .collect();
        let refs = |r: &mut Rng, p: &str| -> Vec<J> {
            (0..r.below(4))
                .map(|_| {
                    let o = |r: &mut Rng| if r.chance(1, 5) { J::Null } else { json!(few(r)) };
                    json!({"id": id(r, p), "ability": o(r), "index": o(r)})
                })
                .collect()
        };
        let (t, b) = (refs(r, "t"), refs(r, "b"));
        let re: J = if r.chance(1, 3) {
            J::Null
        } else {
            (0..r.below(4)).map(|_| json!({"id": id(r, "r"), "ability": few(r), "index": few(r)})).collect()
        };
        units.insert(u, json!({"abilities": ab, "trains": t, "builds": b, "researches": re}));
    }
    J::Object(units)
}
fn c19_gen(r: &mut Rng, _i: usize) -> J {
    let units = c19_units(r);
    let mut q = crate::sm::name(r, &["Marine", "SCV", "Hatchery", "Nothing"]);
    if r.chance(1, 3) {
        // a unit that is there
        let k: Vec<&String> = units.as_object().unwrap().keys().collect();
        if !k.is_empty() {
            q = r.pick(&k).to_string();
        }
    }
    let n = |r: &mut Rng| if r.chance(1, 12) { *r.pick(&[255usize, 256, 65_535, 16]) } else { r.below(4) };
    json!({"units": units, "unit": q, "ability": n(r), "command": n(r)})
}
fn meta() -> Meta {
    Meta { name: "n".into(), tooltip: "".into(), icon: None, race: None, hotkey: None, source: None, index: None, kind: None }
}
fn cost() -> Cost {
    Cost { minerals: None, vespene: None, supply: None, time: None, energy: None, cooldown: None, life: None }
}
fn s(j: &J) -> String {
    j.as_str().unwrap_or("").to_string()
}
fn unit_refs(j: &J) -> Vec<UnitRef> {
    j.as_array()
        .unwrap()
        .iter()
        .map(|x| UnitRef {
            id: s(&x["id"]),
            name: None,
            ability_id: x["ability"].as_u64().map(|v| v as u16),
            command_index: x["index"].as_i64(),
            meta: None,
            cost: None,
            requires: Default::default(),
        })
        .collect()
}
pub fn balance(units: &J) -> VersionedBalanceUnits {
    let mut m: VersionedBalanceUnits = HashMap::new();
    for (name, u) in units.as_object().unwrap() {
        let mut v: VersionedBalanceUnit = VersionedBalanceUnit {
            id: name.clone(),
            version: 0,
            meta: meta(),
            life: Life { start: 1, max: 1, regen_rate: None },
            shields: None,
            armor: serde_json::from_value(json!({"@start": 0, "@max": 0})).unwrap(),
            shield_armor: serde_json::from_value(json!({"@start": 0, "@max": 0})).unwrap(),
            requires: Default::default(),
            cost: None,
            researches: None,
            movement: None,
            score: Score { build: None, kill: None },
            misc: Misc { radius: None, cargo_size: None, footprint: None, sight_radius: None, supply: None, range: None, speed: None, targets: None, count: None, cargo_capacity: None },
            producer: None,
            attributes: Default::default(),
            strengths: Default::default(),
            weaknesses: Default::default(),
            weapons: Default::default(),
            abilities: Default::default(),
            builds: BuildsTag { inner: unit_refs(&u["builds"]) },
            trains: TrainsTag { inner: unit_refs(&u["trains"]) },
            upgrades: Default::default(),
        };
        v.abilities.inner = u["abilities"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| Ability {
                id: s(&a["id"]),
                index: a["index"].as_u64().map(|x| x as u16),
                commands: a["commands"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|c| Command { id: c["id"].as_str().map(|x| x.to_string()), index: c["index"].as_i64().unwrap(), meta: meta() })
                    .collect(),
            })
            .collect();
        if let Some(rs) = u["researches"].as_array() {
            v.researches = Some(ResearchesTag {
                inner: rs
                    .iter()
                    .map(|x| ResearchUpgrade { id: s(&x["id"]), ability: x["ability"].as_u64().unwrap() as u16, index: x["index"].as_i64().unwrap(), meta: meta(), cost: cost() })
                    .collect(),
            });
        }
        m.insert(name.clone(), v);
    }
    m
}
pub fn lookup(units: &J, unit: &str, ab: u64, cmd: i64) -> String {
    let u = &units[unit];
    if u.is_null() {
        return String::new();
    }
    for a in u["abilities"].as_array().unwrap() {
        if a["index"].as_u64() == Some(ab) {
            for c in a["commands"].as_array().unwrap() {
                if c["index"].as_i64() == Some(cmd) {
                    return format!("{}.{}", s(&a["id"]), s(&c["id"]));
                }
            }
        }
    }
    for (k, p) in [("trains", "Train"), ("builds", "Build"), ("researches", "Research")] {
        for x in u[k].as_array().unwrap_or(&vec![]) {
            if x["ability"].as_u64() == Some(ab) && x["index"].as_i64() == Some(cmd) {
                return format!("{p}.{}", s(&x["id"]));
            }
        }
    }
    String::new()
}
fn c19_run(c: &J) -> Verdict {
    let (u, ab, cmd) = (c["unit"].as_str().unwrap(), c["ability"].as_u64().unwrap(), c["command"].as_i64().unwrap());
    let want = lookup(&c["units"], u, ab, cmd);
    let nt = !want.is_empty();
    eq("ability name", get_indexed_ability_command_name(&balance(&c["units"]), u, ab as u16, cmd), want)?;
    Ok(nt)
}
// ------------------------------------------------------------ C20
fn c20_gen(r: &mut Rng, i: usize) -> J {
    let le = |v: i128| (v as i32).to_le_bytes().to_vec();
    let big = r.chance(1, 40);
    let cap = if big { 256 } else { 12 };
    let dim = |r: &mut Rng| match r.below(30) {
        0 => r.int(i32::MIN as i128, i32::MAX as i128),
        1 => *r.pick(&[0, -1, 255, 256, 257, 1]),
        _ => r.range(1, cap),
    };
    let (w, h) = (dim(r), dim(r));
    let coord = |r: &mut Rng, hi: i128| match r.below(30) {
        0 => r.int(i32::MIN as i128, i32::MAX as i128),
        1 => hi,
        2 => hi + 1,
        3 => -1,
        4 => 0,
        _ => r.range(0, hi.clamp(0, 300)),
    };
    let (mut l, mut rt) = (coord(r, w), coord(r, w));
    let (mut b, mut t) = (coord(r, h), coord(r, h));
    if r.chance(3, 4) {
        (l, rt) = (l.min(rt), l.max(rt));
        (b, t) = (b.min(t), b.max(t));
    }
    let mut m = b"IpaM".to_vec();
    let ver = *r.pick(&[0x27i128, 24, 25, 23, 0, -1, i32::MIN as i128]);
    m.extend(le(ver));
    if ver > 24 {
        m.extend(r.bytes(8));
    }
    m.extend(le(w));
    m.extend(le(h));
    m.extend(r.bytes(8));
    m.extend(vec![0; r.below(4)]);
    let st = |r: &mut Rng| match r.below(6) {
        0 => crate::sm::name(r, &["Standard", "Caf\u{e9}", "\u{4e2d}", " Art", "Di\u{301}"]).replace('\0', "").into_bytes(),
        _ => {
            let n = r.below(4);
            (0..r.size(n, 300)).map(|_| 1 + r.below(255) as u8).collect::<Vec<u8>>()
        }
    };
    let mut s1 = st(r);
    if s1.is_empty() && r.chance(9, 10) {
        s1.push(4); // an empty first string is swallowed by the padding
    }
    m.extend(s1);
    m.push(0);
    m.extend(st(r));
    m.push(0);
    m.extend(r.bytes(5));
    m.extend(st(r));
    m.push(0);
    m.extend(st(r));
    m.push(0);
    for v in [l, b, rt, t] {
        m.extend(le(v));
    }
    let mut hm = b"HMAP\x65\x00\x00\x00".to_vec();
    let (tw, th) = match r.below(10) {
        0 => (w, h),
        1 => (w + 2, h + 1),
        2 => (h + 1, w + 1),
        _ => (w + 1, h + 1),
    };
    hm.extend(le(tw));
    hm.extend(le(th));
    hm.extend(r.bytes(16));
    let n = if w > 0 && h > 0 && w <= 256 && h <= 256 { (tw * th) as usize } else { 3 };
    let bad = if r.chance(1, 4) { r.below(n.max(1)) } else { usize::MAX };
    for k in 0..n {
        let mut x = r.bytes(6);
        x[4] = if k == bad { 5 + r.below(251) as u8 } else { r.below(5) as u8 };
        hm.extend(x);
    }
    match r.below(8) {
        0 => hm.truncate(hm.len() - r.below(7).min(hm.len())),
        1 => {
            let k = r.below(9);
            hm.extend(r.bytes(k))
        }
        2 => {
            let k = r.below(hm.len().min(40));
            hm[k] ^= 1 << r.below(8)
        }
        _ => {}
    }
    match i % 6 {
        0 => {
            let k = r.below(m.len() + 1);
            m.truncate(k)
        }
        1 => {
            let k = r.below(m.len());
            m[k] = r.byte()
        }
        _ => {
            let k = r.below(4);
            m.extend(r.bytes(k))
        }
    }
    json!({"map": hex(&m), "height": hex(&hm), "archive": r.chance(1, 5)})
}
struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn i32(&mut self) -> Option<i32> {
        Some(i32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn zstr(&mut self) -> Option<String> {
        let n = self.0.iter().position(|b| *b == 0)?;
        let s = String::from_utf8_lossy(self.take(n)?).to_string();
        self.take(1)?;
        Some(s)
    }
}
#[allow(clippy::type_complexity)]
fn ref_map(d: &[u8]) -> Option<(i32, [i32; 6], [String; 4], usize)> {
    let mut c = Cur(d);
    if c.take(4)? != b"IpaM" {
        return None;
    }
    let v = c.i32()?;
    if v > 24 {
        c.take(8)?;
    }
    let (w, h) = (c.i32()?, c.i32()?);
    if w > 256 || h > 256 {
        return None;
    }
    c.take(8)?;
    while c.0.first() == Some(&0) {
        c.take(1)?;
    }
    let (s1, s2) = (c.zstr()?, c.zstr()?);
    c.take(5)?;
    let (s3, s4) = (c.zstr()?, c.zstr()?);
    let (l, b, r, t) = (c.i32()?, c.i32()?, c.i32()?, c.i32()?);
    if !(0 <= l && l < r && r <= w && 0 <= b && b < t && t <= h) {
        return None;
    }
    Some((v, [w, h, l, b, r, t], [s1, s2, s3, s4], c.0.len()))
}
fn ref_height(d: &[u8], w: i32, h: i32) -> Option<(Vec<u8>, usize)> {
    let mut c = Cur(d);
    if c.take(8)? != b"HMAP\x65\x00\x00\x00" || c.i32()? != w + 1 || c.i32()? != h + 1 {
        return None;
    }
    c.take(16)?;
    let mut out = vec![];
    for _ in 0..(w + 1) * (h + 1) {
        let u = c.take(6)?;
        if u[4] > 4 {
            return None;
        }
        out.push(u[4]);
    }
    Some((out, c.0.len()))
}
fn c20_run(c: &J) -> Verdict {
    let d = unhex(c["map"].as_str().unwrap());
    let want = ref_map(&d);
    let got = MapInfo::parse(&d);
    let (m, (v, n, st, left)) = match (got, want) {
        (Err(_), None) => return Ok(false),
        (Ok((t, m)), Some(w)) => {
            eq("rest", t.len(), w.3)?;
            (m, w)
        }
        (g, w) => return Err(format!("map info: real {:?}, contract {w:?}", g.map(|x| x.1))),
    };
    let _ = left;
    eq("map fields", [m.cell_width, m.cell_height, m.cell_left, m.cell_bottom, m.cell_right, m.cell_top], n)?;
    eq("version", m.file_version, v)?;
    eq("strings", [&m.first_string, &m.second_string, &m.third_string, &m.fourth_string], [&st[0], &st[1], &st[2], &st[3]])?;
    let [w, h, l, b, r, t] = n;
    let p = |c: s2protocol::cache_handles::coords::MapTerrainCoord| (c.x, c.y);
    let q = |c: s2protocol::cache_handles::coords::MapCellCoord| (c.x, c.y);
    eq("cell_dim_map", q(m.cell_dim_map()), (w, h))?;
    eq("terrain_dim_map", p(m.terrain_dim_map()), (w + 1, h + 1))?;
    eq("cell_dim_playable", q(m.cell_dim_playable()), (r - l, t - b))?;
    eq("terrain_dim_playable", p(m.terrain_dim_playable()), (r - l + 1, t - b + 1))?;
    eq("cell_left_bottom", q(m.cell_left_bottom()), (l, b))?;
    eq("cell_right_top", q(m.cell_right_top()), (r, t))?;
    eq("terrain_left_bottom", p(m.terrain_left_bottom()), (l, b))?;
    eq("terrain_right_top", p(m.terrain_right_top()), (w + 1, h + 1))?;
    let hd = unhex(c["height"].as_str().unwrap());
    if c["archive"] == true && !d.is_empty() && !hd.is_empty() {
        let file = crate::mpq::archive(&[1], &[("MapInfo", &d), ("t3HeightMap", &hd)]);
        let Ok((_, mpq)) = s2protocol::parser::parse(&file) else { return Ok(false) };
        let f = MapInfo::from_mpq(&mpq, &file).map_err(|e| format!("map info read from an archive: {e:?}"))?;
        eq("map info read from an archive", format!("{f:?}"), format!("{m:?}"))?;
        let x = T3HeightMap::from_mpq(&mpq, &file, &m).map(|x| (x.width, x.height, x.data)).ok();
        eq("height map read from an archive", x, ref_height(&hd, w, h).map(|x| (w + 1, h + 1, x.0)))?;
    }
    match (T3HeightMap::parse(&hd, &m), ref_height(&hd, w, h)) {
        (Err(_), None) => Ok(true),
        (Ok((tail, x)), Some((want, left))) => {
            eq("height rest", tail.len(), left)?;
            eq("height dims", (x.width, x.height), (w + 1, h + 1))?;
            eq("heights", x.data, want)?;
            Ok(true)
        }
        (g, w) => Err(format!("height map: real {:?}, contract {:?}", g.map(|x| x.1.data.len()), w.map(|x| x.0.len()))),
    }
}
// ------------------------------------------------------------ C29
const VOID: &str = "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod";
const FIELDS: &[&str] = &["DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort", "MapInfo/Player00/Name", "MapInfo/Player01/Name", "DocInfo/Screenshot01",
    "DocInfo/HowToPlayBasic02", "DocInfo/HowToPlayAdvanced00", "DocInfo/Desc", "docinfo/name", "DocInfo/NameX", ""];
fn c29_gen(r: &mut Rng, _: usize) -> J {
    let mut m = b"H2CS".to_vec();
    m.extend(r.bytes(12));
    for k in 0..5 {
        m.extend(if k == 2 { r.bytes(4) } else { (r.int(i32::MIN as i128, i32::MAX as i128) as i32).to_le_bytes().to_vec() });
    }
    m.extend(r.bytes(12));
    m.extend(if r.chance(1, 10) { r.near(VOID) } else { VOID.into() }.into_bytes());
    m.push(if r.chance(1, 40) { 1 } else { 0 });
    let n = r.below(7);
    let n = r.size(n, 300);
    let said = if r.chance(1, 12) { r.below(9) } else { n };
    m.extend((said as u16).to_le_bytes());
    m.extend([0, if r.chance(1, 30) { r.byte() } else { 0 }]);
    let text = |r: &mut Rng, names: &[&str]| -> Vec<u8> {
        match r.below(8) {
            0 => {
                let k = r.below(9);
                let k = r.size(k, 65_535);
                r.bytes(k)
            }
            _ => crate::sm::name(r, names).into_bytes(),
        }
    };
    let mut ops = vec![];
    for _ in 0..n {
        let mut o = vec![];
        let k = if r.chance(1, 12) { text(r, FIELDS) } else { crate::sm::name(r, FIELDS).into_bytes() };
        let v = text(r, &["Tokamak LE", "", " Wide map\n", "2", "Caf\u{e9} <n/>", "\u{4e2d}\u{56fd}", "Di\u{301}", "%SubPath%"]);
        o.extend((k.len() as u16).to_le_bytes());
        o.extend(k);
        o.extend(if r.chance(1, 60) { *r.pick(&[b"SUen", b"SUNe", b"enUS", b"SUn\0"]) } else { b"SUne" });
        o.extend((v.len() as u16).to_le_bytes());
        o.extend(v);
        ops.push(json!(hex(&o)));
    }
    let k = r.below(9);
    let tail = r.bytes(k);
    let cut = if r.chance(1, 10) { r.below(m.len() + 40) } else { 0 };
    json!({"head": hex(&m), "ops": ops, "tail": hex(&tail), "cut": cut, "archive": r.chance(1, 6)})
}
#[allow(clippy::type_complexity)]
fn ref_doc(d: &[u8]) -> Option<([i32; 4], [String; 4], usize)> {
    let mut c = Cur(d);
    if c.take(4)? != b"H2CS" {
        return None;
    }
    c.take(12)?;
    let (x, y) = (c.i32()?, c.i32()?);
    c.take(4)?;
    let (a, b) = (c.i32()?, c.i32()?);
    c.take(12)?;
    let z = c.0.iter().position(|b| *b == 0).unwrap_or(c.0.len());
    let info = String::from_utf8_lossy(c.take(z)?).to_string();
    c.take(1)?;
    if info != VOID {
        return None;
    }
    let short = |c: &mut Cur| -> Option<usize> { Some(u16::from_le_bytes(c.take(2)?.try_into().unwrap()) as usize) };
    let n = short(&mut c)?;
    if c.take(2)? != [0, 0] {
        return None;
    }
    let (mut name, mut long, mut brief) = (String::new(), String::new(), String::new());
    for _ in 0..n {
        let k = short(&mut c)?;
        let k = String::from_utf8_lossy(c.take(k)?).to_string();
        if c.take(4)? != b"SUne" {
            return None;
        }
        let v = short(&mut c)?;
        let v = String::from_utf8_lossy(c.take(v)?).to_string();
        match &k[..] {
            "DocInfo/Name" => name = v,
            "DocInfo/DescLong" => long = v,
            "DocInfo/DescShort" => brief = v,
            _ => {}
        }
    }
    Some(([x, y, a, b], [info, name, long, brief], c.0.len()))
}
fn c29_run(c: &J) -> Verdict {
    let u = |k: &str| unhex(c[k].as_str().unwrap());
    let mut d = u("head");
    for o in c["ops"].as_array().unwrap() {
        d.extend(unhex(o.as_str().unwrap()));
    }
    d.extend(u("tail"));
    d.truncate(d.len() - (c["cut"].as_u64().unwrap() as usize).min(d.len()));
    let want = ref_doc(&d);
    let show = |h: &DocumentHeader| {
        (
            [h.maybe_dimension_x1, h.maybe_dimension_y1, h.some_epoch_1, h.some_epoch_2],
            [h.mod_info.clone(), h.name.clone(), h.description_long.clone(), h.description_short.clone()],
        )
    };
    let got = DocumentHeader::parse(&d).map(|(t, h)| (show(&h), t)).ok();
    match (&got, &want) {
        (None, None) => {}
        (Some((g, t)), Some(w)) => {
            eq("document header", g, &(w.0, w.1.clone()))?;
            eq("what follows", *t, &d[d.len() - w.2..])?;
        }
        (g, w) => return Err(format!("document header: real {:?}, contract {w:?}", g.as_ref().map(|x| &x.0))),
    }
    if c["archive"].as_bool().unwrap() && !d.is_empty() {
        let file = crate::mpq::archive(&[1], &[("DocumentHeader", &d)]);
        let Ok((_, mpq)) = s2protocol::parser::parse(&file) else { return Ok(false) };
        let from = DocumentHeader::from_mpq(&mpq, &file).map(|h| show(&h)).ok();
        eq("read from an archive", from, want.as_ref().map(|w| (w.0, w.1.clone())))?;
    }
    Ok(want.is_some())
}
// ------------------------------------------------------------ C22
fn c22_gen(r: &mut Rng, i: usize) -> J {
    let t = match i % 4 {
        0 => r.int(i64::MIN as i128, i64::MAX as i128),
        1 => 116_444_736_000_000_000 + r.range(-4_000_000_000_000_000_000, 4_000_000_000_000_000_000),
        2 => 132_000_000_000_000_000 + r.range(-10_000_000_000_000_000, 10_000_000_000_000_000),
        _ => r.int(-(1 << 62), 1 << 62),
    };
    let o = match r.below(4) {
        0 => r.int(i64::MIN as i128, i64::MAX as i128),
        1 => r.int(-(1 << 62), 1 << 62),
        _ => 36_000_000_000 * r.range(-14, 14) + r.range(0, 1) * r.range(-99, 99),
    };
    json!({"t": t as i64, "o": o as i64})
}
/// civil date of a day number relative to 1970-01-01 (independent of chrono)
fn civil(z: i128) -> (i128, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + (m <= 2) as i128, m, d)
}
fn c22_run(c: &J) -> Verdict {
    use chrono::{Datelike, Timelike};
    let (t, o) = (c["t"].as_i64().unwrap(), c["o"].as_i64().unwrap());
    let micros = t as i128 / 10 - 11_644_473_600_000_000 - o as i128 / 10;
    let day = micros.div_euclid(86_400_000_000);
    let rest = micros.rem_euclid(86_400_000_000);
    let (y, m, d) = civil(day);
    let got = s2protocol::transform_to_naivetime(t, o);
    // chrono's calendar spans the years -262143..=262142
    let want = if (-262143..=262142).contains(&y) {
        Some((y, m, d, (rest / 3_600_000_000) as u32, (rest / 60_000_000 % 60) as u32, (rest / 1_000_000 % 60) as u32, (rest % 1_000_000) as u32 * 1000))
    } else {
        None
    };
    let nt = want.is_some();
    eq("time", got.map(|g| (g.year() as i128, g.month(), g.day(), g.hour(), g.minute(), g.second(), g.nanosecond())), want)?;
    Ok(nt)
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", rule: "boundary-heavy 32 and 64 bit tags and in-range pairs; all count", n: (600_000, 5_000_000), generate: c12_gen, run: c12_run },
        Prop { id: "C19", rule: "random small balance tables with colliding ids; non-trivial when the look-up has an answer", n: (80_000, 500_000), generate: c19_gen, run: c19_run },
        Prop { id: "C29", rule: "structured map document headers: numbers, mod line, named texts of every kind (repeated, unknown, not valid UTF-8, long), some cut short or damaged, some inside an archive; non-trivial when accepted", n: (100_000, 600_000), generate: c29_gen, run: c29_run },
        Prop { id: "C20", rule: "structured map info and height map files with out-of-range dimensions, truncation and corruption; non-trivial when the map info is accepted", n: (16_000, 600_000), generate: c20_gen, run: c20_run },
        Prop { id: "C22", rule: "random timestamps and offsets over the whole 64-bit range; non-trivial when the contract yields a time", n: (600_000, 3_000_000), generate: c22_gen, run: c22_run },
    ]
}
