//! C09: the base build picks the protocol.  Whole archives are written, read back by every reader,
//! and compared with the reference reading under the protocol the build names.
use crate::grammar::*;
use crate::mpq;
use crate::neutral::*;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::game_events::GameEventIteratorState;
use s2protocol::tracker_events::TrackertEventIteratorState;
use s2protocol::versions::{protocol75689, protocol87702};
use serde_json::{Value as J, json};
use std::path::PathBuf;

fn pick(c: &J, k: &str) -> Vec<u8> {
    c["ops"].as_array().unwrap().iter().filter(|o| o[0] == k).flat_map(|o| unhex(o[1].as_str().unwrap())).collect::<Vec<u8>>().repeat(c["flood"].as_u64().unwrap_or(1) as usize)
}
/// one encoded chat or other message
pub fn message_record(r: &mut Rng, ver: u32) -> String {
    let (dt, ut, mt) = (ty_id(ver, false, "SVarUint32"), ty_id(ver, false, "ReplaySGameUserId"), ty_id(ver, false, "GameEMessageId"));
    let mut o = BitOut::default();
    let d = gen_ty(dt, r, &mut 4);
    let u = gen_ty(ut, r, &mut 4);
    let mut m = gen_choice(mt, if r.chance(2, 3) { Some("EChat") } else { None }, r);
    fix_text(&mut m, r);
    o.ty(dt, &d, r);
    o.ty(ut, &u, r);
    o.ty(mt, &m, r);
    o.align(r.byte() as u128);
    hex(&o.o)
}
/// lobby data without slots, the part both protocols lay out alike
pub fn lobby(r: &mut Rng, slots: bool) -> Vec<u8> {
    let t = ty_id(87702, false, "ReplaySInitData");
    let mut v = gen_ty(t, r, &mut 14);
    fix_text(&mut v, r);
    if !slots {
        let V::Wrap(_, s) = v.f_mut("m_sync_lobby_state").f_mut("m_lobby_state").f_mut("m_slots") else { panic!() };
        **s = V::Arr(vec![]);
    }
    let mut o = BitOut::default();
    o.ty(t, &v, r);
    o.align(0);
    o.o
}
pub fn details(r: &mut Rng) -> Vec<u8> {
    let t = ty_id(87702, true, "GameSDetails");
    let mut v = gen_ty(t, r, &mut 14);
    fix_text(&mut v, r);
    let mut e = enc(r);
    e.ba_type(t, &v);
    e.o
}
fn generate(r: &mut Rng, _: usize) -> J {
    let build = build(r);
    let mut ops = vec![];
    for _ in 0..1 + r.below(3) {
        ops.push(json!(["t", tracker_record(r, build, None, None)]));
    }
    for _ in 0..1 + r.below(4) {
        let k = if r.chance(1, 2) { Some("ECmd") } else { None };
        ops.push(json!(["g", game_record(r, build, None, k)]));
    }
    for _ in 0..1 + r.below(2) {
        ops.push(json!(["m", message_record(r, proto(build))]));
    }
    let slots = build > 75689;
    let mut c = json!({"build": build, "header": hex(&mpq::header(build, r)), "init": hex(&lobby(r, slots)), "details": hex(&details(r)), "ops": ops});
    if r.chance(1, 25) {
        mpq::foreign(&mut c, build, r);
    }
    c
}
/// What a whole stream holds: the neutral form of each record, and whether reading stops early.
type Records = (Vec<(J, Tr)>, bool);
fn trackers(ver: u32, d: &[u8]) -> Records {
    let (mut i, mut o) = (d, vec![]);
    while !i.is_empty() {
        let Ok((delta, t)) = ref_ba_type(ty_id(ver, true, "SVarUint32"), i) else { return (o, false) };
        let Ok((v, t)) = ref_ba_type(ty_id(ver, true, "ReplayTrackerEEventId"), t) else { return (o, false) };
        i = t;
        o.push((json!({"delta": delta.int() as i64}), tracker(&v)));
    }
    (o, true)
}
fn packed(ver: u32, d: &[u8], ty: &str, tr: fn(&V) -> Tr) -> Records {
    let (mut b, mut o) = (Bits { d, pos: 0 }, vec![]);
    while b.pos < d.len() * 8 {
        let Ok(delta) = ref_bp_type(ty_id(ver, false, "SVarUint32"), &mut b) else { return (o, false) };
        let Ok(u) = ref_bp_type(ty_id(ver, false, "ReplaySGameUserId"), &mut b) else { return (o, false) };
        let Ok(v) = ref_bp_type(ty_id(ver, false, ty), &mut b) else { return (o, false) };
        b.align();
        o.push((json!({"delta": delta.int() as i64, "user_id": u.f("m_user_id").int() as i64}), tr(&v)));
    }
    (o, true)
}
pub fn message(v: &V) -> Tr {
    match v.variant() {
        ("EChat", Some(p)) => match text(p.f("m_string")) {
            Some(t) => Tr::Ev(json!({"EChat": {"m_recipient": p.f("m_recipient").variant().0, "m_string": t}})),
            None => Tr::Bad,
        },
        _ => Tr::Unsup,
    }
}
fn want(rs: &Records) -> Vec<J> {
    rs.0.iter()
        .filter_map(|(h, t)| match t {
            Tr::Ev(e) => {
                let mut h = h.clone();
                h["event"] = e.clone();
                Some(h)
            }
            _ => None,
        })
        .collect()
}
/// a one-pass reader yields every event of the stream, or fails where a record cannot be read
fn one_pass<T: serde::Serialize, E: std::fmt::Debug>(what: &str, got: Result<Vec<T>, E>, rs: &Records) -> Result<(), String> {
    match (got, rs.1) {
        (Ok(g), true) => {
            let g = serde_json::to_value(&g).map_err(|e| e.to_string())?;
            let w = J::Array(want(rs));
            if eq(&g, &w) { Ok(()) } else { Err(format!("{what} gave {g}, contract says {w}")) }
        }
        (Err(_), false) => Ok(()),
        (Err(e), true) => Err(format!("{what} failed ({e:?}), contract says {}", J::Array(want(rs)))),
        (Ok(_), false) => Err(format!("{what} read a stream its protocol cannot read")),
    }
}
/// an iterator step reads the first record under the same protocol
fn step<T: serde::Serialize, E: std::fmt::Debug>(what: &str, got: Result<T, E>, rs: &Records) -> Result<(), String> {
    let first = rs.0.first();
    match (got, first) {
        (Ok(g), Some((h, Tr::Ev(e)))) => {
            let mut w = h.clone();
            w["event"] = e.clone();
            let g = serde_json::to_value(&g).map_err(|e| e.to_string())?;
            if eq(&g, &w) { Ok(()) } else { Err(format!("{what} gave {g}, contract says {w}")) }
        }
        (Ok(g), _) => Err(format!("{what} gave {}, contract says it has no event", serde_json::to_value(&g).unwrap_or(J::Null))),
        (Err(e), Some((_, Tr::Ev(w)))) => Err(format!("{what} failed ({e:?}), contract says {w}")),
        (Err(_), _) => Ok(()),
    }
}
fn same<T: PartialEq + std::fmt::Debug, E: std::fmt::Debug>(what: &str, got: &Result<T, E>, want: &Result<T, E>) -> Result<(), String> {
    match (got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{what} gave {got:?}, the protocol of that build gives {want:?}")),
    }
}
fn run(c: &J) -> Verdict {
    let build = c["build"].as_u64().unwrap() as u32;
    let ver = proto(build);
    let (t, g, m) = (pick(c, "t"), pick(c, "g"), pick(c, "m"));
    let (init, det) = (unhex(c["init"].as_str().unwrap()), unhex(c["details"].as_str().unwrap()));
    let file = mpq::made(c, &[("replay.tracker.events", &t), ("replay.game.events", &g), ("replay.message.events", &m), ("replay.initData", &init), ("replay.details", &det)]);
    let Ok((_, a)) = s2protocol::parser::parse(&file) else { return Err("harness: the archive does not parse".into()) };
    if c["bare"] == true || c["foreign"] == true {
        // not a replay, so not to be decoded by any protocol
        let f = mpq::Scratch::new(&file);
        let read = [
            ("read_tracker_events", s2protocol::read_tracker_events("case", &a, &file).is_ok()),
            ("read_game_events", s2protocol::read_game_events("case", &a, &file).is_ok()),
            ("read_message_events", s2protocol::read_message_events("case", &a, &file).is_ok()),
            ("read_details", s2protocol::read_details("case", &a, &file).is_ok()),
            ("read_init_data", s2protocol::read_init_data("case", &a, &file).is_ok()),
            ("InitData::try_from", s2protocol::InitData::try_from((PathBuf::from(&f.0), 7)).is_ok()),
        ];
        return match read.iter().find(|x| x.1) {
            Some(x) => Err(format!("{} reads an archive that is no replay", x.0)),
            None => Ok(true),
        };
    }
    let rt = trackers(ver, &t);
    let rg = packed(ver, &g, "GameEEventId", game);
    let rm = packed(ver, &m, "GameEMessageId", message);
    if !t.is_empty() {
        one_pass("read_tracker_events", s2protocol::read_tracker_events("case", &a, &file), &rt)?;
        step("read_versioned_tracker_event", TrackertEventIteratorState::from(t.clone()).read_versioned_tracker_event(build), &rt)?;
    }
    if !g.is_empty() {
        one_pass("read_game_events", s2protocol::read_game_events("case", &a, &file), &rg)?;
        step("read_versioned_game_event", GameEventIteratorState::from(g.clone()).read_versioned_game_event(build), &rg)?;
    }
    if !m.is_empty() {
        one_pass("read_message_events", s2protocol::read_message_events("case", &a, &file), &rm)?;
    }
    let d = s2protocol::read_details("case", &a, &file);
    let w = if ver == 75689 { protocol75689::byte_aligned::GameSDetails::read_details(&a, &file) } else { protocol87702::byte_aligned::GameSDetails::read_details(&a, &file) };
    same("read_details", &d, &w)?;
    let i = s2protocol::read_init_data("case", &a, &file);
    let mut w = if ver == 75689 { protocol75689::bit_packed::ReplaySInitData::read_init_data(&a, &file) } else { protocol87702::bit_packed::ReplaySInitData::read_init_data(&a, &file) };
    if let Ok(w) = &mut w {
        w.version = build;
    }
    same("read_init_data", &i, &w)?;
    if i.is_ok() {
        let f = mpq::Scratch::new(&file);
        for (what, x) in [("InitData::new", s2protocol::InitData::new("case", 7, &a, &file)), ("InitData::try_from", s2protocol::InitData::try_from((PathBuf::from(&f.0), 7)))] {
            let x = x.map_err(|e| format!("{what} failed: {e:?}"))?;
            let name = if what == "InitData::new" { "case" } else { f.0.to_str().unwrap() };
            if x.ext_fs_id != 7 || x.ext_fs_file_name != name || x.ext_fs_sha256 != sha256::digest(&file) {
                return Err(format!("{what} of file 7, {name}, with SHA-256 {}, gives {}, {}, {}", sha256::digest(&file), x.ext_fs_id, x.ext_fs_file_name, x.ext_fs_sha256));
            }
            if x.version != build {
                return Err(format!("{what} reports version {}, the base build is {build}", x.version));
            }
            if x.sync_lobby_state != w.as_ref().unwrap().sync_lobby_state {
                return Err(format!("{what} gave {x:?}, the protocol of that build gives {w:?}"));
            }
        }
    }
    Ok(d.is_ok() && i.is_ok() && rt.0.len() + rg.0.len() > 1)
}
/// The known finding: lobby slots of a build up to 75689, laid out as that protocol lays them out,
/// are read with the slot layout of 87702.
pub fn finding(seed: u64) -> String {
    let mut r = Rng::new(seed);
    let (t, st) = (ty_id(75690, false, "ReplaySInitData"), ty_id(75690, false, "GameSLobbySlot"));
    let mut v = gen_ty(t, &mut r, &mut 0);
    let mut slots = vec![];
    for k in 0..2 {
        let mut s = gen_ty(st, &mut r, &mut 0);
        *s.f_mut("m_working_set_slot_id") = V::Some(Box::new(V::Wrap(ty_id(75690, false, "Uint8"), Box::new(V::Int(k)))));
        slots.push(s);
    }
    let V::Wrap(_, s) = v.f_mut("m_sync_lobby_state").f_mut("m_lobby_state").f_mut("m_slots") else { panic!() };
    **s = V::Arr(slots);
    let mut o = BitOut::default();
    o.ty(t, &v, &mut r);
    o.align(0);
    let file = mpq::archive(&mpq::header(75689, &mut r), &[("replay.initData", &o.o)]);
    let (_, a) = s2protocol::parser::parse(&file).unwrap();
    match s2protocol::read_init_data("case", &a, &file) {
        Ok(i) => format!("replay.initData {}: slots read with numbers {:?}, written with Some(0), Some(1)", hex(&o.o), i.sync_lobby_state.lobby_state.slots.iter().map(|s| s.working_set_slot_id).collect::<Vec<_>>()),
        Err(e) => format!("replay.initData {}: two slots written, reading fails: {e:?}", hex(&o.o)),
    }
}
// ------------------------------------------------------------------ C26
fn c26_gen(r: &mut Rng, _: usize) -> J {
    let build = build(r);
    let n = 1 + r.below(7);
    let n = if r.chance(1, 3) { r.size(n, 300) } else { n };
    let mut ops = vec![];
    for k in 0..n {
        let mut o = unhex(&message_record(r, proto(build)));
        if r.chance(1, 25) && k + 1 == n {
            let n = r.below(o.len() + 1);
            o.truncate(n);
        } else if r.chance(1, 40) {
            let k = 1 + r.below(4);
            o = r.bytes(k);
        }
        ops.push(json!(["m", hex(&o)]));
    }
    json!({"build": build, "header": hex(&mpq::header(build, r)), "flood": flood(r), "ops": ops})
}
fn c26_run(c: &J) -> Verdict {
    let ver = proto(c["build"].as_u64().unwrap() as u32);
    let (m, hd) = (pick(c, "m"), unhex(c["header"].as_str().unwrap()));
    if m.is_empty() {
        return Ok(false);
    }
    let file = mpq::archive(&hd, &[("replay.message.events", &m)]);
    let Ok((_, a)) = s2protocol::parser::parse(&file) else { return Err("harness: the archive does not parse".into()) };
    let rm = packed(ver, &m, "GameEMessageId", message);
    one_pass("read_message_events", s2protocol::read_message_events("case", &a, &file), &rm)?;
    // and one record at a time
    if let Some((h, t)) = rm.0.first() {
        use protocol87702::bit_packed::GameEMessageId;
        let (_, (d, u, e)) = GameEMessageId::parse_event_triplet((&m, 0)).map_err(|e| format!("parse_event_triplet failed: {e:?}"))?;
        if json!({"delta": d, "user_id": u}) != *h {
            return Err(format!("parse_event_triplet gave delta {d}, user {u}, contract says {h}"));
        }
        use s2protocol::message_events::{MessageEventError as Er, ReplayMessageEvent};
        match (ReplayMessageEvent::try_from(e), t) {
            (Ok(g), Tr::Ev(w)) if serde_json::to_value(&g).map_err(|e| e.to_string())? == *w => {}
            (Err(Er::UnsupportedEventType), Tr::Unsup) => {}
            (Err(Er::Utf8Error(_)), Tr::Bad) => {}
            (g, w) => return Err(format!("translated to {g:?}, contract says {w:?}")),
        }
    }
    Ok(rm.0.len() > 1)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "archives holding 1..7 encoded message records (two thirds chats to every kind of recipient, some not text, random padding bits, some streams cut short or garbled), any base build; read_message_events compared with the reference reading, and the first record's parts with it too",
        n: (20_000, 200_000),
        generate: c26_gen,
        run: c26_run,
    }, Prop {
        id: "C09",
        rule: "whole archives written for any base build: tracker, game and message records, details and lobby data encoded with the committed layout of that build's protocol; every reader of versions/mod.rs, both iterators' first step, InitData::new and InitData::try_from compared with the reference reading or with the protocol's own reader",
        n: (10_000, 60_000),
        generate,
        run,
    }]
}
