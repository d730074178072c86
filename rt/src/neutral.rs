//! C07, C08: event streams; C10, C11: protocol-neutral translation.
//! The oracle decodes with the committed layout and maps the value tree to the JSON the neutral
//! event must serialise to.
use crate::grammar::*;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::SC2EventType;
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::game_events::{GameEventIteratorState, ReplayGameEvent};
use s2protocol::state::SC2UserState;
use s2protocol::tracker_events::{ReplayTrackerEvent, TrackertEventIteratorState};
use s2protocol::versions::{protocol75689, protocol87702};
use serde_json::{Value as J, json};
use std::collections::HashMap;

#[derive(Debug, PartialEq)]
pub enum Tr {
    Ev(J),
    Unsup,
    Bad,
}
fn obj(k: &str, v: J) -> J {
    let mut o = serde_json::Map::new();
    o.insert(k.into(), v);
    J::Object(o)
}
pub fn text(v: &V) -> Option<String> {
    match v {
        V::Bytes(b) => String::from_utf8(b.clone()).ok(),
        V::Wrap(_, v) | V::Some(v) => text(v),
        v => panic!("{v:?}"),
    }
}
fn fields(v: &V) -> Vec<(&'static str, &V)> {
    let V::Struct(t, vs) = v else { panic!("{v:?}") };
    let Def::Struct { fields, .. } = &grammar().types[*t].def else { panic!() };
    fields.iter().map(|f| f.n.as_str()).zip(vs).collect()
}
/// values whose neutral form has the same shape
fn same(v: &V) -> J {
    match v {
        V::Int(i) => json!(*i as i64),
        V::Bool(b) => json!(b),
        V::Bytes(b) => json!(b),
        V::None => J::Null,
        V::Unit => panic!(),
        V::Some(v) => same(v),
        V::Arr(vs) => J::Array(vs.iter().map(same).collect()),
        V::Wrap(t, x) => match grammar().types[*t].name.as_str() {
            "GameSelectionMaskType" | "GameSelectionIndexArrayType" => json!({"value": same(x)}),
            _ => same(x),
        },
        V::Struct(..) => {
            let mut o = serde_json::Map::new();
            for (n, x) in fields(v) {
                o.insert(n.into(), same(x));
            }
            if matches!(v.type_name(), "GameSCmdAbil" | "GameSTriggerTargetModeUpdateEvent") {
                o.insert("ability".into(), json!(""));
            }
            J::Object(o)
        }
        V::Choice(..) => match v.variant() {
            (n, None) | (n, Some(V::Unit)) => json!(if v.type_name() == "ELeaveReason" { n.strip_prefix('E').unwrap() } else { n }),
            (n, Some(x)) => obj(n, same(x)),
        },
    }
}
const GAME: &[&str] = &[
    "EDropUser", "ECameraSave", "ECmd", "ESelectionDelta", "EControlGroupUpdate", "ESelectionSyncCheck", "ETriggerChatMessage", "EUnitClick",
    "EUnitHighlight", "ETriggerReplySelected", "ECameraUpdate", "ETriggerMouseClicked", "ETriggerMouseMoved", "ETriggerHotkeyPressed",
    "ETriggerTargetModeUpdate", "ETriggerKeyPressed", "ETriggerMouseWheel", "ETriggerButtonPressed", "ECommandManagerState",
    "ECmdUpdateTargetPoint", "ECmdUpdateTargetUnit",
];
pub fn game(v: &V) -> Tr {
    let (n, Some(p)) = v.variant() else { return Tr::Unsup };
    if !GAME.contains(&n) {
        return Tr::Unsup;
    }
    let mut j = same(p);
    if n == "ETriggerChatMessage" {
        // text that is not UTF-8 is kept as some replacement text
        j = match text(p.f("m_chat_message")) {
            Some(t) => json!({"m_chat_message": t}),
            None => json!({"m_chat_message": ANY}),
        };
    }
    Tr::Ev(obj(n.strip_prefix('E').unwrap(), j))
}
const ANY: &str = "\u{0}any text";
pub fn tracker(v: &V) -> Tr {
    let (n, Some(p)) = v.variant() else { return Tr::Unsup };
    let n = n.strip_prefix('E').unwrap();
    let mut o = serde_json::Map::new();
    for (k, x) in fields(p) {
        let key = if n == "PlayerSetup" && k == "m_type" { k } else { k.strip_prefix("m_").unwrap() };
        let j = match (n, key) {
            ("UnitBorn" | "UnitInit" | "UnitTypeChange", "unit_type_name") => match text(x) {
                Some(t) => json!(t),
                None => return Tr::Bad,
            },
            ("UnitBorn", "creator_ability_name") if *x != V::None => match text(x) {
                Some(t) => json!(t),
                None => return Tr::Bad,
            },
            ("Upgrade", "upgrade_type_name") => json!(text(x).unwrap_or(ANY.into())),
            ("PlayerStats", "stats") => {
                let mut s = serde_json::Map::new();
                for (k, x) in fields(x) {
                    let k = k.strip_prefix("m_score_value_").unwrap();
                    let j = if matches!(k, "food_used" | "food_made") { json!((x.int() / 4096) as i64) } else { same(x) };
                    s.insert(k.into(), j);
                }
                J::Object(s)
            }
            _ => same(x),
        };
        o.insert(key.into(), j);
    }
    if n == "Upgrade" {
        o.insert("player_name".into(), J::Null);
    }
    Tr::Ev(obj(n, J::Object(o)))
}
/// equal, where the contract leaves a text open anything goes
pub fn eq(got: &J, want: &J) -> bool {
    match (got, want) {
        (J::String(_), J::String(w)) if w == ANY => true,
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| eq(v, w))),
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| eq(v, w)),
        _ => got == want,
    }
}
fn bytes(c: &J) -> Vec<u8> {
    unhex(c["hex"].as_str().unwrap())
}
pub fn fix_text(v: &mut V, r: &mut Rng) {
    match v {
        V::Bytes(b) => {
            if r.chance(9, 10) && std::str::from_utf8(b).is_err() {
                for x in b.iter_mut() {
                    *x &= 0x7f
                }
            }
        }
        V::Some(v) | V::Wrap(_, v) => fix_text(v, r),
        V::Arr(vs) | V::Struct(_, vs) => vs.iter_mut().for_each(|v| fix_text(v, r)),
        V::Choice(_, _, Some(v)) => fix_text(v, r),
        _ => {}
    }
}
pub fn gen_choice(t: usize, want: Option<&str>, r: &mut Rng) -> V {
    let Def::Choice { variants, .. } = &grammar().types[t].def else { panic!() };
    let k = match want {
        Some(w) => variants.iter().position(|v| v.1 == w).unwrap(),
        None => r.below(variants.len()),
    };
    let mut budget = 12;
    V::Choice(t, k, variants[k].2.as_ref().map(|e| Box::new(gen_e(e, r, &mut budget))))
}
/// half of the unit names come from a few that are close to one another
pub fn name_unit(v: &mut V, r: &mut Rng) {
    if let V::Choice(_, _, Some(x)) = v {
        name_unit(x, r)
    } else if let V::Struct(t, vs) = v {
        let Def::Struct { fields, .. } = &grammar().types[*t].def else { panic!() };
        if let Some(k) = fields.iter().position(|f| f.n == "m_unit_type_name") {
            if r.chance(1, 2) {
                vs[k] = V::Bytes(crate::sm::name(r, &crate::merge::UNITS).into_bytes());
            }
        }
    }
}
fn tracker_event(ver: u32, k: Option<usize>, r: &mut Rng) -> (usize, V) {
    let t = ty_id(ver, true, "ReplayTrackerEEventId");
    let Def::Choice { variants, .. } = &grammar().types[t].def else { panic!() };
    let n = k.map(|k| variants[k % variants.len()].1.clone());
    let mut v = gen_choice(t, n.as_deref(), r);
    fix_text(&mut v, r);
    name_unit(&mut v, r);
    (t, v)
}
pub fn enc(r: &mut Rng) -> Enc<'_> {
    Enc { o: vec![], m: if r.chance(1, 4) { Mutate::Shuffle } else { Mutate::None }, rng: r, left: 0 }
}
fn cut(h: Vec<u8>, r: &mut Rng) -> Vec<u8> {
    let n = r.below(h.len() + 1);
    h[..n].to_vec()
}

// ------------------------------------------------------------------ C10
fn ver2(r: &mut Rng) -> u32 {
    if r.chance(1, 2) { 75689 } else { 87702 }
}
fn c10_gen(r: &mut Rng, i: usize) -> J {
    let ver = ver2(r);
    let (t, v) = tracker_event(ver, Some(i), r);
    let mut e = enc(r);
    e.ba_type(t, &v);
    json!({"ver": ver, "hex": hex(&e.o)})
}
fn verdict<T: serde::Serialize>(got: Result<T, s2protocol::error::S2ProtocolError>, want: Tr) -> Verdict {
    use s2protocol::error::S2ProtocolError as Er;
    match (got, want) {
        (Ok(g), Tr::Ev(w)) => {
            let g = serde_json::to_value(&g).map_err(|e| e.to_string())?;
            if eq(&g, &w) { Ok(true) } else { Err(format!("translated to {g}, contract says {w}")) }
        }
        (Ok(g), w) => Err(format!("translated to {}, contract says {w:?}", serde_json::to_value(&g).unwrap_or(J::Null))),
        (Err(Er::UnsupportedEventType), Tr::Unsup) => Ok(true),
        (Err(Er::UnsupportedEventType), w) => Err(format!("reported as unsupported, contract says {w:?}")),
        (Err(_), Tr::Bad) => Ok(true),
        (Err(e), w) => Err(format!("reported as error {e:?}, contract says {w:?}")),
    }
}
fn c10_run(c: &J) -> Verdict {
    let ver = c["ver"].as_u64().unwrap() as u32;
    let d = bytes(c);
    let Ok((v, _)) = ref_ba_type(ty_id(ver, true, "ReplayTrackerEEventId"), &d) else { return Ok(false) };
    let want = tracker(&v);
    // an event the decoder itself gets wrong is C05's business
    if ver <= 75689 {
        let Ok((_, e)) = protocol75689::byte_aligned::ReplayTrackerEEventId::parse(&d) else { return Ok(false) };
        verdict(ReplayTrackerEvent::try_from(e), want)
    } else {
        let Ok((_, e)) = protocol87702::byte_aligned::ReplayTrackerEEventId::parse(&d) else { return Ok(false) };
        verdict(ReplayTrackerEvent::try_from(e), want)
    }
}
// ------------------------------------------------------------------ C11
fn game_event(ver: u32, i: usize, r: &mut Rng) -> (usize, V) {
    let t = ty_id(ver, false, "GameEEventId");
    let want = if r.chance(3, 4) { Some(GAME[i % GAME.len()]) } else { None };
    let mut v = gen_choice(t, want, r);
    fix_text(&mut v, r);
    (t, v)
}
fn c11_gen(r: &mut Rng, i: usize) -> J {
    let ver = ver2(r);
    let (t, v) = game_event(ver, i, r);
    let mut o = BitOut::default();
    o.ty(t, &v, r);
    json!({"ver": ver, "hex": hex(&o.o)})
}
fn c11_run(c: &J) -> Verdict {
    let ver = c["ver"].as_u64().unwrap() as u32;
    let d = bytes(c);
    let Ok(v) = ref_bp_type(ty_id(ver, false, "GameEEventId"), &mut Bits { d: &d, pos: 0 }) else { return Ok(false) };
    let want = game(&v);
    if ver <= 75689 {
        let Ok((_, e)) = protocol75689::bit_packed::GameEEventId::parse((&d, 0)) else { return Ok(false) };
        verdict(ReplayGameEvent::try_from(e), want)
    } else {
        let Ok((_, e)) = protocol87702::bit_packed::GameEEventId::parse((&d, 0)) else { return Ok(false) };
        verdict(ReplayGameEvent::try_from(e), want)
    }
}
// ------------------------------------------------------------------ C07
pub fn build(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 | 2 => 75689,
        3 => 75690,
        4 => 80188,
        5 => 87702,
        6 => u32::MAX,
        _ => r.int(0, u32::MAX as i128) as u32,
    }
}
pub fn proto(build: u32) -> u32 {
    if build <= 75689 { 75689 } else { 87702 }
}
fn c07_gen(r: &mut Rng, _: usize) -> J {
    let build = build(r);
    let ver = proto(build);
    let n = 1 + r.below(7);
    let n = if r.chance(1, 3) { r.size(n, 300) } else { n };
    let mut ops = vec![];
    for _ in 0..n {
        let dt = ty_id(ver, true, "SVarUint32");
        let d = gen_ty(dt, r, &mut 4);
        let (t, v) = tracker_event(ver, None, r);
        let bad = r.chance(1, 25);
        let mut e = enc(r);
        if bad {
            e.m = Mutate::UnknownTag;
            e.left = 1;
        }
        e.ba_type(dt, &d);
        e.ba_type(t, &v);
        let mut o = e.o;
        if r.chance(1, 25) {
            o = cut(o, r);
        } else if r.chance(1, 40) {
            let k = 1 + r.below(4);
            o = r.bytes(k);
        }
        ops.push(json!(hex(&o)));
    }
    json!({"build": build, "flood": flood(r), "ops": ops})
}
pub fn stream(c: &J) -> Vec<u8> {
    let one: Vec<u8> = c["ops"].as_array().unwrap().iter().flat_map(|o| unhex(o.as_str().unwrap())).collect();
    one.repeat(c["flood"].as_u64().unwrap_or(1) as usize)
}
/// how often the records of a case are repeated: seldom enough for thousands of them
pub fn flood(r: &mut Rng) -> J {
    if r.chance(1, 150) { json!(*r.pick(&[40u64, 300, 1500])) } else { J::Null }
}
fn c07_run(c: &J) -> Verdict {
    let build = c["build"].as_u64().unwrap() as u32;
    let ver = proto(build);
    let d = stream(c);
    let mut want = vec![];
    let (mut i, mut now) = (&d[..], 0i64);
    while !i.is_empty() {
        let Ok((delta, t)) = ref_ba_type(ty_id(ver, true, "SVarUint32"), i) else { break };
        let Ok((v, t)) = ref_ba_type(ty_id(ver, true, "ReplayTrackerEEventId"), t) else { break };
        i = t;
        now += delta.int() as i64;
        match tracker(&v) {
            Tr::Ev(e) => want.push(json!({"Tracker": {"tracker_loop": now, "event": e}})),
            Tr::Unsup => {}
            Tr::Bad => break,
        }
    }
    let mut it = TrackertEventIteratorState::from(d);
    compare(want, || it.get_next_event(build))
}
/// the iterator yields exactly `want`, then nothing, however often it is asked
fn compare(want: Vec<J>, mut next: impl FnMut() -> Option<SC2EventType>) -> Verdict {
    for (k, w) in want.iter().enumerate() {
        let Some(g) = next() else { return Err(format!("stream ended before event {k}: {w}")) };
        let g = serde_json::to_value(&g).map_err(|e| e.to_string())?;
        if !eq(&g, w) {
            return Err(format!("event {k} is {g}, contract says {w}"));
        }
    }
    for _ in 0..3 {
        if let Some(g) = next() {
            return Err(format!("an event after the end of the stream ({} events): {}", want.len(), serde_json::to_value(&g).unwrap_or(J::Null)));
        }
    }
    Ok(want.len() > 1)
}
/// one encoded tracker record, with this delta and kind if given
pub fn tracker_record(r: &mut Rng, build: u32, d: Option<i128>, kind: Option<&str>) -> String {
    let ver = proto(build);
    let dt = ty_id(ver, true, "SVarUint32");
    let mut v = gen_ty(dt, r, &mut 4);
    if let Some(d) = d {
        while !set_bit_delta(&mut v, d.max(0)) {
            v = gen_ty(dt, r, &mut 4);
        }
    }
    let (t, e) = match kind {
        Some(k) => {
            let t = ty_id(ver, true, "ReplayTrackerEEventId");
            let mut v = gen_choice(t, Some(k), r);
            name_unit(&mut v, r);
            (t, v)
        }
        None => tracker_event(ver, None, r),
    };
    let mut o = enc(r);
    o.ba_type(dt, &v);
    o.ba_type(t, &e);
    hex(&o.o)
}
/// sets the number inside wrappers and options
pub fn put(x: &mut V, n: i128) {
    match x {
        V::Wrap(_, y) => put(y, n),
        V::Some(y) => put(y, n),
        y => *y = V::Int(n),
    }
}
/// A short game that hangs together: units born, selected, commanded, killed.
pub fn scene(r: &mut Rng, build: u32) -> Vec<(&'static str, String)> {
    let ver = proto(build);
    let mut o = vec![];
    let units: Vec<(i128, i128)> = (0..1 + r.below(4)).map(|k| (k as i128 * 3 + r.below(3) as i128, 1 + r.below(3) as i128)).collect();
    let tag = |u: (i128, i128)| (u.0 << 18) + u.1;
    let tr = |r: &mut Rng, k: &str, d: usize, f: &mut dyn FnMut(&mut Rng, &mut V)| {
        let t = ty_id(ver, true, "ReplayTrackerEEventId");
        let mut v = gen_choice(t, Some(k), r);
        fix_text(&mut v, r);
        name_unit(&mut v, r);
        let V::Choice(_, _, Some(b)) = &mut v else { panic!() };
        f(r, b);
        let dt = ty_id(ver, true, "SVarUint32");
        let mut dv = gen_choice(dt, Some("MUint6"), r);
        set_bit_delta(&mut dv, d as i128);
        let mut e = enc(r);
        e.ba_type(dt, &dv);
        e.ba_type(t, &v);
        ("t", hex(&e.o))
    };
    let gm = |r: &mut Rng, k: &str, d: usize, user: i128, f: &mut dyn FnMut(&mut Rng, &mut V)| {
        let (dt, ut, t) = (ty_id(ver, false, "SVarUint32"), ty_id(ver, false, "ReplaySGameUserId"), ty_id(ver, false, "GameEEventId"));
        let mut v = gen_choice(t, Some(k), r);
        let V::Choice(_, _, Some(b)) = &mut v else { panic!() };
        f(r, b);
        let mut dv = gen_choice(dt, Some("MUint6"), r);
        set_bit_delta(&mut dv, d as i128);
        let mut u = gen_ty(ut, r, &mut 4);
        put(u.f_mut("m_user_id"), user);
        let mut out = BitOut::default();
        out.ty(dt, &dv, r);
        out.ty(ut, &u, r);
        out.ty(t, &v, r);
        out.align(0);
        ("g", hex(&out.o))
    };
    for u in &units {
        let k = if r.chance(3, 4) { "EUnitBorn" } else { "EUnitInit" };
        o.push(tr(r, k, 0, &mut |_, v| {
            put(v.f_mut("m_unit_tag_index"), u.0);
            put(v.f_mut("m_unit_tag_recycle"), u.1);
        }));
    }
    for _ in 0..1 + r.below(4) {
        let d = r.below(3);
        let u = *r.pick(&units);
        match r.below(4) {
            0 => o.push(tr(r, "EUnitDone", d, &mut |_, v| {
                put(v.f_mut("m_unit_tag_index"), u.0);
                put(v.f_mut("m_unit_tag_recycle"), u.1);
            })),
            1 => o.push(tr(r, "EUnitTypeChange", d, &mut |_, v| {
                put(v.f_mut("m_unit_tag_index"), u.0);
                put(v.f_mut("m_unit_tag_recycle"), u.1);
            })),
            2 => o.push(tr(r, "EPlayerStats", d, &mut |_, _| {})),
            _ => {
                let k = *r.pick(&units);
                let d = 3 + r.below(6);
                o.push(tr(r, "EUnitDied", d, &mut |r, v| {
                    put(v.f_mut("m_unit_tag_index"), u.0);
                    put(v.f_mut("m_unit_tag_recycle"), u.1);
                    let known = r.chance(2, 3);
                    for (f, x) in [("m_killer_unit_tag_index", k.0), ("m_killer_unit_tag_recycle", k.1)] {
                        if known {
                            *v.f_mut(f) = V::Some(Box::new(V::Int(x)));
                        }
                    }
                }));
            }
        }
    }
    let ut = ty_id(ver, false, "GameTUnitTag");
    for _ in 0..1 + r.below(3) {
        let user = r.below(5) as i128;
        let picked: Vec<(i128, i128)> = units.iter().filter(|_| r.chance(2, 3)).copied().collect();
        o.push(gm(r, "ESelectionDelta", 1, user, &mut |r, v| {
            put(v.f_mut("m_control_group_id"), 10);
            let d = v.f_mut("m_delta");
            put(d.f_mut("m_subgroup_index"), 0);
            if r.chance(2, 3) {
                let t = ty_id(ver, false, "GameSSelectionMask");
                *d.f_mut("m_remove_mask") = gen_choice(t, Some("None"), r);
            }
            let tags = picked.iter().map(|u| {
                let mut x = gen_ty(ut, r, &mut 2);
                put(&mut x, tag(*u));
                x
            });
            *d.f_mut("m_add_unit_tags") = V::Arr(tags.collect());
        }));
        for _ in 0..1 + r.below(3) {
            let d = r.below(3);
            let target = *r.pick(&units);
            o.push(gm(r, "ECmd", d, user, &mut |r, v| {
                let (dt, at) = (ty_id(ver, false, "GameSCmdData"), ty_id(ver, false, "GameSCmdAbil"));
                let k = *r.pick(&["TargetPoint", "TargetUnit"]);
                let mut x = gen_choice(dt, Some(k), r);
                if let V::Choice(_, _, Some(b)) = &mut x
                    && k == "TargetUnit"
                {
                    put(b.f_mut("m_tag"), tag(target));
                }
                *v.f_mut("m_data") = x;
                if r.chance(7, 8) {
                    *v.f_mut("m_abil") = V::Some(Box::new(gen_ty(at, r, &mut 4)));
                }
            }));
        }
    }
    o
}
/// one encoded game record
pub fn game_record(r: &mut Rng, build: u32, d: Option<i128>, kind: Option<&str>) -> String {
    let ver = proto(build);
    let (dt, ut) = (ty_id(ver, false, "SVarUint32"), ty_id(ver, false, "ReplaySGameUserId"));
    let mut v = gen_ty(dt, r, &mut 4);
    if let Some(d) = d {
        while !set_bit_delta(&mut v, d.max(0)) {
            v = gen_ty(dt, r, &mut 4);
        }
    }
    let mut u = gen_ty(ut, r, &mut 4);
    if r.chance(7, 8) {
        *u.f_mut("m_user_id") = V::Int(r.below(6) as i128);
    }
    let (t, e) = match kind {
        Some(k) => {
            let t = ty_id(ver, false, "GameEEventId");
            (t, gen_choice(t, Some(k), r))
        }
        None => {
            let i = r.below(99);
            game_event(ver, i, r)
        }
    };
    let mut o = BitOut::default();
    o.ty(dt, &v, r);
    o.ty(ut, &u, r);
    o.ty(t, &e, r);
    o.align(0);
    hex(&o.o)
}
/// puts d into a delta if its variant has room
fn set_bit_delta(v: &mut V, d: i128) -> bool {
    let V::Choice(_, i, Some(x)) = v else { return false };
    if d >= [1i128 << 6, 1 << 14, 1 << 22, 1 << 32][*i] {
        return false;
    }
    fn put(x: &mut V, d: i128) {
        match x {
            V::Wrap(_, y) => put(y, d),
            V::Struct(_, f) => put(&mut f[0], d),
            y => *y = V::Int(d),
        }
    }
    put(x, d);
    true
}
// ------------------------------------------------------------------ C08
fn c08_gen(r: &mut Rng, _: usize) -> J {
    let build = build(r);
    let ver = proto(build);
    let n = 1 + r.below(7);
    let n = if r.chance(1, 3) { r.size(n, 300) } else { n };
    let mut ops = vec![];
    for k in 0..n {
        let mut o = BitOut::default();
        let (dt, ut) = (ty_id(ver, false, "SVarUint32"), ty_id(ver, false, "ReplaySGameUserId"));
        let d = gen_ty(dt, r, &mut 4);
        let mut u = gen_ty(ut, r, &mut 4);
        if r.chance(3, 4) {
            *u.f_mut("m_user_id") = V::Int(r.below(4) as i128);
        }
        let pick = r.below(99);
        let (t, v) = game_event(ver, pick, r);
        o.ty(dt, &d, r);
        o.ty(ut, &u, r);
        o.ty(t, &v, r);
        let fill = r.byte();
        o.align(fill as u128);
        let mut o = o.o;
        if r.chance(1, 30) && k + 1 == n {
            o = cut(o, r);
        } else if r.chance(1, 40) {
            let k = 1 + r.below(4);
            o = r.bytes(k);
        }
        ops.push(json!(hex(&o)));
    }
    let users: Vec<i64> = (0..32).filter(|_| r.chance(1, 2)).collect();
    let names: Vec<J> = users
        .iter()
        .map(|u| if r.chance(1, 2) { J::Null } else { json!(crate::sm::name(r, &["", " ", "[x]<sp/>Cy", "Di\u{301}", " Eve\t", "&lt;T&gt;<sp/>Flo", &format!("{u}")])) })
        .collect();
    json!({"build": build, "users": users, "names": names, "flood": flood(r), "ops": ops})
}
fn c08_run(c: &J) -> Verdict {
    let build = c["build"].as_u64().unwrap() as u32;
    let ver = proto(build);
    let d = stream(c);
    let users: Vec<i64> = c["users"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let mut m = HashMap::new();
    let called = |u: i64| {
        let k = users.iter().position(|x| *x == u)?;
        Some(c["names"][k].as_str().map_or(format!("user {u}"), |n| n.to_string()))
    };
    for u in &users {
        let mut p = PlayerLobbyDetails::default();
        p.player_details.name = called(*u).unwrap();
        m.insert(*u, SC2UserState::new(p));
    }
    let mut want = vec![];
    let (mut b, mut now) = (Bits { d: &d, pos: 0 }, 0i64);
    while b.pos < d.len() * 8 {
        let Ok(delta) = ref_bp_type(ty_id(ver, false, "SVarUint32"), &mut b) else { break };
        let Ok(u) = ref_bp_type(ty_id(ver, false, "ReplaySGameUserId"), &mut b) else { break };
        let Ok(v) = ref_bp_type(ty_id(ver, false, "GameEEventId"), &mut b) else { break };
        b.align();
        now += delta.int() as i64;
        let u = u.f("m_user_id").int() as i64;
        match game(&v) {
            Tr::Ev(e) => {
                let name = called(u).map_or(J::Null, J::String);
                want.push(json!({"Game": {"game_loop": now, "user_id": u, "player_name": name, "event": e}}))
            }
            Tr::Unsup => {}
            Tr::Bad => break,
        }
    }
    let units = HashMap::new();
    let mut it = GameEventIteratorState::from(d);
    compare(want, || it.get_next_event(build, &m, &units))
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "streams of 1..7 encoded tracker records (random deltas and events of every kind, some with shuffled fields, some cut short, garbled or with an unknown field), any build number; the sequence of events is compared with the reference reading, then three more reads must yield nothing",
            n: (30_000, 300_000),
            generate: c07_gen,
            run: c07_run,
        },
        Prop {
            id: "C08",
            rule: "streams of 1..7 encoded game records (random deltas, users and events, supported and unsupported, random padding bits, some cut short or garbled), any build number and user table; the sequence of events is compared with the reference reading, then three more reads must yield nothing",
            n: (30_000, 300_000),
            generate: c08_gen,
            run: c08_run,
        },
        Prop {
            id: "C10",
            rule: "one encoded tracker event of every kind and both protocols, decoded by the crate and translated; the serialised neutral event is compared field by field with the one derived from the committed layout",
            n: (200_000, 1_000_000),
            generate: c10_gen,
            run: c10_run,
        },
        Prop {
            id: "C11",
            rule: "one encoded game event, three quarters of supported kinds in turn, both protocols, decoded by the crate and translated; the serialised neutral event is compared field by field with the one derived from the committed layout",
            n: (200_000, 1_000_000),
            generate: c11_gen,
            run: c11_run,
        },
    ]
}
