//! C17: merged iteration; C18: filters.
//! The oracle reads the two streams one by one, merges the lists, applies each event with the
//! crate's own handlers to a copy of the state, and filters the result by its serialised fields.
use crate::neutral::{build, game_record, stream, tracker_record};
use crate::grammar::{hex, unhex};
use crate::mpq;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::{GameEventIteratorState, handle_game_event};
use s2protocol::state::{SC2EventIterator, SC2EventIteratorItem, SC2ReplayState, SC2UserState};
use s2protocol::tracker_events::{TrackertEventIteratorState, handle_tracker_event};
use s2protocol::{InitData, LobbySlot, SC2EventType, UnitChangeHint};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub const UNITS: [&str; 4] = ["Marine", "Zergling", "Larva", "SCV"];
pub fn generate(r: &mut Rng, filters: bool) -> J {
    let build = build(r);
    let dense = r.chance(3, 4);
    let mut ops = vec![];
    let (mut nt, mut ng) = (r.below(8), r.below(8));
    if r.chance(1, 4) {
        nt = r.size(nt, 300);
        ng = r.size(ng, 300);
    }
    if r.chance(1, 2) {
        // a long first step of both streams: loops beyond what 24 bits hold
        nt += 1;
        ng += 1;
        let d = (1i128 << 24) + r.below(1 << 25) as i128;
        ops.push(json!(["t", tracker_record(r, build, Some(d), None)]));
        let e = d + r.below(4) as i128 - 2;
        ops.push(json!(["g", game_record(r, build, Some(e), None)]));
    }
    if r.chance(1, 3) {
        ops.extend(crate::neutral::scene(r, build).into_iter().map(|(k, x)| json!([k, x])));
    }
    for _ in 0..nt {
        let d = if dense { Some(r.below(4) as i128) } else { None };
        let k = if r.chance(1, 3) { Some(*r.pick(&["EUnitBorn", "EUnitInit", "EUnitTypeChange", "EUnitDied", "EPlayerStats", "EUnitOwnerChange"])) } else { None };
        ops.push(json!(["t", tracker_record(r, build, d, k)]));
    }
    for _ in 0..ng {
        let d = if dense { Some(r.below(4) as i128) } else { None };
        let k = if r.chance(1, 2) { Some(*r.pick(&["ESelectionDelta", "EControlGroupUpdate", "ECmd", "ECameraUpdate"])) } else { None };
        ops.push(json!(["g", game_record(r, build, d, k)]));
    }
    let users: Vec<i64> = (0..8).filter(|_| r.chance(1, 2)).collect();
    let mut c = json!({"build": build, "users": users, "ops": ops});
    if filters {
        let o = |r: &mut Rng, n: usize| if r.chance(1, 2) { json!(r.below(n)) } else { J::Null };
        // bounds and values are picked by index from the events of the case
        c["filters"] = json!({"player": o(r, 6), "min": o(r, 8), "max": o(r, 12), "off": r.below(3) as i64 - 1, "name": if r.chance(1, 3) { json!(r.below(4)) } else if r.chance(1, 4) { json!(crate::sm::name(r, &UNITS)) } else { J::Null },
            "n": if r.chance(1, 2) { json!(r.count(6)) } else { J::Null }, "stats": r.chance(1, 2)});
    }
    c
}
fn gen17(r: &mut Rng, _: usize) -> J {
    let mut c = generate(r, false);
    if r.chance(1, 3) {
        // read from an archive on disk, with balance data of several builds
        let v = c["build"].as_u64().unwrap();
        let slots: Vec<J> = (0..1 + r.below(5)).map(|k| json!([if r.chance(1, 4) { r.below(4) } else { k }, if r.chance(1, 5) { J::Null } else { json!(r.below(5)) }])).collect();
        let units: Vec<J> = (0..r.below(7)).map(|_| json!([*r.pick(&[v, v, v ^ 1, 0, 87702]), crate::sm::name(r, &["Marine", "Drone", "SCV"])])).collect();
        c["open"] = json!({"header": hex(&mpq::header(v as u32, r)), "details": crate::lobby::details(r), "slots": slots, "units": units,
            "without": if r.chance(1, 12) { json!(r.below(3)) } else { J::Null }});
    }
    c
}
/// the iterator of an archive on disk, and the state it has to start from
fn open(o: &J, build: u32, td: &[u8], gd: &[u8]) -> Result<Option<(SC2EventIterator, SC2ReplayState)>, String> {
    let (hd, det) = (unhex(o["header"].as_str().unwrap()), unhex(o["details"].as_str().unwrap()));
    let mut files = vec![("replay.details", &det[..]), ("replay.tracker.events", td), ("replay.game.events", gd)];
    let missing = o["without"].as_u64();
    if let Some(k) = missing {
        files.remove(k as usize);
    }
    let f = mpq::Scratch::new(&mpq::archive(&hd, &files));
    let mut i = InitData { ext_fs_file_name: f.0.to_str().unwrap().into(), version: build, ..Default::default() };
    for s in o["slots"].as_array().unwrap() {
        i.sync_lobby_state.lobby_state.slots.push(LobbySlot { working_set_slot_id: s[0].as_u64().map(|x| x as u8), user_id: s[1].as_i64(), ..Default::default() });
    }
    let mut all = HashMap::new();
    for u in o["units"].as_array().unwrap() {
        let (v, n) = (u[0].as_u64().unwrap() as u32, u[1].as_str().unwrap());
        let mut x = crate::small::balance(&json!({n: {"abilities": [], "builds": [], "trains": []}})).remove(n).unwrap();
        x.version = v;
        all.insert((v, n.to_string()), x);
    }
    let state = SC2ReplayState::try_from(&i);
    let got = SC2EventIterator::new(&i, all.clone());
    let Ok(mut state) = state else { return if got.is_err() { Ok(None) } else { Err("iteration started although the lobby could not be read".into()) } };
    if missing.is_some() {
        return if got.is_err() { Ok(None) } else { Err("iteration started without one of the sectors".into()) };
    }
    let it = got.map_err(|e| format!("iteration did not start: {e:?}"))?;
    let mut own: Vec<_> = all.keys().filter(|k| k.0 == build).map(|k| k.1.clone()).collect();
    let mut units: Vec<_> = it.sc2_state.balance_units.keys().cloned().collect();
    own.sort();
    units.sort();
    if own != units || it.sc2_state.balance_units.values().any(|u| u.version != build) {
        return Err(format!("iteration started with balance data {units:?}, contract says the {own:?} of build {build}"));
    }
    state.balance_units = it.sc2_state.balance_units.clone();
    if js(&state) != js(&it.sc2_state) {
        return Err("iteration did not start from the lobby's own state".into());
    }
    Ok(Some((it, state)))
}
fn gen18(r: &mut Rng, _: usize) -> J {
    generate(r, true)
}
fn kind(c: &J, k: &str) -> Vec<u8> {
    stream(&json!({"ops": c["ops"].as_array().unwrap().iter().filter(|o| o[0] == k).map(|o| o[1].clone()).collect::<Vec<_>>()}))
}
fn at(e: &SC2EventType) -> i64 {
    match e {
        SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
        SC2EventType::Game { game_loop, .. } => *game_loop,
    }
}
fn apply(s: &mut SC2ReplayState, e: SC2EventType) -> SC2EventIteratorItem {
    let (event_type, change_hint): (SC2EventType, UnitChangeHint) = match e {
        SC2EventType::Tracker { tracker_loop, event } => {
            let (event, h) = handle_tracker_event(s, tracker_loop, event);
            (SC2EventType::Tracker { tracker_loop, event }, h)
        }
        SC2EventType::Game { game_loop, user_id, player_name, event } => {
            let (event, h) = handle_game_event(s, game_loop, user_id, event);
            (SC2EventType::Game { game_loop, user_id, player_name, event }, h)
        }
    };
    SC2EventIteratorItem { event_type, change_hint }
}
fn js<T: serde::Serialize>(x: &T) -> J {
    serde_json::to_value(x).unwrap_or(J::Null)
}
/// whether the filters leave an event out, from its serialised form
fn left_out(e: &J, f: &SC2ReplayFilters) -> bool {
    let (k, b) = e.as_object().unwrap().iter().next().unwrap();
    let l = b[if k == "Game" { "game_loop" } else { "tracker_loop" }].as_i64().unwrap();
    if f.min_loop.is_some_and(|m| l < m) || f.max_loop.is_some_and(|m| l > m) {
        return true;
    }
    let other = |v: &J| f.player_id.is_some_and(|p| v.as_i64() != Some(p as i64));
    if k == "Game" {
        return other(&b["user_id"]);
    }
    let (t, x) = b["event"].as_object().unwrap().iter().next().unwrap();
    let renamed = || f.unit_name.as_ref().is_some_and(|n| x["unit_type_name"].as_str() != Some(n));
    match t.as_str() {
        "PlayerStats" => other(&x["player_id"]) || !f.include_stats,
        "UnitBorn" | "UnitInit" => other(&x["control_player_id"]) || renamed(),
        "UnitTypeChange" => renamed(),
        "UnitDied" => other(&x["killer_player_id"]),
        "UnitOwnerChange" => other(&x["control_player_id"]),
        "Upgrade" | "PlayerSetup" => other(&x["player_id"]),
        _ => false,
    }
}
pub struct Start {
    pub it: SC2EventIterator,
    pub filters: Option<SC2ReplayFilters>,
    /// both streams merged
    m: Vec<SC2EventType>,
    state: SC2ReplayState,
    interleaved: bool,
}
/// the iterator of a case, its filters not yet set
pub fn start(c: &J) -> Result<Option<Start>, String> {
    let build = c["build"].as_u64().unwrap() as u32;
    let (td, gd) = (kind(c, "t"), kind(c, "g"));
    let mut state = SC2ReplayState::default();
    state.init_data.version = build;
    for u in c["users"].as_array().unwrap() {
        let u = u.as_i64().unwrap();
        let mut p = PlayerLobbyDetails::default();
        p.player_details.name = format!("user {u}");
        state.user_state.insert(u, SC2UserState::new(p));
    }
    let opened = match c.get("open") {
        Some(o) => {
            let Some(x) = open(o, build, &td, &gd)? else { return Ok(None) };
            Some(x)
        }
        None => None,
    };
    if let Some((_, s)) = &opened {
        state = s.clone();
    }
    let mut ti = TrackertEventIteratorState::from(td.clone());
    let mut gi = GameEventIteratorState::from(gd.clone());
    let t: Vec<_> = std::iter::from_fn(|| ti.get_next_event(build)).collect();
    let units = HashMap::new();
    let g: Vec<_> = std::iter::from_fn(|| gi.get_next_event(build, &state.user_state, &units)).collect();
    let interleaved = !t.is_empty() && !g.is_empty();
    // the merge: by loop, game events first among equals
    let (mut i, mut j, mut m) = (0, 0, vec![]);
    while i < t.len() || j < g.len() {
        if i < t.len() && (j == g.len() || at(&t[i]) < at(&g[j])) {
            m.push(t[i].clone());
            i += 1;
        } else {
            m.push(g[j].clone());
            j += 1;
        }
    }
    let f = &c["filters"];
    let filters = f.is_object().then(|| {
        let pick = |k: &J| k.as_u64().and_then(|k| m.get(k as usize % m.len().max(1))).map(|e| at(e) + f["off"].as_i64().unwrap());
        let names: Vec<String> = t.iter().filter_map(|e| js(e)["Tracker"]["event"].as_object().and_then(|o| o.values().next().map(|x| x["unit_type_name"].clone())).and_then(|n| n.as_str().map(String::from))).collect();
        SC2ReplayFilters {
            player_id: f["player"].as_u64().map(|p| p as u8),
            min_loop: pick(&f["min"]),
            max_loop: pick(&f["max"]),
            unit_name: match &f["name"] {
                J::String(s) => Some(s.clone()),
                k => k.as_u64().map(|k| names.get(k as usize).cloned().unwrap_or("Nobody".into())),
            },
            max_events: f["n"].as_u64().map(|n| n as usize),
            include_stats: f["stats"] == true,
            ..Default::default()
        }
    });
    let mut base = js(&SC2EventIterator::default());
    base["tracker_iterator_state"]["event_data"] = json!(td);
    base["game_iterator_state"]["event_data"] = json!(gd);
    let mut it: SC2EventIterator = serde_json::from_value(base).map_err(|e| format!("harness: {e}"))?;
    it.sc2_state = state.clone();
    if let Some((x, _)) = opened {
        it = x;
    }
    Ok(Some(Start { it, filters, m, state, interleaved }))
}
fn run(c: &J) -> Verdict {
    let Some(Start { mut it, filters, m, mut state, interleaved }) = start(c)? else { return Ok(false) };
    if let Some(f) = &filters {
        it = it.with_filters(f.clone());
    }
    let mut k = 0;
    let (mut shown, mut skipped) = (0, 0);
    let mut ended = false;
    // one call of next() per round; the model applies events until it finds the one to yield
    for round in 0..m.len() + 3 {
        let mut want = None;
        while k < m.len() && !ended {
            let Ok(x) = catch_unwind(AssertUnwindSafe(|| apply(&mut state, m[k].clone()))) else { return Ok(shown > 0) };
            k += 1;
            let out = filters.as_ref().is_some_and(|f| left_out(&js(&x.event_type), f));
            if out {
                skipped += 1;
                continue;
            }
            if filters.as_ref().and_then(|f| f.max_events).is_some_and(|n| shown >= n) {
                ended = true;
                break;
            }
            shown += 1;
            want = Some(x);
            break;
        }
        let got = it.next();
        match (&got, &want) {
            (None, None) => {}
            (Some(a), Some(b)) => {
                if js(a) != js(b) {
                    return Err(format!("item {round} is {}, contract says {}", js(a), js(b)));
                }
            }
            (Some(a), None) => return Err(format!("item {round} is {}, contract says there is none", js(a))),
            (None, Some(b)) => return Err(format!("iteration ended before item {round}: {}", js(b))),
        }
        // once it has ended, calls only have to go on yielding nothing
        if !ended && got.is_some() && js(&it.sc2_state) != js(&state) {
            return Err(format!("after item {round} the replay state is {}, contract says {}", js(&it.sc2_state), js(&state)));
        }
    }
    Ok(if filters.is_some() { shown > 0 && skipped > 0 } else { interleaved })
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "two streams of up to 8 encoded records (small and large loop steps, ties, random builds and users), a third of them read from archives on disk with lobby and balance data of several builds; every item and the replay state after it are compared with the merged lists applied one by one",
            n: (4000, 80_000),
            generate: gen17,
            run,
        },
        Prop {
            id: "C18",
            rule: "as C17 with random filters (player, unit name, loop bounds at and around event loops, statistics, maximum count); items and state are compared with the filtered merged list",
            n: (8000, 150_000),
            generate: gen18,
            run,
        },
    ]
}
