//! C28: exported rows carry exactly their event's values.
//! Rows are compared with what the serialised event, hint, user or player says, column by column.
use crate::merge;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::details::{Details, PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use s2protocol::game_events::{CmdTargetPointEventFlatRow, CmdTargetUnitEventFlatRow, ReplayGameEvent};
use s2protocol::init_data::UserInitDataFlatRow;
use s2protocol::state::{SC2EventIterator, SC2EventIteratorItem, SC2Unit};
use s2protocol::tracker_events::*;
use s2protocol::{InitData, SC2EventType};
use serde::de::DeserializeOwned;
use serde_json::{Map, Value as J, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

const NAMES: [&str; 6] = ["Marine", "Zergling", "Larva", "SCV", "", "Train"];
fn js<T: serde::Serialize>(x: &T) -> J {
    serde_json::to_value(x).unwrap_or(J::Null)
}
fn of<T: DeserializeOwned>(x: &J) -> Result<T, String> {
    serde_json::from_value(x.clone()).map_err(|e| format!("harness: {e}: {x}"))
}
// ------------------------------------------------------------------ generator
fn name(r: &mut Rng) -> String {
    crate::sm::name(r, &NAMES)
}
fn maybe(r: &mut Rng, f: impl Fn(&mut Rng) -> J) -> J {
    if r.chance(1, 3) { J::Null } else { f(r) }
}
fn num(r: &mut Rng, lo: i128, hi: i128) -> J {
    json!(r.int(lo, hi) as i64)
}
fn u32s(r: &mut Rng) -> J {
    num(r, 0, u32::MAX as i128)
}
fn u8s(r: &mut Rng) -> J {
    num(r, 0, 255)
}
fn unit(r: &mut Rng) -> J {
    let mut u = js(&SC2Unit::default());
    u["name"] = json!(name(r));
    u["tag_index"] = u32s(r);
    u["user_id"] = maybe(r, |r| u8s(r));
    u["player_name"] = maybe(r, |r| json!(name(r)));
    u["creator_ability_name"] = maybe(r, |r| json!(name(r)));
    u["cmd"]["other_unit_name"] = maybe(r, |r| json!(name(r)));
    u["last_game_loop"] = num(r, 0, 1 << 40);
    for k in 0..3 {
        u["pos"][k] = json!(r.below(4000) as f32 / 8.0 - 100.0);
    }
    u
}
fn point(r: &mut Rng) -> J {
    json!({"x": num(r, -(1 << 33), 1 << 33), "y": num(r, -(1 << 33), 1 << 33), "z": num(r, i32::MIN as i128, i32::MAX as i128)})
}
fn cmd(r: &mut Rng) -> J {
    let abil = maybe(r, |r| json!({"m_abil_link": num(r, 0, 65535), "ability": name(r), "m_abil_cmd_index": num(r, 0, 31), "m_abil_cmd_data": J::Null}));
    let data = match r.below(5) {
        0 => json!("None"),
        1 | 2 => json!({"TargetPoint": point(r)}),
        3 => json!({"TargetUnit": {"m_target_unit_flags": num(r, 0, 65535), "m_timer": u8s(r), "m_tag": u32s(r), "m_snapshot_unit_link": num(r, 0, 65535),
            "m_snapshot_control_player_id": maybe(r, |r| num(r, 0, 15)), "m_snapshot_upkeep_player_id": maybe(r, |r| num(r, 0, 15)), "m_snapshot_point": point(r)}}),
        _ => json!({"Data": u32s(r)}),
    };
    json!({"m_cmd_flags": num(r, 0, 1 << 26), "m_abil": abil, "m_data": data, "m_sequence": num(r, 1, 1 << 32), "m_other_unit": maybe(r, |r| u32s(r)), "m_unit_group": maybe(r, |r| u32s(r))})
}
fn stats(r: &mut Rng) -> J {
    let kinds = ["army", "economy", "technology"];
    let mut o = Map::new();
    for res in ["minerals", "vespene"] {
        for k in ["current", "collection_rate", "used_active_forces"] {
            o.insert(format!("{res}_{k}"), num(r, i32::MIN as i128, i32::MAX as i128));
        }
        for w in ["used_in_progress", "used_current", "lost", "killed", "friendly_fire"] {
            for k in kinds {
                o.insert(format!("{res}_{w}_{k}"), num(r, i32::MIN as i128, i32::MAX as i128));
            }
        }
    }
    for k in ["workers_active_count", "food_used", "food_made"] {
        o.insert(k.into(), num(r, i32::MIN as i128, i32::MAX as i128));
    }
    J::Object(o)
}
fn tracker(r: &mut Rng, k: &str) -> J {
    let (i, c) = (u32s(r), u32s(r));
    let o = |r: &mut Rng| maybe(r, |r| u32s(r));
    match k {
        "UnitBorn" => json!({"unit_tag_index": i, "unit_tag_recycle": c, "unit_type_name": name(r), "control_player_id": u8s(r), "upkeep_player_id": u8s(r), "x": u8s(r), "y": u8s(r),
            "creator_unit_tag_index": o(r), "creator_unit_tag_recycle": o(r), "creator_ability_name": maybe(r, |r| json!(name(r)))}),
        "UnitDone" => json!({"unit_tag_index": i, "unit_tag_recycle": c}),
        "UnitTypeChange" => json!({"unit_tag_index": i, "unit_tag_recycle": c, "unit_type_name": name(r)}),
        "UnitDied" => json!({"unit_tag_index": i, "unit_tag_recycle": c, "killer_player_id": maybe(r, |r| u8s(r)), "x": u8s(r), "y": u8s(r), "killer_unit_tag_index": o(r), "killer_unit_tag_recycle": o(r)}),
        "Upgrade" => json!({"player_id": u8s(r), "player_name": J::Null, "upgrade_type_name": name(r), "count": num(r, i32::MIN as i128, i32::MAX as i128)}),
        _ => json!({"player_id": u8s(r), "stats": stats(r)}),
    }
}
fn hint(r: &mut Rng, ev: &J) -> J {
    let n = r.count(4);
    let mut some = |r: &mut Rng| -> J { (0..n).map(|_| unit(r)).collect() };
    match if r.chance(1, 10) { 9 } else if ev.is_object() { 3 } else { r.below(3) } {
        0 | 1 => json!({"Registered": {"unit": unit(r), "creator": maybe(r, |r| unit(r))}}),
        2 => json!({"Unregistered": {"killer": maybe(r, |r| unit(r)), "killed": unit(r)}}),
        3 => json!({"Abilities": {"units": some(r), "event": ev, "target": maybe(r, |r| unit(r))}}),
        _ => match r.below(3) {
            0 => json!("None"),
            1 => json!({"Selection": some(r)}),
            _ => json!({"TargetPoints": some(r)}),
        },
    }
}
/// a loop at which the seconds are computed: zero, negative, large, or near a dictionary number
fn at(r: &mut Rng) -> J {
    if r.chance(1, 4) { num(r, -(1 << 40), 1 << 40) } else { num(r, 0, 100_000) }
}
fn item(r: &mut Rng) -> J {
    let k = *r.pick(&["UnitBorn", "UnitDone", "UnitTypeChange", "UnitDied", "Upgrade", "PlayerStats", "Cmd", "Cmd", "Cmd"]);
    if k == "Cmd" {
        let e = cmd(r);
        let h = hint(r, &e);
        return json!({"event_type": {"Game": {"game_loop": at(r), "user_id": num(r, -1, 31), "player_name": maybe(r, |r| json!(name(r))), "event": {"Cmd": e}}}, "change_hint": h});
    }
    let mut h = hint(r, &J::Null);
    while k == "UnitDied" && h.get("Unregistered").is_none() && r.chance(2, 3) {
        h = hint(r, &J::Null);
    }
    json!({"event_type": {"Tracker": {"tracker_loop": at(r), "event": {k: tracker(r, k)}}}, "change_hint": h})
}
fn handles(r: &mut Rng) -> J {
    let n = r.count(4);
    (0..n)
        .map(|k| {
            let mut s: String = format!("{:02x}{:02x}{:02x}{:02x}0000{:02x}{:02x}", 115, 50, 109, 97 + k.min(20), *r.pick(&[85u8, 69, 75, 200]), *r.pick(&[83u8, 85, 82, 0]));
            let m = if r.chance(1, 5) { r.below(8) } else { 64 };
            for _ in 0..m {
                s.push(*r.pick(b"0123456789abcdef") as char);
            }
            s
        })
        .collect()
}
fn generate(r: &mut Rng, i: usize) -> J {
    match i % 8 {
        0 | 1 => {
            let filters = r.chance(1, 2);
            let mut c = merge::generate(r, filters);
            c["kind"] = json!("stream");
            c["id"] = json!(r.below(1 << 30));
            c
        }
        2 => {
            let n = r.count(6);
            let ops: Vec<J> = (0..n).map(|_| json!({"name": name(r), "clan_tag": maybe(r, |r| json!(name(r))), "scaled_rating": maybe(r, |r| num(r, i32::MIN as i128, i32::MAX as i128))})).collect();
            json!({"kind": "users", "id": r.below(1 << 30), "file": name(r), "sum": name(r), "ops": ops})
        }
        3 => {
            let mut p = js(&PlayerLobbyDetails::default());
            let d = &mut p["player_details"];
            for (k, v) in [("name", name(r)), ("race", name(r)), ("result", name(r)), ("hero", name(r))] {
                d[k] = json!(v);
            }
            for k in ["control", "team_id", "observe"] {
                d[k] = u8s(r);
            }
            d["working_set_slot_id"] = maybe(r, |r| u8s(r));
            d["toon"] = json!({"region": u8s(r), "program_id": u32s(r), "realm": u32s(r), "id": num(r, 0, i64::MAX as i128)});
            d["color"] = json!({"a": u8s(r), "r": u8s(r), "g": u8s(r), "b": u8s(r)});
            for k in ["title", "user_init_data_name", "user_init_data_clan_tag", "ext_fs_sha256", "ext_fs_file_name"] {
                p[k] = json!(name(r));
            }
            for k in ["time_utc", "time_local_offset"] {
                p[k] = num(r, i64::MIN as i128, i64::MAX as i128);
            }
            p["ext_fs_id"] = num(r, 0, i64::MAX as i128);
            p["lobby_slot"]["user_id"] = maybe(r, |r| num(r, -1, 15));
            p["lobby_slot"]["observe"] = u8s(r);
            p["game_description"]["is_blizzard_map"] = json!(r.chance(1, 2));
            p["game_description"]["map_size_x"] = u8s(r);
            p["game_description"]["map_size_y"] = u8s(r);
            p["ext_datetime"] = json!(format!("20{:02}-0{}-1{}T0{}:1{}:2{}", r.below(100), 1 + r.below(9), r.below(10), r.below(10), r.below(10), r.below(10)));
            json!({"kind": "player", "player": p, "ops": handles(r)})
        }
        _ => json!({"kind": "row", "id": r.below(1 << 30), "item": item(r)}),
    }
}
// ------------------------------------------------------------------ oracle
fn seconds(l: &J) -> u32 {
    (l.as_i64().unwrap() as f32 * 68.58391f32 / 1000.0f32) as u32
}
/// the kinds of rows an item leads to, with their columns
fn rows_of(it: &J, id: u64) -> (&'static str, Vec<J>) {
    let h = &it["change_hint"];
    let tail = |mut o: J, l: &J| -> J {
        o["ext_replay_loop"] = l.clone();
        o["ext_replay_seconds"] = json!(seconds(l));
        o["ext_fs_id"] = json!(id);
        o
    };
    if let Some(g) = it["event_type"].get("Game") {
        let Some(e) = g["event"].get("Cmd") else { return ("", vec![]) };
        let units: &[J] = h["Abilities"]["units"].as_array().map_or(&[], |v| v);
        let mut o = json!({"user_id": g["user_id"], "player_name": g["player_name"], "cmd_flags": e["m_cmd_flags"], "abil_link": e["m_abil"]["m_abil_link"],
            "abil_cmd_index": e["m_abil"]["m_abil_cmd_index"], "ability": e["m_abil"]["ability"].as_str().unwrap_or(""), "sequence": e["m_sequence"]});
        let d = &e["m_data"];
        let t = &d["TargetUnit"];
        let kind = if d.get("TargetPoint").is_some() {
            for k in ["x", "y", "z"] {
                o[format!("target_point_{k}")] = d["TargetPoint"][k].clone();
            }
            o["unit_group"] = e["m_unit_group"].clone();
            "point"
        } else if t.is_object() {
            for k in ["target_unit_flags", "tag", "snapshot_unit_link", "snapshot_control_player_id", "snapshot_upkeep_player_id"] {
                o[k] = t[format!("m_{k}")].clone();
            }
            for k in ["x", "y", "z"] {
                o[format!("snapshot_point_{k}")] = t["m_snapshot_point"][k].clone();
            }
            "target"
        } else {
            return ("", vec![]);
        };
        let one = |u: &J| {
            let mut o = tail(o.clone(), &g["game_loop"]);
            o["unit_name"] = u["name"].clone();
            if kind == "target" {
                o["target_unit_name"] = json!(u["cmd"]["other_unit_name"].as_str().unwrap_or(""));
            }
            o
        };
        return (kind, units.iter().map(one).collect());
    }
    let t = &it["event_type"]["Tracker"];
    let l = &t["tracker_loop"];
    let (k, e) = t["event"].as_object().and_then(|o| o.iter().next()).map_or(("", &J::Null), |(k, e)| (k.as_str(), e));
    match k {
        "UnitBorn" | "UnitDone" | "UnitTypeChange" => {
            let Some(x) = h.get("Registered") else { return ("born", vec![]) };
            let u = &x["unit"];
            let mut o = json!({"unit_tag_index": e["unit_tag_index"], "unit_tag_recycle": e["unit_tag_recycle"], "creator_unit_type_name": x["creator"]["name"], "player_name": u["player_name"]});
            if k == "UnitBorn" {
                for k in ["unit_type_name", "control_player_id", "upkeep_player_id", "creator_unit_tag_index", "creator_unit_tag_recycle", "creator_ability_name"] {
                    o[k] = e[k].clone();
                }
                for k in ["x", "y"] {
                    o[k] = json!(e[k].as_f64());
                }
            } else {
                o["unit_type_name"] = u["name"].clone();
                o["control_player_id"] = u["user_id"].clone();
                o["upkeep_player_id"] = u["user_id"].clone();
                o["creator_unit_tag_index"] = J::Null;
                o["creator_unit_tag_recycle"] = J::Null;
                o["creator_ability_name"] = u["creator_ability_name"].clone();
                o["x"] = u["pos"][0].clone();
                o["y"] = u["pos"][1].clone();
            }
            ("born", vec![tail(o, l)])
        }
        "UnitDied" => {
            let Some(x) = h.get("Unregistered") else { return ("died", vec![]) };
            let mut o = e.clone();
            o["unit_died_name"] = x["killed"]["name"].clone();
            o["unit_killer_name"] = json!(x["killer"]["name"].as_str().unwrap_or(""));
            ("died", vec![tail(o, l)])
        }
        "Upgrade" => ("upgrade", vec![tail(json!({"player_id": e["player_id"], "name": e["upgrade_type_name"], "count": e["count"]}), l)]),
        "PlayerStats" => {
            let mut o = e["stats"].clone();
            o["player_id"] = e["player_id"].clone();
            ("stats", vec![tail(o, l)])
        }
        _ => ("", vec![]),
    }
}
fn same(what: &str, got: &J, want: &[J]) -> Result<(), String> {
    let g = got.as_array().unwrap();
    if g.len() != want.len() {
        return Err(format!("{what}: {} rows, contract says {}", g.len(), want.len()));
    }
    for (k, (a, b)) in g.iter().zip(want).enumerate() {
        if a != b {
            return Err(format!("{what}, row {k}: {}", crate::info::differ("", a, b)));
        }
    }
    Ok(())
}
fn run_row(c: &J) -> Verdict {
    let id = c["id"].as_u64().unwrap();
    let it: SC2EventIteratorItem = of(&c["item"])?;
    // the item as the crate holds it
    let (kind, want) = rows_of(&js(&it), id);
    let d = Details { ext_fs_id: id, ..Default::default() };
    let h = it.change_hint;
    let got = match it.event_type {
        SC2EventType::Game { game_loop, user_id, player_name, event: ReplayGameEvent::Cmd(e) } => match kind {
            "target" => js(&CmdTargetUnitEventFlatRow::new(&d, e, game_loop, user_id, player_name, h)),
            "point" => js(&CmdTargetPointEventFlatRow::new(&d, e, game_loop, user_id, player_name, h)),
            _ => {
                let mut a = js(&CmdTargetUnitEventFlatRow::new(&d, e.clone(), game_loop, user_id, player_name.clone(), h.clone()));
                a.as_array_mut().unwrap().extend(js(&CmdTargetPointEventFlatRow::new(&d, e, game_loop, user_id, player_name, h)).as_array().unwrap().clone());
                a
            }
        },
        SC2EventType::Tracker { tracker_loop: l, event } => match event {
            ReplayTrackerEvent::UnitBorn(e) => js(&UnitBornEventFlatRow::from_unit_born(e, l, &d, h).into_iter().collect::<Vec<_>>()),
            ReplayTrackerEvent::UnitDone(e) => js(&UnitBornEventFlatRow::from_unit_done(e, l, &d, h).into_iter().collect::<Vec<_>>()),
            ReplayTrackerEvent::UnitTypeChange(e) => js(&UnitBornEventFlatRow::from_unit_type_change(e, l, &d, h).into_iter().collect::<Vec<_>>()),
            ReplayTrackerEvent::UnitDied(e) => js(&UnitDiedEventFlatRow::new(&d, e, l, h).into_iter().collect::<Vec<_>>()),
            ReplayTrackerEvent::Upgrade(e) => js(&[UpgradeEventFlatRow::new(e, l, d)]),
            ReplayTrackerEvent::PlayerStats(e) => {
                // every statistic under its name
                let all: std::collections::BTreeMap<String, J> = e.stats.as_prop_name_value_vec().into_iter().map(|(k, v)| (k.replacen('/', "_", 1), json!(v))).collect();
                if e.stats.as_prop_name_value_vec().len() != all.len() || js(&all) != js(&e.stats) {
                    return Err(format!("the named statistics are {:?}, contract says {}", e.stats.as_prop_name_value_vec(), js(&e.stats)));
                }
                js(&[PlayerStatsFlatRow::new(e, l, d)])
            }
            _ => return Ok(false),
        },
        _ => return Ok(false),
    };
    same(if kind.is_empty() { "command without a target" } else { kind }, &got, &want)?;
    Ok(!want.is_empty())
}
fn run_stream(c: &J) -> Verdict {
    let id = c["id"].as_u64().unwrap();
    let mk = || -> Result<SC2EventIterator, String> {
        let merge::Start { mut it, filters, .. } = merge::start(c)?.ok_or("harness: no iterator")?;
        it.sc2_state.details.ext_fs_id = id;
        Ok(match filters {
            Some(f) => it.with_filters(f),
            None => it,
        })
    };
    // what it yields; an event the handlers panic on is another property's matter
    let first = mk()?;
    let Ok(items) = catch_unwind(AssertUnwindSafe(move || first.map(|x| js(&x)).collect::<Vec<J>>())) else { return Ok(false) };
    let (mut rows, mut some) = (std::collections::BTreeMap::<&str, Vec<J>>::new(), false);
    for i in &items {
        let (k, r) = rows_of(i, id);
        some |= !r.is_empty();
        rows.entry(k).or_default().extend(r);
    }
    for k in ["born", "died", "upgrade", "stats", "point", "target"] {
        let it = mk()?;
        let got = match k {
            "born" => js(&it.collect_into_unit_born_flat_rows()),
            "died" => js(&it.collect_into_unit_died_flat_rows()),
            "upgrade" => js(&it.collect_into_upgrades_flat_rows()),
            "stats" => js(&it.collect_into_player_stats_flat_rows()),
            "point" => js(&it.collect_into_game_cmd_target_points_flat_rows()),
            _ => js(&it.collect_into_game_cmd_target_units_flat_rows()),
        };
        same(&format!("collected {k} rows"), &got, rows.get(k).map_or(&[], |v| v))?;
    }
    Ok(some)
}
fn run_users(c: &J) -> Verdict {
    let ops = c["ops"].as_array().unwrap();
    let mut i = InitData { ext_fs_id: c["id"].as_u64().unwrap(), ext_fs_sha256: of(&c["sum"])?, ext_fs_file_name: of(&c["file"])?, ..Default::default() };
    for o in ops {
        let mut u = crate::lobby::user(o["name"].as_str().unwrap(), o["clan_tag"].as_str());
        u.scaled_rating = of(&o["scaled_rating"])?;
        i.sync_lobby_state.user_initial_data.push(u);
    }
    let want: Vec<J> = ops.iter().enumerate().map(|(k, o)| json!({"ext_fs_id": c["id"], "ext_fs_sha256": c["sum"], "ext_fs_file_name": c["file"], "user_index": k, "name": o["name"],
        "clan_tag": o["clan_tag"].as_str().unwrap_or(""), "scaled_rating": o["scaled_rating"]})).collect();
    same("users", &js(&Vec::<UserInitDataFlatRow>::from(&i)), &want)?;
    Ok(!want.is_empty())
}
fn run_player(c: &J) -> Verdict {
    let mut p: PlayerLobbyDetails = of(&c["player"])?;
    let hs: Vec<String> = of(&c["ops"])?;
    p.cache_handles = hs.clone();
    let j = js(&p);
    let d = &j["player_details"];
    let mut o = json!({});
    for k in ["name", "race", "control", "team_id", "observe", "result", "working_set_slot_id", "hero"] {
        o[format!("player_{k}")] = d[k].clone();
    }
    for k in ["region", "program_id", "realm", "id"] {
        o[format!("player_toon_{k}")] = d["toon"][k].clone();
    }
    for k in ["a", "r", "g", "b"] {
        o[format!("player_color_{k}")] = d["color"][k].clone();
    }
    for k in ["title", "time_utc", "time_local_offset", "ext_fs_sha256", "ext_fs_file_name", "ext_fs_id", "ext_datetime"] {
        o[k] = j[k].clone();
    }
    o["is_blizzard_map"] = j["game_description"]["is_blizzard_map"].clone();
    o["lobby_slot_map_size_x"] = j["game_description"]["map_size_x"].clone();
    o["lobby_slot_map_size_y"] = j["game_description"]["map_size_y"].clone();
    o["lobby_slot_user_id"] = j["lobby_slot"]["user_id"].clone();
    o["lobby_slot_observe"] = j["lobby_slot"]["observe"].clone();
    let plain = |s: &str| -> String { s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap() as char).collect() };
    // a handle too short for extension and region is none
    let hs: Vec<String> = hs.into_iter().filter(|h| h.len() >= 16).collect();
    o["cache_handle_extension"] = json!(hs.first().map(|h| plain(&h[..8])));
    o["cache_handle_region"] = json!(hs.first().map(|h| plain(&h[12..16])));
    o["cache_handles"] = json!(hs.iter().map(|h| &h[16..]).collect::<Vec<_>>().join(","));
    same("player", &json!([js(&PlayerLobbyDetailsFlatRow::from(p))]), &[o])?;
    Ok(true)
}
fn run(c: &J) -> Verdict {
    match c["kind"].as_str().unwrap() {
        "row" => run_row(c),
        "stream" => run_stream(c),
        "users" => run_users(c),
        _ => run_player(c),
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "events of every exported kind with every kind of hint, whole iterations with and without filters, users and joined players with any list of cache handles; every column of every row compared with the serialised event, hint, user or player",
        n: (20_000, 300_000),
        generate,
        run,
    }]
}
