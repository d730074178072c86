//! C13–C16: the replay state machine, event by event against a reference model.
//! Every event runs on the real state and on the model.  For an event of the property at hand the
//! results are compared; after any other event the model takes over the real state.
use crate::rng::Rng;
use crate::small::{balance, expand, lookup};
use crate::{Prop, Verdict};
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::game_events::*;
use s2protocol::state::*;
use s2protocol::tracker_events::*;
use s2protocol::common::Vec3D;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone)]
struct M {
    units: BTreeMap<u32, SC2Unit>,
    users: BTreeMap<i64, SC2UserState>,
}
pub fn dbg<T: std::fmt::Debug>(x: &T) -> String {
    // the two zeros are equal numbers
    let s = format!("{x:?}");
    if s.contains("-0.0") { s.replace("-0.0,", "0.0,").replace("-0.0]", "0.0]").replace("-0.0)", "0.0)").replace("-0.0 }", "0.0 }") } else { s }
}
fn take(s: &SC2ReplayState) -> M {
    M { units: s.units.clone().into_iter().collect(), users: s.user_state.clone().into_iter().collect() }
}
fn idx(tag: u32) -> u32 {
    tag >> 18
}
fn same<K: Ord + std::fmt::Debug, V: std::fmt::Debug>(what: &str, got: &BTreeMap<K, V>, want: &BTreeMap<K, V>) -> Result<(), String> {
    for (k, w) in want {
        match got.get(k) {
            None => return Err(format!("{what} {k:?} is gone, contract says {w:?}")),
            Some(g) if dbg(g) != dbg(w) => return Err(format!("{what} {k:?} is {g:?}, contract says {w:?}")),
            _ => {}
        }
    }
    match got.keys().find(|k| !want.contains_key(k)) {
        Some(k) => Err(format!("{what} {k:?} appeared: {:?}", got[k])),
        None => Ok(()),
    }
}
/// the same units, in any order
fn list(what: &str, got: &[SC2Unit], want: &[SC2Unit]) -> Result<(), String> {
    let s = |v: &[SC2Unit]| {
        let mut v: Vec<String> = v.iter().map(dbg).collect();
        v.sort();
        v
    };
    if s(got) == s(want) { Ok(()) } else { Err(format!("{what}: reported {got:?}, contract says {want:?}")) }
}
fn is<T: std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if dbg(got) == dbg(want) { Ok(()) } else { Err(format!("{what}: got {got:?}, contract says {want:?}")) }
}
// ------------------------------------------------------------------ generator
const NAMES: &[&str] = &["Marine", "SCV", "Hatchery", "Overlord", "Zergling"];
/// one of the names, or a text close to one
pub fn name(r: &mut Rng, names: &[&str]) -> String {
    if let Some(w) = r.word() {
        return w;
    }
    let w = *r.pick(names);
    if r.chance(1, 5) { r.near(w) } else { w.into() }
}
fn ui(r: &mut Rng) -> u32 {
    if r.chance(1, 12) { *r.pick(&[(1 << 14) - 1, 1 << 13, 300, 16, 256, 255]) } else if r.chance(1, 30) { r.below(1 << 14) as u32 } else { r.below(7) as u32 }
}
fn utag(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => r.int(0, u32::MAX as i128) as u32,
        1 => ui(r),
        _ => ui(r) << 18 | r.below(3) as u32,
    }
}
fn tags(r: &mut Rng) -> Vec<u32> {
    let n = r.below(6);
    let n = r.size(n, 600);
    (0..n).map(|_| utag(r)).collect()
}
fn gl(r: &mut Rng) -> i64 {
    r.int(0, 100_000) as i64
}
fn user(r: &mut Rng) -> i64 {
    if r.chance(1, 8) { 3 } else { r.below(2) as i64 }
}
fn point(r: &mut Rng) -> J {
    json!({"x": r.int(-(1 << 33), 1 << 33) as i64, "y": r.int(-(1 << 33), 1 << 33) as i64, "z": r.int(i32::MIN as i128, i32::MAX as i128) as i64})
}
fn opt(r: &mut Rng, v: i64) -> J {
    if r.chance(1, 3) { J::Null } else { json!(v) }
}
fn target(r: &mut Rng) -> J {
    let (a, b) = (r.below(99) as i64, r.below(99) as i64);
    json!({"m_target_unit_flags": r.below(65536), "m_timer": r.below(256), "m_tag": utag(r), "m_snapshot_unit_link": r.below(65536),
        "m_snapshot_control_player_id": opt(r, a), "m_snapshot_upkeep_player_id": opt(r, b), "m_snapshot_point": point(r)})
}
fn pts(r: &mut Rng) -> Vec<i64> {
    let k = r.below(4);
    let n = r.size(k, 600) * 3 + if r.chance(1, 6) { r.below(3) } else { 0 };
    (0..n)
        .map(|i| match (i % 3, r.below(8)) {
            (_, 0) => r.int(i32::MIN as i128, i32::MAX as i128) as i64,
            (0, _) => r.range(0, 3) as i64,
            _ => r.range(-40, 900) as i64,
        })
        .collect()
}
fn track(r: &mut Rng, k: &str) -> J {
    let i = ui(r);
    let (a, b, c) = (ui(r) as i64, r.below(3) as i64, r.below(4) as i64);
    let name = name(r, NAMES);
    let mut e = match k {
        "UnitInit" | "UnitBorn" => json!({"unit_tag_index": i, "unit_tag_recycle": r.below(3), "unit_type_name": name, "control_player_id": r.below(4),
            "upkeep_player_id": r.below(4), "x": r.below(256), "y": r.below(256)}),
        "UnitTypeChange" => json!({"unit_tag_index": i, "unit_tag_recycle": r.below(3), "unit_type_name": name}),
        "UnitDone" => json!({"unit_tag_index": i, "unit_tag_recycle": r.below(3)}),
        "UnitDied" => json!({"unit_tag_index": i, "unit_tag_recycle": r.below(3), "killer_player_id": opt(r, b), "x": 1, "y": 2,
            "killer_unit_tag_index": opt(r, a), "killer_unit_tag_recycle": opt(r, b)}),
        "UnitOwnerChange" => json!({"unit_tag_index": i, "unit_tag_recycle": r.below(3), "control_player_id": r.below(4), "upkeep_player_id": r.below(4)}),
        "PlayerSetup" => json!({"player_id": r.below(4), "m_type": 1, "user_id": opt(r, c), "slot_id": opt(r, b)}),
        "Upgrade" => json!({"player_id": r.below(4), "player_name": J::Null, "upgrade_type_name": "U", "count": 1}),
        "UnitPosition" => json!({"first_unit_index": if r.chance(1, 10) { r.int(0, u32::MAX as i128) as i64 } else { i as i64 }, "items": pts(r)}),
        _ => unreachable!(),
    };
    if k == "UnitBorn" {
        let has = r.chance(1, 2);
        e["creator_unit_tag_index"] = if has { json!(a) } else { J::Null };
        e["creator_unit_tag_recycle"] = if has { json!(b) } else { J::Null };
        e["creator_ability_name"] = if has { json!("Train") } else { J::Null };
    }
    json!({"loop": gl(r), "t": {k: e}})
}
fn mask() -> J {
    json!("None")
}
fn game(r: &mut Rng, k: &str) -> J {
    let e = match k {
        "Cmd" => {
            let abil = if r.chance(1, 6) { J::Null } else { json!({"m_abil_link": r.below(4), "ability": "", "m_abil_cmd_index": r.below(4), "m_abil_cmd_data": opt(r, 5)}) };
            let data = match r.below(4) {
                0 => json!("None"),
                1 => json!({"TargetPoint": point(r)}),
                2 => json!({"TargetUnit": target(r)}),
                _ => json!({"Data": r.below(1000)}),
            };
            let (a, b) = (utag(r) as i64, r.below(100) as i64);
            json!({"m_cmd_flags": r.below(1 << 26), "m_abil": abil, "m_data": data, "m_sequence": r.below(1000), "m_other_unit": opt(r, a), "m_unit_group": opt(r, b)})
        }
        "CmdUpdateTargetPoint" => json!({"m_target": point(r)}),
        "CmdUpdateTargetUnit" => json!({"m_target": target(r)}),
        "SelectionDelta" => {
            let g = match r.below(10) {
                0 => r.below(256),
                1..=6 => 10,
                _ => r.below(11),
            };
            json!({"m_control_group_id": g, "m_delta": {"m_subgroup_index": 0, "m_remove_mask": mask(), "m_add_subgroups": [], "m_add_unit_tags": tags(r)}})
        }
        "ControlGroupUpdate" => {
            let g = match r.below(10) {
                0 => r.below(256),
                1 => 10,
                _ => r.below(4),
            };
            let u = *r.pick(&["ESet", "EAppend", "ERecall", "EClear", "ESetAndSteal", "EAppendAndSteal"]);
            json!({"m_control_group_index": g, "m_control_group_update": u, "m_mask": mask()})
        }
        "CameraSave" => json!({"m_which": 1, "m_target": {"x": r.below(100), "y": r.below(100)}}),
        "UnitClick" => json!({"m_unit_tag": utag(r)}),
        _ => unreachable!(),
    };
    json!({"loop": gl(r), "user": user(r), "g": {k: e}})
}
const REG: &[&str] = &["UnitInit", "UnitBorn", "UnitTypeChange", "UnitDone", "UnitDied", "UnitOwnerChange", "PlayerSetup", "Upgrade"];
const SEL: &[&str] = &["SelectionDelta", "ControlGroupUpdate"];
const CMD: &[&str] = &["Cmd", "CmdUpdateTargetPoint", "CmdUpdateTargetUnit", "SelectionDelta", "ControlGroupUpdate", "CameraSave", "UnitClick"];
fn generate(r: &mut Rng, main: &[&str], births: usize) -> J {
    let mut n = match r.below(4) {
        0 => 3,
        1 => 10,
        _ => 30,
    } + r.below(12);
    n = r.size(n, 300);
    let mut ops = vec![];
    for _ in 0..births {
        let k = *r.pick(&["UnitInit", "UnitBorn", "UnitBorn", "UnitTypeChange"]);
        ops.push(track(r, k));
    }
    while n > 0 {
        n -= 1;
        let k = if r.chance(3, 4) {
            *r.pick(main)
        } else {
            let v = if r.chance(1, 2) { REG } else { CMD };
            *r.pick(v)
        };
        ops.push(if REG.contains(&k) || k == "UnitPosition" { track(r, k) } else { game(r, k) });
    }
    // now and then a large army: one report moves all of it, one delta selects all of it
    let swarm = if r.chance(1, 90) { *r.pick(&[70usize, 130, 258, 300]) } else { 0 };
    if swarm > 0 {
        let pos: Vec<i64> = (0..swarm).flat_map(|k| [(k > 0) as i64, k as i64, 900 - k as i64]).collect();
        let all: Vec<u32> = (0..swarm as u32).map(|k| k << 18 | 1).collect();
        let sel = json!({"m_control_group_id": 10, "m_delta": {"m_subgroup_index": 0, "m_remove_mask": mask(), "m_add_subgroups": [], "m_add_unit_tags": all}});
        let at = r.below(ops.len() + 1);
        ops.insert(at, json!({"loop": gl(r), "t": {"UnitPosition": {"first_unit_index": 0, "items": pos}}}));
        let at = r.below(ops.len() + 1);
        ops.insert(at, json!({"loop": gl(r), "user": user(r), "g": {"SelectionDelta": sel}}));
    }
    let units = crate::small::c19_units(r);
    let names: Vec<String> = (0..4).map(|_| name(r, &["Ana", "Bo", "", "[x]<sp/>Cy", "Di\u{301}", " Eve\t", "&lt;T&gt;<sp/>Flo"])).collect();
    json!({"balance": units, "names": names, "swarm": swarm, "users": if r.chance(1, 10) { 0 } else { 1 + r.below(3) }, "ops": ops})
}
fn gen13(r: &mut Rng, i: usize) -> J {
    if i % 2 == 0 { crate::small::c13_gen(r, i) } else { generate(r, &["UnitPosition"], 4) }
}
fn gen14(r: &mut Rng, _: usize) -> J {
    generate(r, REG, 3)
}
fn gen15(r: &mut Rng, _: usize) -> J {
    generate(r, SEL, 3)
}
fn gen16(r: &mut Rng, _: usize) -> J {
    generate(r, CMD, 5)
}
// ------------------------------------------------------------------ model
fn names(m: &M, p: u8) -> Vec<Option<String>> {
    let v: Vec<_> = m.users.values().filter(|u| u.player_lobby_details.tracker_setup_player_id == Some(p)).map(|u| Some(u.player_lobby_details.player_details.name.clone())).collect();
    if v.is_empty() { vec![None] } else { v }
}
fn check_name(what: &str, m: &M, p: u8, got: &Option<String>) -> Result<(), String> {
    let n = names(m, p);
    if n.contains(got) { Ok(()) } else { Err(format!("{what}: player name {got:?} for tracker player {p}, contract says one of {n:?}")) }
}
struct Env<'a> {
    bal: VersionedBalanceUnits,
    table: &'a J,
}
fn look(e: &Env, mut u: SC2Unit) -> SC2Unit {
    let (r, c) = get_unit_sized_color(&u.name, u.user_id.unwrap_or(0) as i64, &e.bal);
    u.radius = r;
    u.color = c;
    u
}
fn v3(x: f32, y: f32) -> Vec3D {
    Vec3D([x, y, 0.0])
}
fn fresh(e: &Env, tag: u32, l: i64, owner: Option<u8>, pn: Option<String>, name: &str, pos: Vec3D, init: bool) -> SC2Unit {
    look(e, SC2Unit { tag_index: tag, last_game_loop: l, user_id: owner, player_name: pn, name: name.into(), pos, init_game_loop: l, is_init: init, ..Default::default() })
}
fn tracker_model(m: &mut M, env: &Env, l: i64, ev: &ReplayTrackerEvent, hint: &UnitChangeHint, out: &ReplayTrackerEvent) -> Result<(), String> {
    let keep = || is("returned event", out, ev);
    match ev {
        ReplayTrackerEvent::UnitInit(e) => {
            keep()?;
            let UnitChangeHint::Registered { unit, creator } = hint else { return Err(format!("init reported {hint:?}")) };
            check_name("init", m, e.control_player_id, &unit.player_name)?;
            let pos = v3(e.x as f32, e.y as f32);
            let f = fresh(env, e.unit_tag_index, l, Some(e.control_player_id), unit.player_name.clone(), &e.unit_type_name, pos.clone(), true);
            is("reported unit", &**unit, &f)?;
            is("reported creator", creator, &None)?;
            m.units
                .entry(e.unit_tag_index)
                .and_modify(|u| {
                    u.last_game_loop = l;
                    u.pos = pos;
                    u.is_init = true;
                    u.name = e.unit_type_name.clone();
                })
                .or_insert(f);
        }
        ReplayTrackerEvent::UnitBorn(e) => {
            keep()?;
            let UnitChangeHint::Registered { unit, creator } = hint else { return Err(format!("birth reported {hint:?}")) };
            let mut cr = None;
            if let Some(c) = e.creator_unit_tag_index.and_then(|c| m.units.get_mut(&c)) {
                c.last_game_loop = l;
                cr = Some(c.clone());
            }
            is("reported creator", creator, &cr)?;
            let u = match m.units.get(&e.unit_tag_index) {
                Some(u) => SC2Unit { creator_ability_name: e.creator_ability_name.clone(), last_game_loop: l, ..u.clone() },
                None => {
                    check_name("birth", m, e.control_player_id, &unit.player_name)?;
                    fresh(env, e.unit_tag_index, l, Some(e.control_player_id), unit.player_name.clone(), &e.unit_type_name, v3(e.x as f32, e.y as f32), false)
                }
            };
            is("reported unit", &**unit, &u)?;
            m.units.insert(e.unit_tag_index, u);
        }
        ReplayTrackerEvent::UnitTypeChange(e) => {
            keep()?;
            let old = m.units.get(&e.unit_tag_index).cloned();
            let u = match &old {
                Some(o) => look(env, SC2Unit { name: e.unit_type_name.clone(), last_game_loop: l, ..o.clone() }),
                None => fresh(env, e.unit_tag_index, l, None, None, &e.unit_type_name, v3(0., 0.), false),
            };
            match (hint, old) {
                (UnitChangeHint::Registered { unit, creator }, Some(o)) => {
                    is("reported unit", &**unit, &u)?;
                    is("reported former unit", creator, &Some(o))?;
                }
                (UnitChangeHint::None, None) => {}
                (h, o) => return Err(format!("type change reported {h:?} (registered before: {})", o.is_some())),
            }
            m.units.insert(e.unit_tag_index, u);
        }
        ReplayTrackerEvent::UnitDone(e) => {
            keep()?;
            match (hint, m.units.get_mut(&e.unit_tag_index)) {
                (UnitChangeHint::Registered { unit, creator }, Some(u)) => {
                    *u = look(env, SC2Unit { is_init: false, last_game_loop: l, ..u.clone() });
                    is("reported unit", &**unit, u)?;
                    is("reported creator", creator, &None)?;
                }
                (UnitChangeHint::None, None) => {}
                (h, u) => return Err(format!("completion reported {h:?} (registered: {})", u.is_some())),
            }
        }
        ReplayTrackerEvent::UnitDied(e) => {
            keep()?;
            for u in m.users.values_mut() {
                for g in &mut u.control_groups {
                    g.retain(|t| idx(*t) != e.unit_tag_index);
                }
            }
            let dead = m.units.remove(&e.unit_tag_index);
            match (hint, dead) {
                (UnitChangeHint::Unregistered { killer, killed }, Some(d)) => {
                    is("killed unit", &**killed, &d)?;
                    is("killer", killer, &e.killer_unit_tag_index.and_then(|k| m.units.get(&k).cloned()))?;
                }
                (UnitChangeHint::None, None) => {}
                (h, d) => return Err(format!("death reported {h:?} (registered: {})", d.is_some())),
            }
        }
        ReplayTrackerEvent::UnitPosition(e) => {
            keep()?;
            let mut named = vec![];
            for (t, x, y) in expand(e.first_unit_index, &e.items) {
                if let Some(u) = m.units.get_mut(&t) {
                    u.pos = v3(x as f32 / 4., y as f32 / 4.);
                    u.last_game_loop = l;
                    named.push(t);
                }
            }
            let want: Vec<SC2Unit> = named.iter().map(|t| m.units[t].clone()).collect();
            let UnitChangeHint::Positions(v) = hint else { return Err(format!("position report gave {hint:?}")) };
            list("moved units", v, &want)?;
        }
        ReplayTrackerEvent::PlayerSetup(e) => {
            keep()?;
            is("hint", hint, &UnitChangeHint::None)?;
            if let Some(u) = e.user_id.and_then(|u| m.users.get_mut(&(u as i64))) {
                u.player_lobby_details.tracker_setup_player_id = Some(e.player_id);
                u.player_lobby_details.tracker_setup_slot_id = e.slot_id;
            }
        }
        ReplayTrackerEvent::Upgrade(e) => {
            is("hint", hint, &UnitChangeHint::None)?;
            let ReplayTrackerEvent::Upgrade(o) = out else { return Err(format!("upgrade became {out:?}")) };
            check_name("upgrade", m, e.player_id, &o.player_name)?;
            is("returned event", o, &UpgradeEvent { player_name: o.player_name.clone(), ..e.clone() })?;
        }
        _ => {
            keep()?;
            is("hint", hint, &UnitChangeHint::None)?;
        }
    }
    Ok(())
}
fn selection(m: &M, u: i64) -> Vec<u32> {
    m.users.get(&u).map(|u| u.control_groups[10].clone()).unwrap_or_default()
}
fn uniq(v: &[u32]) -> Vec<u32> {
    let mut s = BTreeSet::new();
    v.iter().map(|t| idx(*t)).filter(|i| s.insert(*i)).collect()
}
/// sets the mark of the named units; returns those whose mark changed
fn set_mark(m: &mut M, tags: &[u32], l: i64, on: bool) -> Vec<u32> {
    let mut out = vec![];
    for i in uniq(tags) {
        if let Some(u) = m.units.get_mut(&i) {
            u.last_game_loop = l;
            if u.is_selected != on {
                u.is_selected = on;
                u.radius *= if on { 2.0 } else { 0.5 };
                out.push(i);
            }
        }
    }
    out
}
fn those(m: &M, ids: &[u32]) -> Vec<SC2Unit> {
    ids.iter().filter_map(|i| m.units.get(i)).cloned().collect()
}
fn pt(c: &GameSMapCoord3D) -> Vec3D {
    Vec3D([c.x as f32 / 4096., -(c.y as f32) / 4096., c.z as f32 / 4096.])
}
fn tgt(t: &GameSCmdDataTargetUnit) -> SC2UnitCmdDataTargetUnit {
    SC2UnitCmdDataTargetUnit {
        target_unit_flags: t.m_target_unit_flags,
        timer: t.m_timer,
        tag: t.m_tag,
        snapshot_unit_link: t.m_snapshot_unit_link,
        snapshot_control_player_id: t.m_snapshot_control_player_id,
        snapshot_upkeep_player_id: t.m_snapshot_upkeep_player_id,
        snapshot_point: pt(&t.m_snapshot_point),
    }
}
fn found(m: &M, tag: u32) -> Option<SC2Unit> {
    m.units.get(&tag).or_else(|| m.units.get(&idx(tag))).cloned()
}
/// groups: what C15 says; the registry and the report: what C16 says
fn game_model(m: &mut M, env: &Env, l: i64, user: i64, ev: &ReplayGameEvent, hint: &UnitChangeHint, out: &ReplayGameEvent, groups: bool) -> Result<(), String> {
    let sel = selection(m, user);
    match ev {
        ReplayGameEvent::SelectionDelta(e) => {
            let (g, now) = (e.m_control_group_id as usize, &e.m_delta.m_add_unit_tags);
            if groups {
                if let (true, Some(u)) = (g <= 10, m.users.get_mut(&user)) {
                    u.control_groups[g] = now.clone();
                }
                return Ok(());
            }
            is("returned event", out, ev)?;
            let UnitChangeHint::Selection(v) = hint else { return Err(format!("selection reported {hint:?}")) };
            let mut changed = vec![];
            if g == 10 {
                let f = set_mark(m, &sel, l, false);
                changed = those(m, &f);
                let f = set_mark(m, now, l, true);
                changed.extend(those(m, &f));
            }
            let ids: BTreeSet<u32> = changed.iter().map(|u| u.tag_index).collect();
            let got: Vec<u32> = v.iter().map(|u| u.tag_index).collect();
            let want: Vec<u32> = ids.into_iter().collect();
            if got != want {
                return Err(format!("selection change reports units {got:?}, contract says {want:?}"));
            }
            for u in v {
                if !changed.iter().any(|c| dbg(c) == dbg(u)) {
                    return Err(format!("selection change reports {u:?}, not one of {changed:?}"));
                }
            }
        }
        ReplayGameEvent::ControlGroupUpdate(e) => {
            let g = e.m_control_group_index as usize;
            use GameEControlGroupUpdate::*;
            if groups {
                if let (true, Some(u)) = (g <= 10, m.users.get_mut(&user)) {
                    let c = &mut u.control_groups;
                    if matches!(e.m_control_group_update, ESetAndSteal | EAppendAndSteal) {
                        for x in &mut c[..10] {
                            x.retain(|t| !sel.contains(t));
                        }
                    }
                    match e.m_control_group_update {
                        ESet | ESetAndSteal => c[g] = sel,
                        EClear => c[g].clear(),
                        ERecall => c[10] = c[g].clone(),
                        EAppend | EAppendAndSteal => {
                            let s: BTreeSet<u32> = c[g].iter().chain(&sel).cloned().collect();
                            c[g] = s.into_iter().collect();
                        }
                    }
                }
                return Ok(());
            }
            is("returned event", out, ev)?;
            let UnitChangeHint::Selection(v) = hint else { return Err(format!("control group reported {hint:?}")) };
            let mut changed = vec![];
            if g <= 10 {
                let f = set_mark(m, &sel, l, false);
                changed = those(m, &f);
                if let (ERecall, Some(u)) = (&e.m_control_group_update, m.users.get(&user)) {
                    let now = u.control_groups[g].clone();
                    let f = set_mark(m, &now, l, true);
                    changed.extend(those(m, &f));
                }
            }
            list("control group units", v, &changed)?;
        }
        ReplayGameEvent::Cmd(e) if !groups => {
            let tu = match &e.m_data {
                GameSCmdData::TargetUnit(t) => found(m, t.m_tag),
                _ => None,
            };
            let mut last = e.clone();
            let mut want = vec![];
            if let Some(a) = &e.m_abil {
                for t in &sel {
                    if let Some(u) = m.units.get_mut(&idx(*t)) {
                        let name = lookup(env.table, &u.name, a.m_abil_link as u64, a.m_abil_cmd_index);
                        last.m_abil.as_mut().unwrap().ability = name.clone();
                        u.cmd = SC2UnitCmd {
                            cmd_flags: e.m_cmd_flags,
                            abil: Some(SC2UnitCmdAbil { abil_link: a.m_abil_link, ability: name, abil_cmd_index: a.m_abil_cmd_index, abil_cmd_data: a.m_abil_cmd_data }),
                            data: match &e.m_data {
                                GameSCmdData::None => SC2UnitCmdData::None,
                                GameSCmdData::TargetPoint(p) => SC2UnitCmdData::TargetPoint(pt(p)),
                                GameSCmdData::TargetUnit(t) => SC2UnitCmdData::TargetUnit(tgt(t)),
                                GameSCmdData::Data(d) => SC2UnitCmdData::Data(*d),
                            },
                            sequence: e.m_sequence,
                            other_unit: e.m_other_unit,
                            other_unit_name: tu.as_ref().map(|u| u.name.clone()),
                            unit_group: e.m_unit_group,
                        };
                        u.last_game_loop = l;
                        want.push(u.clone());
                    }
                }
            }
            let UnitChangeHint::Abilities { units, event, target } = hint else { return Err(format!("command reported {hint:?}")) };
            list("commanded units", units, &want)?;
            is("target", target, &tu)?;
            is("reported command", event, &last)?;
            is("returned event", out, &ReplayGameEvent::Cmd(last))?;
        }
        ReplayGameEvent::CmdUpdateTargetPoint(e) if !groups => {
            is("returned event", out, ev)?;
            let mut want = vec![];
            for t in &sel {
                if let Some(u) = m.units.get_mut(&idx(*t)) {
                    u.cmd.data = SC2UnitCmdData::TargetPoint(pt(&e.m_target));
                    u.cmd.other_unit = None;
                    u.last_game_loop = l;
                    want.push(u.clone());
                }
            }
            let UnitChangeHint::TargetPoints(v) = hint else { return Err(format!("target point reported {hint:?}")) };
            list("targeting units", v, &want)?;
        }
        ReplayGameEvent::CmdUpdateTargetUnit(e) if !groups => {
            is("returned event", out, ev)?;
            match found(m, e.m_target.m_tag) {
                None => is("hint", hint, &UnitChangeHint::None)?,
                Some(x) => {
                    let mut want = vec![];
                    for t in &sel {
                        if let Some(u) = m.units.get_mut(&idx(*t)) {
                            u.cmd.data = SC2UnitCmdData::TargetUnit(tgt(&e.m_target));
                            u.last_game_loop = l;
                            want.push(u.clone());
                        }
                    }
                    let UnitChangeHint::TargetUnits { units, target } = hint else { return Err(format!("target unit reported {hint:?}")) };
                    list("targeting units", units, &want)?;
                    is("target", &**target, &x)?;
                }
            }
        }
        _ if !groups => {
            is("returned event", out, ev)?;
            is("hint", hint, &UnitChangeHint::None)?;
        }
        _ => {}
    }
    Ok(())
}
// ------------------------------------------------------------------ runner
fn run(c: &J, pid: &str) -> Verdict {
    if c["kind"] == "expand" {
        return crate::small::c13_expand_run(c);
    }
    let env = Env { bal: balance(&c["balance"]), table: &c["balance"] };
    let mut s = SC2ReplayState { balance_units: env.bal.clone(), ..Default::default() };
    for u in 0..c["users"].as_u64().unwrap() as i64 {
        let mut p = PlayerLobbyDetails::default();
        p.player_details.name = match c["names"][u as usize].as_str() {
            Some(n) => n.into(),
            None => format!("player {u}"),
        };
        let us = SC2UserState::new(p);
        if pid == "C15" && (us.control_groups.len() != 11 || us.control_groups.iter().any(|g| !g.is_empty())) {
            return Err(format!("a new user has groups {:?}", us.control_groups));
        }
        s.user_state.insert(u, us);
    }
    for k in 0..c["swarm"].as_u64().unwrap_or(0) as u32 {
        s.units.insert(k, SC2Unit { tag_index: k, name: format!("Larva{k}"), ..Default::default() });
    }
    let mut nt = false;
    for (n, op) in c["ops"].as_array().unwrap().iter().enumerate() {
        let l = op["loop"].as_i64().unwrap();
        let mut m = take(&s);
        if m.users.values().any(|u| u.control_groups.len() != 11) {
            return Ok(false);
        }
        let at = |e: String| format!("event {n} ({op}): {e}");
        if op["t"].is_object() {
            let ev: ReplayTrackerEvent = serde_json::from_value(op["t"].clone()).unwrap();
            let pos = matches!(ev, ReplayTrackerEvent::UnitPosition(_));
            let mine = pid == if pos { "C13" } else { "C14" };
            let r = catch_unwind(AssertUnwindSafe(|| handle_tracker_event(&mut s, l, ev.clone())));
            let (out, hint) = match r {
                Ok(x) => x,
                Err(_) if mine => return Err(at("panicked".into())),
                Err(_) => return Ok(nt),
            };
            if mine {
                tracker_model(&mut m, &env, l, &ev, &hint, &out).map_err(at)?;
                let got = take(&s);
                same("unit", &got.units, &m.units).map_err(at)?;
                same("user", &got.users, &m.users).map_err(at)?;
                nt |= !m.units.is_empty();
            }
        } else {
            let ev: ReplayGameEvent = serde_json::from_value(op["g"].clone()).unwrap();
            let user = op["user"].as_i64().unwrap();
            let mine = pid == "C15" || pid == "C16";
            let r = catch_unwind(AssertUnwindSafe(|| handle_game_event(&mut s, l, user, ev.clone())));
            let (out, hint) = match r {
                Ok(x) => x,
                Err(_) if mine => return Err(at("panicked".into())),
                Err(_) => return Ok(nt),
            };
            if mine {
                game_model(&mut m, &env, l, user, &ev, &hint, &out, pid == "C15").map_err(at)?;
                let got = take(&s);
                if pid == "C15" {
                    let g = |m: &M| -> BTreeMap<(i64, usize), Vec<u32>> { m.users.iter().flat_map(|(k, u)| u.control_groups.iter().enumerate().map(move |(i, g)| ((*k, i), g.clone()))).collect() };
                    same("group", &g(&got), &g(&m)).map_err(at)?;
                } else {
                    same("unit", &got.units, &m.units).map_err(at)?;
                }
                nt |= !selection(&got, user).is_empty();
            }
        }
    }
    Ok(nt)
}
pub fn props() -> Vec<Prop> {
    let p = |id, rule, n, generate, run| Prop { id, rule, n, generate, run };
    vec![
        p("C13", "a position report: the expansion, or its effect on a non-empty registry", (24000, 2_000_000), gen13, |c| run(c, "C13")),
        p("C14", "an event sequence with at least one registered unit", (12000, 600_000), gen14, |c| run(c, "C14")),
        p("C15", "an event sequence with a non-empty selection after a game event", (12000, 600_000), gen15, |c| run(c, "C15")),
        p("C16", "an event sequence with a non-empty selection after a game event", (12000, 600_000), gen16, |c| run(c, "C16")),
    ]
}
