//! C21: players of the details joined with lobby slots and user data.
use crate::grammar::*;
use crate::mpq;
use crate::neutral::*;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::details::{Details, PlayerLobbyDetails};
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::state::SC2ReplayState;
use s2protocol::{InitData, LobbySlot, UserInitialData};
use serde_json::{Value as J, json};

/// names of which several differ only a little
const NAMES: [&str; 12] = ["Ana", "Bo", "Cy", "Di", "ana", "ANA", "An", "Anabel", "Ana ", "[x]Ana", "[x]<sp/>Bo", "Bo\u{301}"];
fn slot(r: &mut Rng) -> Option<u8> {
    if r.chance(1, 9) { None } else { Some(if r.chance(1, 10) { r.byte() } else { r.below(4) as u8 }) }
}
/// an encoded details sector
pub fn details(r: &mut Rng) -> String {
    let t = ty_id(87702, true, "GameSDetails");
    let mut v = gen_ty(t, r, &mut 14);
    fix_text(&mut v, r);
    let (pt, n) = (ty_id(87702, true, "GameSPlayerDetails"), 1 + r.below(5));
    let players = (0..n)
        .map(|_| {
            let mut p = gen_ty(pt, r, &mut 3);
            fix_text(&mut p, r);
            *p.f_mut("m_name") = V::Bytes(crate::sm::name(r, &NAMES).into_bytes());
            *p.f_mut("m_working_set_slot_id") = match slot(r) {
                Some(x) => V::Some(Box::new(V::Int(x as i128))),
                None => V::None,
            };
            p
        })
        .collect();
    *v.f_mut("m_player_list") = if n == 0 && r.chance(1, 2) { V::None } else { V::Some(Box::new(V::Arr(players))) };
    let mut e = enc(r);
    e.ba_type(t, &v);
    hex(&e.o)
}
fn generate(r: &mut Rng, _: usize) -> J {
    let det = details(r);
    let mut ops = vec![];
    for _ in 0..1 + r.below(7) {
        let u = match r.below(8) {
            0 | 1 => json!(null),
            2 => json!(*r.pick(&[-1i64, 5, 16, 1 << 32, i64::MAX, i64::MIN])),
            _ => json!(if r.chance(1, 12) { r.below(20) } else { r.below(5) }),
        };
        ops.push(json!(["s", slot(r), u]));
    }
    for i in 0..(if r.chance(1, 12) { 14 + r.below(8) } else { r.below(6) }) {
        let clan = match r.below(4) {
            0 | 1 => json!(null),
            2 => json!(format!("clan{i}")),
            _ => json!(crate::sm::name(r, &["clan", "", " x ", "[T]", "ab\u{301}"])),
        };
        let name = if r.chance(1, 3) { crate::sm::name(r, &NAMES) } else { format!("user{i}") };
        ops.push(json!(["u", name, clan]));
    }
    json!({"header": hex(&mpq::header(build(r), r)), "details": det, "name": crate::sm::name(r, &NAMES), "id": r.below(1000), "ops": ops})
}
pub fn user(n: &str, clan: Option<&str>) -> UserInitialData {
    UserInitialData {
        name: n.into(),
        clan_tag: clan.map(|x| x.into()),
        clan_logo: None,
        highest_league: None,
        combined_race_levels: None,
        random_seed: 0,
        race_preference: None,
        team_preference: None,
        test_map: false,
        test_auto: false,
        examine: false,
        custom_interface: false,
        test_type: 0,
        observe: 0,
        hero: String::new(),
        skin: String::new(),
        mount: String::new(),
        toon_handle: String::new(),
        scaled_rating: None,
    }
}
/// what the contract says the join is
fn join(d: &Details, i: &InitData) -> Vec<PlayerLobbyDetails> {
    let mut o = vec![];
    for p in &d.player_list {
        let Some(id) = p.working_set_slot_id else { continue };
        let lobby = &i.sync_lobby_state;
        let Some(s) = lobby.lobby_state.slots.iter().find(|s| s.working_set_slot_id == Some(id)) else { continue };
        let u = s.user_id.filter(|u| *u >= 0 && (*u as u64) < lobby.user_initial_data.len() as u64).map(|u| &lobby.user_initial_data[u as usize]);
        o.push(PlayerLobbyDetails {
            player_details: p.clone(),
            lobby_slot: s.clone(),
            title: d.title.clone(),
            game_description: lobby.game_description.clone(),
            time_utc: d.time_utc,
            time_local_offset: d.time_local_offset,
            user_init_data_name: u.map(|u| u.name.clone()).unwrap_or_default(),
            user_init_data_clan_tag: u.and_then(|u| u.clan_tag.clone()).unwrap_or_default(),
            tracker_setup_player_id: None,
            tracker_setup_slot_id: None,
            cache_handles: d.cache_handles.clone(),
            ext_fs_sha256: i.ext_fs_sha256.clone(),
            ext_fs_file_name: i.ext_fs_file_name.clone(),
            ext_fs_id: i.ext_fs_id,
            ext_datetime: d.ext_datetime,
        });
    }
    o
}
fn run(c: &J) -> Verdict {
    let (hd, det) = (unhex(c["header"].as_str().unwrap()), unhex(c["details"].as_str().unwrap()));
    let file = mpq::archive(&hd, &[("replay.details", &det)]);
    let Ok((_, a)) = s2protocol::parser::parse(&file) else { return Err("harness: the archive does not parse".into()) };
    let f = mpq::Scratch::new(&file);
    let mut i = InitData { ext_fs_id: c["id"].as_u64().unwrap(), ext_fs_sha256: "sum".into(), ext_fs_file_name: f.0.to_str().unwrap().into(), version: 87702, ..Default::default() };
    i.sync_lobby_state.game_description.random_value = 77;
    for (k, o) in c["ops"].as_array().unwrap().iter().enumerate() {
        if o[0] == "s" {
            i.sync_lobby_state.lobby_state.slots.push(LobbySlot { working_set_slot_id: o[1].as_u64().map(|x| x as u8), user_id: o[2].as_i64(), control: k as i64, ..Default::default() });
        } else {
            i.sync_lobby_state.user_initial_data.push(user(o[1].as_str().unwrap(), o[2].as_str()));
        }
    }
    let read = s2protocol::read_details("case", &a, &file);
    let joined = Vec::<PlayerLobbyDetails>::try_from(&i);
    let state = SC2ReplayState::try_from(&i);
    let from_init = Details::try_from(&i);
    let Ok(mut d) = read else {
        return if joined.is_err() && state.is_err() && from_init.is_err() { Ok(false) } else { Err("details that cannot be read were joined".into()) };
    };
    d.ext_fs_id = i.ext_fs_id;
    d.ext_datetime = s2protocol::transform_to_naivetime(d.time_utc, d.time_local_offset).filter(|t| t.and_utc().timestamp_nanos_opt().is_some()).unwrap_or_default();
    match &from_init {
        Ok(x) if *x == d => {}
        x => return Err(format!("Details::try_from gave {x:?}, contract says {d:?}")),
    }
    let want = join(&d, &i);
    match &joined {
        Ok(x) if *x == want => {}
        x => {
            if let Ok(x) = x
                && x.len() == want.len()
                && let Some((g, w)) = x.iter().zip(&want).find(|(g, w)| g != w)
            {
                return Err(format!("joined player {g:?}, contract says {w:?}"));
            }
            return Err(format!("joined {x:?}, contract says {want:?}"));
        }
    }
    let state = state.map_err(|e| format!("SC2ReplayState::try_from failed: {e:?}"))?;
    if state.init_data != i || state.details != d || !state.units.is_empty() {
        return Err("the initial replay state does not carry the replay's own data".into());
    }
    for s in &want {
        if let Some(u) = s.lobby_slot.user_id {
            let owner = want.iter().rfind(|x| x.lobby_slot.user_id == Some(u)).unwrap();
            match state.user_state.get(&u) {
                Some(x) if x.player_lobby_details == *owner && x.control_groups.len() == 11 && x.control_groups.iter().all(|g| g.is_empty()) => {}
                x => return Err(format!("user {u} starts as {x:?}, contract says {owner:?} with eleven empty groups")),
            }
        }
    }
    if let Some(u) = state.user_state.keys().find(|u| !want.iter().any(|x| x.lobby_slot.user_id == Some(**u))) {
        return Err(format!("user {u} has a state but no joined player"));
    }
    let playing: Vec<String> = d.player_list.iter().filter(|p| p.observe == 0).map(|p| p.name.clone()).collect();
    if d.get_player_names() != playing {
        return Err(format!("get_player_names gave {:?}, contract says {playing:?}", d.get_player_names()));
    }
    let name = c["name"].as_str().unwrap();
    let mut fl = SC2ReplayFilters { player_id: Some(99), ..Default::default() };
    fl.set_player_id_from_user_name(name, &d);
    let slots: Vec<Option<u8>> = d.player_list.iter().filter(|p| p.name == name).map(|p| p.working_set_slot_id).collect();
    let ok = if slots.is_empty() { fl.player_id == Some(99) } else { slots.contains(&fl.player_id) };
    if !ok {
        return Err(format!("selecting {name} gave {:?}, that name's players have slots {slots:?}", fl.player_id));
    }
    Ok(want.len() > 1)
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "details sectors of up to five players written into archives on disk, joined with up to seven lobby slots and five users in any order, with missing, repeated, negative and too large numbers; the join, the initial per-user states, the details' own copy, player names and the choice by name compared with the spec",
        n: (10_000, 100_000),
        generate,
        run,
    }]
}
