//! C30: the statistics of a directory of replays.
use crate::files::Tree;
use crate::grammar::*;
use crate::mpq;
use crate::neutral::*;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use s2protocol::InitData;
use s2protocol::details::Details;
use s2protocol::dir_stats::{SC2ReplaysDirStats, scan_path};
use s2protocol::game_events::VersionedBalanceUnit;
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::os::unix::ffi::OsStringExt;

/// an encoded details sector with these players and this title
fn details(r: &mut Rng, names: usize, titles: usize) -> String {
    let t = ty_id(87702, true, "GameSDetails");
    let mut v = gen_ty(t, r, &mut 8);
    fix_text(&mut v, r);
    let pt = ty_id(87702, true, "GameSPlayerDetails");
    let n = if r.chance(1, 30) { r.below(40) } else { r.below(9) };
    let players = (0..n)
        .map(|_| {
            let mut p = gen_ty(pt, r, &mut 2);
            fix_text(&mut p, r);
            let (a, b) = (r.below(names), r.below(names));
            *p.f_mut("m_name") = V::Bytes(format!("p{}", if titles == 60 && r.chance(1, 2) { 100 + r.below(100) } else { a.min(b) }).into_bytes());
            let seen = if r.chance(4, 5) { 0 } else { 1 + r.below(2) };
            let V::Choice(_, k, _) = p.f_mut("m_observe") else { panic!() };
            *k = seen;
            p
        })
        .collect();
    *v.f_mut("m_player_list") = if n == 0 && r.chance(1, 2) { V::None } else { V::Some(Box::new(V::Arr(players))) };
    let (a, b) = (r.below(titles), r.below(titles));
    *v.f_mut("m_title") = V::Bytes(if r.chance(1, 15) { crate::sm::name(r, &["", "m", "M0", "m0 "]) } else { format!("m{}", if titles < 60 { a.min(b) } else if r.chance(2, 3) { a } else { r.below(5) }) }.into_bytes());
    let mut e = enc(r);
    e.ba_type(t, &v);
    hex(&e.o)
}
fn generate(r: &mut Rng, _: usize) -> J {
    let own = if r.chance(1, 3) { *r.pick(&[75690, 80188, 87702]) } else { build(r) };
    let n = if r.chance(1, 3) { r.below(40) } else { r.below(7) };
    let (names, titles) = (1 + r.below(40), if n > 12 && r.chance(1, 2) { 60 } else { 1 + r.below(if n > 12 { 25 } else { 6 }) });
    let mut made: Vec<J> = vec![];
    let mut ops = vec![];
    for k in 0..n {
        let b = if r.chance(1, 2) { own } else { build(r) };
        let dir = match r.below(12) {
            0 => "a/b/c/d/e/f/g/h".to_string(),
            1 => "a/b/c/d/e/f/g/h/i".to_string(),
            2 => "a/b/c/d/e/f/g/h/i/j".to_string(),
            3..=5 => "a".into(),
            _ => String::new(),
        };
        let mut o = if !made.is_empty() && r.chance(1, 3) {
            r.pick(&made).clone()
        } else {
            json!({"header": hex(&mpq::header(b, r)), "init": hex(&crate::route::lobby(r, false)), "details": details(r, names, titles)})
        };
        made.push(o.clone());
        o["dir"] = json!(dir);
        o["name"] = json!(if r.chance(1, 12) { format!("{k}.txt") } else { format!("{k}.SC2Replay") });
        if r.chance(1, 10) {
            o["without"] = json!(*r.pick(&["replay.initData", "replay.details"]));
        }
        if r.chance(1, 15) {
            o["cut"] = json!(r.below(60));
        }
        if r.chance(1, 25) {
            mpq::foreign(&mut o, b, r);
        }
        if r.chance(1, 25) {
            o["raw"] = json!(r.byte() | 0x80);
        }
        ops.push(o);
    }
    let units: Vec<J> = (0..r.below(6)).map(|_| json!([*r.pick(&[own, own, 0, 87702, own.wrapping_add(1)]), crate::sm::name(r, &["Marine", "Drone", "SCV"])])).collect();
    let mut c = json!({"ops": ops, "units": units});
    if r.chance(1, 30) {
        c["missing"] = json!(true);
    }
    if r.chance(1, 400) {
        c["included"] = json!(true);
    }
    c
}
fn top(what: &str, all: &[String], got: &[(String, usize)]) -> Result<(), String> {
    let mut n: HashMap<&str, usize> = HashMap::new();
    for x in all {
        *n.entry(x).or_default() += 1;
    }
    let mut most: Vec<usize> = n.values().copied().collect();
    most.sort();
    most.reverse();
    most.truncate(10);
    if got.iter().map(|g| g.1).collect::<Vec<_>>() != most {
        return Err(format!("{what}: {got:?}, the contract's counts are {most:?}"));
    }
    for (k, g) in got.iter().enumerate() {
        if n.get(&g.0[..]) != Some(&g.1) {
            return Err(format!("{what}: {} is given {}, contract says {:?}", g.0, g.1, n.get(&g.0[..])));
        }
        if got[..k].iter().any(|h| h.0 == g.0) {
            return Err(format!("{what}: {} is listed twice", g.0));
        }
    }
    Ok(())
}
fn run(c: &J) -> Verdict {
    let t = Tree::new();
    let src = t.0.join("in");
    std::fs::create_dir(&src).unwrap();
    for o in c["ops"].as_array().unwrap() {
        let of = |k: &str| unhex(o[k].as_str().unwrap());
        let (init, det) = (of("init"), of("details"));
        let mut fs = vec![("replay.initData", &init[..]), ("replay.details", &det[..])];
        fs.retain(|f| o["without"] != f.0);
        let mut data = mpq::made(o, &fs);
        if let Some(n) = o["cut"].as_u64() {
            data.truncate(n as usize);
        }
        // the archive library itself fails on some truncated tables
        if std::panic::catch_unwind(|| s2protocol::parser::parse(&data).is_ok()).is_err() {
            continue;
        }
        let d = src.join(o["dir"].as_str().unwrap());
        std::fs::create_dir_all(&d).unwrap();
        let mut name = o["name"].as_str().unwrap().as_bytes().to_vec();
        if let Some(b) = o["raw"].as_u64() {
            // not a text in any case: a lone byte of a longer character
            name.insert(0, b as u8);
        }
        std::fs::write(d.join(std::ffi::OsString::from_vec(name)), &data).unwrap();
    }
    let mut units: HashMap<(u32, String), VersionedBalanceUnit> = HashMap::new();
    for u in c["units"].as_array().unwrap() {
        let (v, n) = (u[0].as_u64().unwrap() as u32, u[1].as_str().unwrap());
        let mut x = crate::small::balance(&json!({n: {"abilities": [], "builds": [], "trains": []}})).remove(n).unwrap();
        x.version = v;
        units.insert((v, n.to_string()), x);
    }
    let at = if c["missing"] == true { t.0.join("nowhere") } else { src };
    let path = at.to_str().unwrap();
    let included = c["included"] == true;
    if included {
        units = s2protocol::game_events::ability::balance_data::json_handler::read_balance_data_from_included_assets().map_err(|e| format!("harness: {e}"))?;
    }
    let found = s2protocol::get_matching_files(at.clone(), 1_000_000, 10);
    let mut inits = vec![];
    for (k, p) in found.iter().flatten().enumerate() {
        if p.to_str().is_some()
            && let Ok(i) = InitData::try_from((p.clone(), k as u64))
        {
            inits.push(i);
        }
    }
    let covered = inits.iter().filter(|i| units.keys().any(|k| k.0 == i.version)).count();
    let (mut players, mut titles) = (vec![], vec![]);
    for d in inits.iter().filter_map(|i| Details::try_from(i).ok()) {
        players.extend(d.player_list.iter().filter(|p| p.observe == 0).map(|p| p.name.clone()));
        titles.push(d.title);
    }
    for serial in [true, false] {
        let how = if serial { "serially" } else { "in parallel" };
        let got = if included { SC2ReplaysDirStats::from_directory(path, serial) } else { scan_path(path, &units, serial) };
        let got = match (got, &found) {
            (Err(_), Err(_)) => continue,
            (Ok(_), Err(e)) => return Err(format!("a directory that cannot be listed ({e}) gave statistics, {how}")),
            (Err(e), Ok(_)) => return Err(format!("reading {how} failed: {e}")),
            (Ok(g), Ok(f)) => {
                let (a, b) = ((g.total_files, g.total_supported_replays, g.ability_supported_replays), (f.len(), inits.len(), covered));
                if a != b {
                    return Err(format!("files, readable and covered replays are {a:?} {how}, contract says {b:?}"));
                }
                g
            }
        };
        top(&format!("players, {how}"), &players, &got.top_10_players)?;
        top(&format!("maps, {how}"), &titles, &got.top_10_maps)?;
    }
    Ok(!players.is_empty())
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "trees of replay archives in a scratch directory, some cut short, missing a sector or under a name that is not text, up to eleven levels deep; the statistics read serially and in parallel against counts of the same replays; non-trivial when players were counted",
        n: (2_000, 60_000),
        generate,
        run,
    }]
}
