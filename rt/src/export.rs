//! C24: the seven Arrow files written for a tree of replays.
use crate::files::Tree;
use crate::grammar::*;
use crate::mpq;
use crate::neutral::*;
use crate::rng::Rng;
use crate::{Prop, Verdict};
use arrow::array::{Array, ArrayRef, RecordBatch, StructArray};
use arrow::datatypes::{DataType, Schema};
use arrow_convert::{field::ArrowField, serialize::TryIntoArrow};
use s2protocol::InitData;
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::details::{PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use s2protocol::game_events::{CmdTargetPointEventFlatRow, CmdTargetUnitEventFlatRow, VersionedBalanceUnit};
use s2protocol::state::SC2EventIterator;
use s2protocol::tracker_events::{PlayerStatsFlatRow, UnitBornEventFlatRow, UnitDiedEventFlatRow, UpgradeEventFlatRow};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::path::Path;

const OUT: [&str; 7] = ["details", "stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"];

/// lobby data whose slots name users
fn lobby(r: &mut Rng, slots: bool) -> Vec<u8> {
    let t = ty_id(87702, false, "ReplaySInitData");
    let mut v = gen_ty(t, r, &mut 10);
    fix_text(&mut v, r);
    let (st, ut, bt) = (ty_id(87702, false, "GameSLobbySlot"), ty_id(87702, false, "TUserId"), ty_id(87702, false, "Uint8"));
    let n = if slots { r.below(6) } else { 0 };
    let number = |t: usize, n: usize, r: &mut Rng| {
        let mut x = gen_ty(t, r, &mut 2);
        put(&mut x, n as i128);
        V::Some(Box::new(x))
    };
    let all = (0..n)
        .map(|k| {
            let mut s = gen_ty(st, r, &mut 3);
            fix_text(&mut s, r);
            let (a, b) = (if r.chance(1, 5) { r.below(4) } else { k }, r.below(5));
            if r.chance(7, 8) {
                *s.f_mut("m_working_set_slot_id") = number(bt, a, r);
            }
            if r.chance(7, 8) {
                *s.f_mut("m_user_id") = number(ut, b, r);
            }
            s
        })
        .collect();
    let V::Wrap(_, s) = v.f_mut("m_sync_lobby_state").f_mut("m_lobby_state").f_mut("m_slots") else { panic!() };
    **s = V::Arr(all);
    let mut o = BitOut::default();
    o.ty(t, &v, r);
    o.align(0);
    o.o
}
fn generate(r: &mut Rng, _: usize) -> J {
    let mut ops = vec![];
    let own = if r.chance(1, 3) { *r.pick(&[75690, 80188, 87702]) } else { build(r) };
    for k in 0..(if r.chance(1, 20) { r.below(24) } else { 1 + r.below(5) }) {
        let b = if r.chance(1, 2) { own } else { build(r) };
        let mut rec = vec![];
        if r.chance(2, 3) {
            rec.extend(scene(r, b).into_iter().map(|(k, x)| json!([k, x])));
        }
        let times = |r: &mut Rng| Some(r.below(4) as i128);
        for _ in 0..r.below(3) {
            let k = if r.chance(3, 4) { Some(*r.pick(&["EUnitBorn", "EUnitInit", "EUnitDone", "EUnitTypeChange", "EUnitDied", "EPlayerStats", "EUpgrade"])) } else { None };
            let d = times(r);
            rec.push(json!(["t", tracker_record(r, b, d, k)]));
        }
        for _ in 0..r.below(3) {
            let k = if r.chance(3, 4) { Some(*r.pick(&["ESelectionDelta", "ECmd"])) } else { None };
            let d = times(r);
            rec.push(json!(["g", game_record(r, b, d, k)]));
        }
        let dir = *r.pick(&["", "", "a", "a", "b", "a/c"]);
        let mut o = json!({"dir": dir, "name": format!("{k}.SC2Replay"), "header": hex(&mpq::header(b, r)), "init": hex(&lobby(r, b > 75689)), "details": crate::lobby::details(r), "events": rec});
        if r.chance(1, 8) {
            o["without"] = json!(*r.pick(&["replay.initData", "replay.details", "replay.tracker.events", "replay.game.events"]));
        }
        if r.chance(1, 12) {
            o["cut"] = json!(if r.chance(1, 2) { r.below(60) } else { r.below(3000) });
        }
        if r.chance(1, 25) {
            mpq::foreign(&mut o, b, r);
        }
        if r.chance(1, 12) {
            o["name"] = json!(format!("{k}.txt"));
        }
        ops.push(o);
    }
    let bound = |r: &mut Rng| if r.chance(1, 5) { json!(own as u64 + *r.pick(&[0, 0, 1, 5])) } else { J::Null };
    let limit = |r: &mut Rng, n: usize| if r.chance(2, 3) { 1_000_000 } else { r.below(n) };
    let units: Vec<J> = (0..r.below(5)).map(|_| json!([*r.pick(&[own, 0, 87702]), crate::sm::name(r, &["Marine", "Drone", "SCV"])])).collect();
    let bounds = if own > 75689 && r.chance(1, 3) { (json!(75690), J::Null) } else { (bound(r), bound(r)) };
    let limits = (limit(r, 8), limit(r, 6), if r.chance(1, 6) { r.below(4) } else { 10 });
    let mut c = json!({"ops": ops, "min": bounds.0, "max": bounds.1, "scan": limits.0, "process": limits.1, "depth": limits.2, "units": units});
    if r.chance(1, 6) {
        c["stale"] = json!(r.below(200_000));
    }
    if r.chance(1, 40) {
        // many replays that are ready to be written at the same moment
        c["copies"] = json!(30 + r.below(60));
    }
    if r.chance(1, 12) {
        c["blocked"] = json!(*r.pick(&OUT));
    }
    c
}
fn columns<T: ArrowField>() -> Schema {
    let DataType::Struct(f) = T::data_type() else { panic!("no columns") };
    Schema::new(f)
}
fn whole(a: ArrayRef) -> RecordBatch {
    RecordBatch::from(a.as_any().downcast_ref::<StructArray>().unwrap())
}
type Units = HashMap<(u32, String), VersionedBalanceUnit>;
/// the batch of one kind one replay gives, by the readers of one replay
fn batch(k: usize, i: &InitData, u: &Units) -> Option<RecordBatch> {
    let it = SC2EventIterator::new(i, u.clone()).ok()?;
    macro_rules! rows {
        ($e:expr) => {{
            let v = $e;
            if v.is_empty() { None } else { v.try_into_arrow().ok().map(whole) }
        }};
    }
    match k {
        1 => rows!(it.collect_into_player_stats_flat_rows()),
        2 => rows!(it.collect_into_upgrades_flat_rows()),
        3 => rows!(it.collect_into_unit_born_flat_rows()),
        4 => rows!(it.collect_into_unit_died_flat_rows()),
        5 => rows!(it.collect_into_game_cmd_target_points_flat_rows()),
        _ => rows!(it.collect_into_game_cmd_target_units_flat_rows()),
    }
}
fn schema(k: usize) -> Schema {
    match k {
        0 => columns::<PlayerLobbyDetailsFlatRow>(),
        1 => columns::<PlayerStatsFlatRow>(),
        2 => columns::<UpgradeEventFlatRow>(),
        3 => columns::<UnitBornEventFlatRow>(),
        4 => columns::<UnitDiedEventFlatRow>(),
        5 => columns::<CmdTargetPointEventFlatRow>(),
        _ => columns::<CmdTargetUnitEventFlatRow>(),
    }
}
fn read(p: &Path) -> Result<(Schema, Vec<RecordBatch>), String> {
    let f = std::fs::File::open(p).map_err(|e| format!("{}: {e}", p.display()))?;
    let r = arrow::ipc::reader::FileReader::try_new(f, None).map_err(|e| format!("not an Arrow file: {e}"))?;
    let s = r.schema().as_ref().clone();
    let b = r.collect::<Result<Vec<_>, _>>().map_err(|e| format!("unreadable batch: {e}"))?;
    Ok((s, b))
}
fn run(c: &J) -> Verdict {
    let t = Tree::new();
    let src = t.0.join("in");
    std::fs::create_dir(&src).unwrap();
    for o in c["ops"].as_array().unwrap() {
        let of = |k: &str| unhex(o[k].as_str().unwrap());
        let (init, det) = (of("init"), of("details"));
        let kind = |k: &str| o["events"].as_array().unwrap().iter().filter(|e| e[0] == k).flat_map(|e| unhex(e[1].as_str().unwrap())).collect::<Vec<u8>>();
        let (td, gd) = (kind("t"), kind("g"));
        let mut fs = vec![("replay.initData", &init[..]), ("replay.details", &det[..]), ("replay.tracker.events", &td[..]), ("replay.game.events", &gd[..])];
        fs.retain(|f| o["without"] != f.0);
        let mut data = mpq::made(o, &fs);
        if let Some(n) = o["cut"].as_u64() {
            data.truncate(n as usize);
        }
        // the archive library itself fails on some truncated tables
        if std::panic::catch_unwind(|| s2protocol::parser::parse(&data).is_ok()).is_err() {
            continue;
        }
        let d = src.join(o["dir"].as_str().unwrap());
        std::fs::create_dir_all(&d).unwrap();
        for k in 0..c["copies"].as_u64().unwrap_or(1) {
            let n = o["name"].as_str().unwrap();
            std::fs::write(d.join(if k == 0 { n.to_string() } else { format!("{k}-{n}") }), &data).unwrap();
        }
    }
    let mut units: Units = HashMap::new();
    for u in c["units"].as_array().unwrap() {
        let (v, n) = (u[0].as_u64().unwrap() as u32, u[1].as_str().unwrap());
        let mut x = crate::small::balance(&json!({n: {"abilities": [], "builds": [], "trains": []}})).remove(n).unwrap();
        x.version = v;
        units.insert((v, n.to_string()), x);
    }
    let num = |k: &str| c[k].as_u64().unwrap() as usize;
    let version = |k: &str| c[k].as_u64().map(|x| x.min(u32::MAX as u64) as u32);
    let cmd = WriteArrowIpcProps { scan_max_files: num("scan"), process_max_files: num("process"), traverse_max_depth: num("depth"), min_version: version("min"), max_version: version("max") };
    // the replays chosen
    let found = s2protocol::get_matching_files(src.clone(), cmd.scan_max_files, cmd.traverse_max_depth).map_err(|e| format!("listing failed: {e}"))?;
    let mut chosen: Vec<InitData> = vec![];
    for (k, p) in found.iter().enumerate() {
        let i = InitData::try_from((p.clone(), k as u64));
        if let Ok(i) = &i
            && (i.ext_fs_id != k as u64 || Some(&i.ext_fs_file_name[..]) != p.to_str())
        {
            return Err(format!("the lobby data of file {k}, {}, is numbered {} and named {}", p.display(), i.ext_fs_id, i.ext_fs_file_name));
        }
        if let Ok(i) = i
            && cmd.min_version.is_none_or(|v| i.version >= v)
            && cmd.max_version.is_none_or(|v| i.version <= v)
            && chosen.len() < cmd.process_max_files
        {
            chosen.push(i);
        }
    }
    if chosen.is_empty() {
        return Ok(false);
    }
    let mut want: Vec<Vec<RecordBatch>> = vec![vec![]];
    let players: Vec<PlayerLobbyDetailsFlatRow> = chosen.iter().flat_map(|i| Vec::<PlayerLobbyDetails>::try_from(i).unwrap_or_default()).map(|p| p.into()).collect();
    want[0].push(whole(players.try_into_arrow().map_err(|e| format!("harness: {e}"))?));
    for k in 1..7 {
        want.push(chosen.iter().filter_map(|i| batch(k, i, &units)).collect());
    }
    for serial in [true, false] {
        let out = t.0.join(if serial { "serial" } else { "parallel" });
        std::fs::create_dir(&out).unwrap();
        if let Some(n) = c["stale"].as_u64() {
            // what an earlier export left there
            for k in OUT {
                std::fs::write(out.join(format!("{k}.arrow")), vec![0x5A; n as usize]).unwrap();
            }
        }
        let blocked = c["blocked"].as_str();
        if let Some(b) = blocked {
            let _ = std::fs::remove_file(out.join(format!("{b}.arrow")));
            std::fs::create_dir(out.join(format!("{b}.arrow"))).unwrap();
        }
        let got = ArrowIpcTypes::handle_arrow_ipc_cmd(src.clone(), out.clone(), &cmd, &units, serial);
        if blocked.is_some() {
            if got.is_ok() {
                return Err("export reported success although a file could not be written".into());
            }
            continue;
        }
        let how = if serial { "serially" } else { "in parallel" };
        got.map_err(|e| format!("exporting {how} failed: {e}"))?;
        for k in 0..7 {
            let what = format!("{}.arrow written {how}", OUT[k]);
            let (s, mut b) = read(&out.join(format!("{}.arrow", OUT[k]))).map_err(|e| format!("{what}: {e}"))?;
            if s.fields() != schema(k).fields() {
                return Err(format!("{what}: columns {s:?}, contract says {:?}", schema(k)));
            }
            if !serial {
                // the order of the replays is the workers' own
                let mut sorted = vec![];
                for w in &want[k] {
                    if let Some(p) = b.iter().position(|x| x == w) {
                        sorted.push(b.remove(p));
                    }
                }
                sorted.extend(b);
                b = sorted;
            }
            if b != want[k] {
                let n = |v: &[RecordBatch]| v.iter().map(|x| x.num_rows()).collect::<Vec<_>>();
                return Err(format!("{what}: batches of {:?} rows, contract says {:?}; {:?} instead of {:?}", n(&b), n(&want[k]), b.iter().find(|x| !want[k].contains(x)), want[k].iter().find(|x| !b.contains(x))));
            }
        }
    }
    Ok(want.iter().skip(1).any(|w| !w.is_empty()))
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "trees of replay archives in a scratch directory, some cut short or missing a sector, with every limit and version bound; all seven files written serially and in parallel, read back and compared column by column with the rows the readers of one replay give; non-trivial when events were exported",
        n: (1_000, 40_000),
        generate,
        run,
    }]
}
