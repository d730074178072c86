"""Contracts for C28: the flat rows exported for events and users."""
from .core import Fn, Section
from . import libfns as L, lobby, merge, sm, stream

ST, TA, GA = sm.ST, "tracker_events/arrow_store/", "game_events/arrow_store/"
BORN, DIED, UPGR, STATS, CMD = TA + "unit_born_event_flat_row.rs", TA + "unit_died_event_flat_row.rs", TA + "upgrade_event_flat_row.rs", TA + "player_stats_flat_row.rs", GA + "cmd_event_flat_row.rs"
TYPES = merge.TYPES + [(BORN, "UnitBornEventFlatRow"), (DIED, "UnitDiedEventFlatRow"), (UPGR, "UpgradeEventFlatRow"), (STATS, "PlayerStatsFlatRow"),
                       (CMD, "CmdTargetPointEventFlatRow"), (CMD, "CmdTargetUnitEventFlatRow"), (ST, "TRACKER_SPEED_RATIO")]
_a, _b = sm.PRELUDE.index("// ---- 32-bit floats"), sm.PRELUDE.index("#[verifier::external_body] pub fn vx_unreachable")
FLOATS = "verus! {\n" + sm.PRELUDE[_a:_b] + """pub uninterp spec fn f2i(x: f32) -> i64;
pub uninterp spec fn f2u(x: f32) -> u32;
#[verifier::external_body] pub fn vx_f2i64(x: f32) -> (r: i64) ensures r == f2i(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_f2u32(x: f32) -> (r: u32) ensures r == f2u(x) { unimplemented!() }
}
"""
PRELUDE = merge.PRELUDE.replace("#[verifier::external_body] pub struct Details { x: u8 }",
    "pub struct Details { pub ext_fs_id: u64, pub rest: DetailsRest }\n#[verifier::external_body] pub struct DetailsRest { x: u8 }") + FLOATS
assert "DetailsRest" in PRELUDE
MODS = """
pub mod details { pub use super::Details; }
pub mod state { pub use super::UnitChangeHint; }
pub mod tracker_events { pub use super::*; }
pub mod game_events { pub use super::*; }
"""
STAT = [f"{r}_{w}" for w in ("current", "collection_rate") for r in ("minerals", "vespene")] + ["workers_active_count"] \
    + [f"{r}_{w}_{k}" for w in ("used_in_progress", "used_current", "lost", "killed", "friendly_fire") for r in ("minerals", "vespene") for k in ("army", "economy", "technology")] \
    + ["food_used", "food_made", "minerals_used_active_forces", "vespene_used_active_forces"]
assert len(STAT) == 39

SPEC = sm.clones(["Details", "SC2Unit", "GameSMapCoord3D", "GameSCmdDataTargetUnit"]) + """
verus! {
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
pub fn vx_append<T>(v: &mut Vec<T>, r: Vec<T>) ensures final(v)@ == old(v)@ + r@ { let mut r = r; v.append(&mut r); }
#[verifier::external_body] pub fn vx_owned_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub uninterp spec fn no_text() -> String;
pub broadcast axiom fn ax_no_text(s: String) ensures #[trigger] s@ == Seq::<char>::empty() ==> s == no_text();
pub trait VxDefault: Sized { spec fn vx_d() -> Self; }
#[verifier::external_body]
pub fn vx_or_default<T: VxDefault>(x: Option<T>) -> (r: T) ensures r == (match x { Some(v) => v, None => T::vx_d() }) { unimplemented!() }
impl VxDefault for String { open spec fn vx_d() -> String { no_text() } }

// ---- seconds of a loop; the tracker's loops are first scaled to the game's
pub open spec fn game_secs(l: i64) -> u32 { f2u(fdiv(fmul(i2f(l as int), 68.58391f32), 1000.0f32)) }
pub open spec fn tracker_secs(l: i64) -> u32 { game_secs(f2i(fmul(1.0f32, i2f(l as int)))) }

pub open spec fn unit_name(u: Option<SC2Unit>) -> Option<String> { match u { Some(x) => Some(x.name), None => None } }
/// A unit that is born: its event's values, and the registry's player.
pub open spec fn born_row(e: UnitBornEvent, l: i64, id: u64, h: UnitChangeHint) -> Option<UnitBornEventFlatRow> {
    match h { UnitChangeHint::Registered { unit, creator } => Some(UnitBornEventFlatRow {
        unit_tag_index: e.unit_tag_index, unit_tag_recycle: e.unit_tag_recycle, unit_type_name: e.unit_type_name,
        control_player_id: Some(e.control_player_id), upkeep_player_id: Some(e.upkeep_player_id), x: i2f(e.x as int), y: i2f(e.y as int),
        creator_unit_tag_index: e.creator_unit_tag_index, creator_unit_tag_recycle: e.creator_unit_tag_recycle,
        creator_unit_type_name: unit_name(creator), creator_ability_name: e.creator_ability_name,
        ext_replay_loop: l, ext_replay_seconds: tracker_secs(l), ext_fs_id: id, player_name: unit.player_name }), _ => None }
}
/// A unit that is done or changes type: the registry's values.
pub open spec fn known_row(i: u32, r: u32, l: i64, id: u64, h: UnitChangeHint) -> Option<UnitBornEventFlatRow> {
    match h { UnitChangeHint::Registered { unit, creator } => Some(UnitBornEventFlatRow {
        unit_tag_index: i, unit_tag_recycle: r, unit_type_name: unit.name,
        control_player_id: unit.user_id, upkeep_player_id: unit.user_id, x: unit.pos.0[0], y: unit.pos.0[1],
        creator_unit_tag_index: None, creator_unit_tag_recycle: None,
        creator_unit_type_name: unit_name(creator), creator_ability_name: unit.creator_ability_name,
        ext_replay_loop: l, ext_replay_seconds: tracker_secs(l), ext_fs_id: id, player_name: unit.player_name }), _ => None }
}
pub open spec fn died_row(e: UnitDiedEvent, l: i64, id: u64, h: UnitChangeHint) -> Option<UnitDiedEventFlatRow> {
    match h { UnitChangeHint::Unregistered { killer, killed } => Some(UnitDiedEventFlatRow {
        unit_died_name: killed.name, unit_tag_index: e.unit_tag_index, unit_tag_recycle: e.unit_tag_recycle, killer_player_id: e.killer_player_id, x: e.x, y: e.y,
        unit_killer_name: match killer { Some(k) => k.name, None => no_text() },
        killer_unit_tag_index: e.killer_unit_tag_index, killer_unit_tag_recycle: e.killer_unit_tag_recycle,
        ext_replay_loop: l, ext_replay_seconds: tracker_secs(l), ext_fs_id: id }), _ => None }
}
pub open spec fn upgrade_row(e: UpgradeEvent, l: i64, id: u64) -> UpgradeEventFlatRow {
    UpgradeEventFlatRow { player_id: e.player_id, name: e.upgrade_type_name, count: e.count, ext_replay_loop: l, ext_replay_seconds: tracker_secs(l), ext_fs_id: id }
}
pub open spec fn stats_row(e: PlayerStatsEvent, l: i64, id: u64) -> PlayerStatsFlatRow {
    PlayerStatsFlatRow { player_id: e.player_id, STATS0 ext_replay_loop: l, ext_replay_seconds: tracker_secs(l), ext_fs_id: id }
}
pub open spec fn link_of(a: Option<GameSCmdAbil>) -> Option<u16> { match a { Some(x) => Some(x.m_abil_link), None => None } }
pub open spec fn index_of(a: Option<GameSCmdAbil>) -> Option<i64> { match a { Some(x) => Some(x.m_abil_cmd_index), None => None } }
pub open spec fn ability_of(a: Option<GameSCmdAbil>) -> String { match a { Some(x) => x.ability, None => no_text() } }
pub open spec fn point_row(e: GameSCmdEvent, t: GameSMapCoord3D, u: SC2Unit, l: i64, user: i64, name: Option<String>, id: u64) -> CmdTargetPointEventFlatRow {
    CmdTargetPointEventFlatRow { user_id: user, player_name: name, cmd_flags: e.m_cmd_flags, abil_link: link_of(e.m_abil), abil_cmd_index: index_of(e.m_abil), ability: ability_of(e.m_abil),
        target_point_x: t.x, target_point_y: t.y, target_point_z: t.z, sequence: e.m_sequence, unit_group: e.m_unit_group, unit_name: u.name,
        ext_replay_loop: l, ext_replay_seconds: game_secs(l), ext_fs_id: id }
}
pub open spec fn target_row(e: GameSCmdEvent, t: GameSCmdDataTargetUnit, u: SC2Unit, l: i64, user: i64, name: Option<String>, id: u64) -> CmdTargetUnitEventFlatRow {
    CmdTargetUnitEventFlatRow { user_id: user, player_name: name, cmd_flags: e.m_cmd_flags, abil_link: link_of(e.m_abil), abil_cmd_index: index_of(e.m_abil), ability: ability_of(e.m_abil),
        target_unit_flags: t.m_target_unit_flags, tag: t.m_tag, snapshot_unit_link: t.m_snapshot_unit_link,
        snapshot_control_player_id: t.m_snapshot_control_player_id, snapshot_upkeep_player_id: t.m_snapshot_upkeep_player_id,
        snapshot_point_x: t.m_snapshot_point.x, snapshot_point_y: t.m_snapshot_point.y, snapshot_point_z: t.m_snapshot_point.z,
        sequence: e.m_sequence, unit_name: u.name, target_unit_name: match u.cmd.other_unit_name { Some(n) => n, None => no_text() },
        ext_replay_loop: l, ext_replay_seconds: game_secs(l), ext_fs_id: id }
}
/// One row per commanded unit, in their order.
pub open spec fn point_rows(e: GameSCmdEvent, l: i64, user: i64, name: Option<String>, id: u64, h: UnitChangeHint) -> Seq<CmdTargetPointEventFlatRow> {
    match (e.m_data, h) {
        (GameSCmdData::TargetPoint(t), UnitChangeHint::Abilities { units, .. }) => Seq::new(units@.len(), |i: int| point_row(e, t, units@[i], l, user, name, id)),
        _ => Seq::empty() }
}
pub open spec fn target_rows(e: GameSCmdEvent, l: i64, user: i64, name: Option<String>, id: u64, h: UnitChangeHint) -> Seq<CmdTargetUnitEventFlatRow> {
    match (e.m_data, h) {
        (GameSCmdData::TargetUnit(t), UnitChangeHint::Abilities { units, .. }) => Seq::new(units@.len(), |i: int| target_row(e, t, units@[i], l, user, name, id)),
        _ => Seq::empty() }
}

// ---- the rows of what an iterator yields
pub open spec fn one<T>(x: Option<T>) -> Seq<T> { match x { Some(v) => seq![v], None => Seq::empty() } }
pub open spec fn born_of(id: u64) -> spec_fn(SC2EventIteratorItem) -> Seq<UnitBornEventFlatRow> { |i: SC2EventIteratorItem| match i.event_type {
    SC2EventType::Tracker { tracker_loop, event: ReplayTrackerEvent::UnitBorn(e) } => one(born_row(e, tracker_loop, id, i.change_hint)),
    SC2EventType::Tracker { tracker_loop, event: ReplayTrackerEvent::UnitDone(e) } => one(known_row(e.unit_tag_index, e.unit_tag_recycle, tracker_loop, id, i.change_hint)),
    SC2EventType::Tracker { tracker_loop, event: ReplayTrackerEvent::UnitTypeChange(e) } => one(known_row(e.unit_tag_index, e.unit_tag_recycle, tracker_loop, id, i.change_hint)),
    _ => Seq::empty() } }
pub open spec fn died_of(id: u64) -> spec_fn(SC2EventIteratorItem) -> Seq<UnitDiedEventFlatRow> { |i: SC2EventIteratorItem| match i.event_type {
    SC2EventType::Tracker { tracker_loop, event: ReplayTrackerEvent::UnitDied(e) } => one(died_row(e, tracker_loop, id, i.change_hint)), _ => Seq::empty() } }
pub open spec fn upgrades_of(id: u64) -> spec_fn(SC2EventIteratorItem) -> Seq<UpgradeEventFlatRow> { |i: SC2EventIteratorItem| match i.event_type {
    SC2EventType::Tracker { tracker_loop, event: ReplayTrackerEvent::Upgrade(e) } => seq![upgrade_row(e, tracker_loop, id)], _ => Seq::empty() } }
pub open spec fn stats_of(id: u64) -> spec_fn(SC2EventIteratorItem) -> Seq<PlayerStatsFlatRow> { |i: SC2EventIteratorItem| match i.event_type {
    SC2EventType::Tracker { tracker_loop, event: ReplayTrackerEvent::PlayerStats(e) } => seq![stats_row(e, tracker_loop, id)], _ => Seq::empty() } }
pub open spec fn points_of(id: u64) -> spec_fn(SC2EventIteratorItem) -> Seq<CmdTargetPointEventFlatRow> { |i: SC2EventIteratorItem| match i.event_type {
    SC2EventType::Game { game_loop, user_id, player_name, event: ReplayGameEvent::Cmd(e) } => point_rows(e, game_loop, user_id, player_name, id, i.change_hint), _ => Seq::empty() } }
pub open spec fn targets_of(id: u64) -> spec_fn(SC2EventIteratorItem) -> Seq<CmdTargetUnitEventFlatRow> { |i: SC2EventIteratorItem| match i.event_type {
    SC2EventType::Game { game_loop, user_id, player_name, event: ReplayGameEvent::Cmd(e) } => target_rows(e, game_loop, user_id, player_name, id, i.change_hint), _ => Seq::empty() } }
pub open spec fn flat<T>(i: Seq<SC2EventIteratorItem>, f: spec_fn(SC2EventIteratorItem) -> Seq<T>) -> Seq<T>
    decreases i.len()
{ if i.len() == 0 { Seq::empty() } else { f(i[0]) + flat(i.skip(1), f) } }
/// Everything an iterator has still to yield.
pub open spec fn to_come(x: SC2EventIterator) -> Seq<SC2EventIteratorItem> { yielded(pending(x), x.sc2_state, x.filters) }
/// One call of next() against the rows to come.
pub proof fn lemma_round<T>(x: SC2EventIterator, f: spec_fn(SC2EventIteratorItem) -> Seq<T>, out: Seq<T>, all: Seq<T>)
    requires all == out + flat(to_come(x), f),
    ensures ({ let r = next_of(pending(x), x.sc2_state, x.filters);
        &&& (r.item is None ==> out == all)
        &&& (r.item is Some ==> 0 < r.used <= pending(x).len() && all == (out + f(r.item->0)) + flat(yielded(pending(x).skip(r.used as int), r.state, r.filters), f)) }),
{
    let m = pending(x);
    lemma_next_of(m, x.sc2_state, x.filters);
    let r = next_of(m, x.sc2_state, x.filters);
    let y = to_come(x);
    if r.item is None { assert(y.len() == 0); assert(all =~= out); }
    else {
        let rest = yielded(m.skip(r.used as int), r.state, r.filters);
        assert(y == seq![r.item->0] + rest);
        assert(y.skip(1) =~= rest);
        assert(y[0] == r.item->0);
        assert(all =~= (out + f(r.item->0)) + flat(rest, f));
    }
}
pub broadcast proof fn lemma_push<T>(a: Seq<T>, x: T) ensures #[trigger] a.push(x) == a + seq![x] { assert(a.push(x) =~= a + seq![x]); }
pub broadcast proof fn lemma_none<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a { assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn lemma_one<T>(a: Seq<T>, x: Option<T>) ensures #[trigger] (a + one(x)) == (match x { Some(v) => a.push(v), None => a }) {
    match x { Some(v) => assert(a + one(x) =~= a.push(v)), None => assert(a + one(x) =~= a) }
}
}
""".replace("STATS0", " ".join(f"{f}: e.stats.{f}," for f in STAT))


U = "broadcast use {ax_string, ax_no_text, vstd::string::to_string_from_display_ensures_for_str};"
LOOP = """        invariant_except_break it_wf(vx_it), details.ext_fs_id == fs, all == vx_out@ + flat(to_come(vx_it), %s(fs)),
        ensures vx_out@ == all,
        decreases pending(vx_it).len(),"""


def collect(name, f):
    return Fn(ST, f"SC2EventIterator::{name}", std=True, spec=f"    requires it_wf(self), ensures res@ == flat(to_come(self), {f}(self.sc2_state.details.ext_fs_id)),",
              pre=f"let ghost fs = self.sc2_state.details.ext_fs_id; let ghost all = flat(to_come(self), {f}(fs)); proof {{ assert(Seq::empty() + all =~= all); }}",
              inv={0: LOOP % f}, ls={0: f"broadcast use {{lemma_push, lemma_none, lemma_one}}; proof {{ lemma_round(vx_it, {f}(fs), vx_out@, all); }}"})


def cmd(ty, f):
    # the loop over the commanded units
    rows = f"{f}s(event, game_loop, user_id, player_name, details.ext_fs_id, change_hint)"
    return Fn(CMD, f"{ty}::new", std=True, fmt=True, attrs="#[verifier::loop_isolation(false)]", spec=f"    ensures res@ == {rows},",
              pre=U + f" let ghost all = {rows}; proof {{ assert(all.take(0) =~= Seq::empty()); }}",
              inv={0: f"""        invariant vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_n0 == all.len(), res@ =~= all.take(vx_i0 as int),
        decreases vx_n0 - vx_i0,"""}, ls={0: U + " proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); }"}, le={0: "proof { assert(all.take(vx_i0 as int) =~= all.take(vx_i0 - 1).push(all[vx_i0 - 1])); }"})


ROWS = [
    Fn("common.rs", "Vec3D::x", std=True, spec="    ensures res == self.0[0],"),
    Fn("common.rs", "Vec3D::y", std=True, spec="    ensures res == self.0[1],"),
    Fn("lib.rs", "convert_game_loop_to_seconds", std=True, spec="    ensures res == game_secs(game_replay_loop),"),
    Fn("lib.rs", "convert_tracker_loop_to_seconds", std=True, spec="    ensures res == tracker_secs(tracker_replay_loop),"),
    Fn(BORN, "UnitBornEventFlatRow::from_unit_born", std=True, spec="    ensures res == born_row(event, ext_replay_loop, details.ext_fs_id, change_hint),", pre=U),
    Fn(BORN, "UnitBornEventFlatRow::from_unit_done", std=True, spec="    ensures res == known_row(event.unit_tag_index, event.unit_tag_recycle, ext_replay_loop, details.ext_fs_id, change_hint),", pre=U),
    Fn(BORN, "UnitBornEventFlatRow::from_unit_type_change", std=True, spec="    ensures res == known_row(event.unit_tag_index, event.unit_tag_recycle, ext_replay_loop, details.ext_fs_id, change_hint),", pre=U),
    Fn(DIED, "UnitDiedEventFlatRow::new", std=True, fmt=True, spec="    ensures res == died_row(event, ext_replay_loop, details.ext_fs_id, change_hint),", pre=U),
    Fn(UPGR, "UpgradeEventFlatRow::new", std=True, spec="    ensures res == upgrade_row(event, ext_replay_loop, details.ext_fs_id),", pre=U),
    Fn(STATS, "PlayerStatsFlatRow::new", std=True, spec="    ensures res == stats_row(event, ext_replay_loop, details.ext_fs_id),", pre=U),
]
COLLECTS = [collect("collect_into_unit_born_flat_rows", "born_of"), collect("collect_into_unit_died_flat_rows", "died_of"),
            collect("collect_into_upgrades_flat_rows", "upgrades_of"), collect("collect_into_player_stats_flat_rows", "stats_of"),
            collect("collect_into_game_cmd_target_points_flat_rows", "points_of"), collect("collect_into_game_cmd_target_units_flat_rows", "targets_of")]
def label(f):
    r, _, rest = f.partition("_")
    return f"{r}/{rest}" if r in ("minerals", "vespene", "food") else f


ORDER = STAT[:5] + [f"{r}_{w}_{k}" for w in ("used_in_progress", "used_current", "lost", "killed") for r in ("minerals", "vespene") for k in ("army", "economy", "technology")] \
    + STAT[-4:] + [f"{r}_friendly_fire_{k}" for r in ("minerals", "vespene") for k in ("army", "economy", "technology")]
ORDER[:4] = ["minerals_current", "vespene_current", "minerals_collection_rate", "vespene_collection_rate"]
assert sorted(ORDER) == sorted(STAT)
# every statistic under its name
ROWS.append(Fn("tracker_events/player_stats.rs", "PlayerStats::as_prop_name_value_vec", std=True, subst=[(r"String :: from \(", "vx_owned_text(")],
               spec="    ensures res@.len() == 39,\n" + "\n".join(f'        res@[{k}].0@ == "{label(f)}"@ && res@[{k}].1 == self.{f},' for k, f in enumerate(ORDER))))
CMDS = [cmd("CmdTargetPointEventFlatRow", "point_row"), cmd("CmdTargetUnitEventFlatRow", "target_row")]


def units():
    merge.NEXT.trusted = True
    merge.NEXT.spec = merge.POST
    for f in merge.SKIPS + merge.COUNT + merge.FRAME + merge.HANDLERS:
        f.trusted = True
    return L.LIB, [Section(items=TYPES, spec=PRELUDE + merge.SPEC + MODS + SPEC, fns=[merge.NEXT] + ROWS + CMDS + COLLECTS)]


# ------------------------------------------------------------------- users and players of a replay
DE, AS = "details.rs", "init_data/arrow_store.rs"
U_TYPES = [t for t in lobby.TYPES if t[1] not in ("SC2UserState", "SC2ReplayState", "SC2ReplayFilters")] + [(AS, "UserInitDataFlatRow"), (DE, "PlayerLobbyDetailsFlatRow")]
PLAYER = {f"player_{f}": f"s.player_details.{f}" for f in ("name", "race", "control", "team_id", "observe", "result", "working_set_slot_id", "hero")} \
    | {f"player_toon_{f}": f"s.player_details.toon.{f}" for f in ("region", "program_id", "realm", "id")} \
    | {f"player_color_{f}": f"s.player_details.color.{f}" for f in "argb"} \
    | {f: f"s.{f}" for f in ("title", "time_utc", "time_local_offset", "ext_fs_id", "ext_fs_sha256", "ext_fs_file_name", "ext_datetime")} \
    | {"is_blizzard_map": "s.game_description.is_blizzard_map", "lobby_slot_user_id": "s.lobby_slot.user_id", "lobby_slot_observe": "s.lobby_slot.observe",
       "lobby_slot_map_size_x": "s.game_description.map_size_x", "lobby_slot_map_size_y": "s.game_description.map_size_y"}
U_SPEC = sm.clones(["UserInitialData"]) + """
verus! {
pub trait VxFrom<A>: Sized { spec fn vx_rel(x: A, r: Self) -> bool; spec fn vx_can(x: A) -> bool; fn vx_from(x: A) -> (r: Self) requires Self::vx_can(x), ensures Self::vx_rel(x, r); }
pub open spec fn user_row(i: InitData, k: int) -> UserInitDataFlatRow {
    let u = i.sync_lobby_state.user_initial_data@[k];
    UserInitDataFlatRow { ext_fs_id: i.ext_fs_id, ext_fs_sha256: i.ext_fs_sha256, ext_fs_file_name: i.ext_fs_file_name, user_index: k as u32,
        name: u.name, clan_tag: match u.clan_tag { Some(c) => c, None => empty() }, scaled_rating: u.scaled_rating }
}

// ---- strings of ASCII characters, whose bytes are their characters
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
pub trait VxText { spec fn txt(&self) -> Seq<char>; }
impl VxText for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn txt(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_split_at<S: VxText + ?Sized>(s: &S, n: usize) -> (r: (&str, &str)) requires ascii(s.txt()), n <= s.txt().len(), ensures r.0@ == s.txt().take(n as int), r.1@ == s.txt().skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_tail<S: VxText + ?Sized>(s: &S, n: usize) -> (r: &str) requires ascii(s.txt()), n <= s.txt().len(), ensures r@ == s.txt().skip(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_push_str(s: &mut String, x: &str) ensures final(s)@ == old(s)@ + x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_push_char(s: &mut String, x: char) ensures final(s)@ == old(s)@.push(x) { unimplemented!() }
#[verifier::external_body] pub fn vx_pop_char(s: &mut String) ensures final(s)@ == (if old(s)@.len() == 0 { old(s)@ } else { old(s)@.drop_last() }) { unimplemented!() }
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_text(s: &[char]) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// std's chunks(n).map(f) collected into a string.
#[verifier::external_body]
pub fn vx_map_chunks<F: Fn(&[char]) -> char>(v: Vec<char>, n: usize, f: F) -> (r: String)
    requires n > 0, forall|c: &[char]| is_chunk(v@, n as int, c@) ==> #[trigger] f.requires((c,)),
    ensures r@.len() == (v@.len() + n - 1) / (n as int), forall|i: int| 0 <= i < r@.len() ==> exists|c: &[char]| c@ == chunk(v@, n as int, i) && f.ensures((c,), #[trigger] r@[i]),
{ unimplemented!() }
pub open spec fn chunk(v: Seq<char>, n: int, i: int) -> Seq<char> { v.subrange(i * n, if (i + 1) * n <= v.len() { (i + 1) * n } else { v.len() as int }) }
pub open spec fn is_chunk(v: Seq<char>, n: int, c: Seq<char>) -> bool { exists|i: int| 0 <= i && i * n < v.len() && c == #[trigger] chunk(v, n, i) }
pub open spec fn digit(c: char) -> int { if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { -1 } }
/// std's u8::from_str_radix(s, 16) for two hexadecimal digits
#[verifier::external_body]
pub fn vx_radix16(s: &String) -> (r: Option<u8>) requires s@.len() == 2, digit(s@[0]) >= 0, digit(s@[1]) >= 0, ensures r == Some((16 * digit(s@[0]) + digit(s@[1])) as u8) { unimplemented!() }
pub open spec fn pair(a: char, b: char) -> char { (16 * digit(a) + digit(b)) as u8 as char }
/// The characters whose codes the digits are.
pub open spec fn plain(s: Seq<char>) -> Seq<char> { Seq::new(s.len() / 2, |i: int| pair(s[2 * i], s[2 * i + 1])) }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) >= 0 }
/// A cache handle: four characters of extension, four of region, then the hash, all as hexadecimal digits.
/// One too short for extension and region is no handle.
pub open spec fn handle(s: Seq<char>) -> bool { s.len() >= 16 }
/// The hashes, each after the first behind a comma.
pub open spec fn hashes(s: Seq<String>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else if handle(s[n - 1]@) { hashes(s, n - 1) + s[n - 1]@.skip(16).push(',') } else { hashes(s, n - 1) } }
pub open spec fn listed(s: Seq<String>) -> Seq<char> { let h = hashes(s, s.len() as int); if h.len() == 0 { h } else { h.drop_last() } }
/// The first handle among the first n.
pub open spec fn lead(s: Seq<String>, n: int) -> Option<Seq<char>> decreases n { if n <= 0 { None } else { match lead(s, n - 1) { Some(h) => Some(h), None => if handle(s[n - 1]@) { Some(s[n - 1]@) } else { None } } } }
pub open spec fn ext_of(s: Seq<String>, n: int) -> Option<String> { match lead(s, n) { Some(h) => Some(text(plain(h.take(8)))), None => None } }
pub open spec fn region_of(s: Seq<String>, n: int) -> Option<String> { match lead(s, n) { Some(h) => Some(text(plain(h.skip(12).take(4)))), None => None } }
/// std's len of a string of hexadecimal digits: one byte each
#[verifier::external_body]
pub fn vx_len(s: &String) -> (r: usize) ensures digits(s@) ==> r == s@.len() { unimplemented!() }
pub open spec fn player_row(s: PlayerLobbyDetails) -> PlayerLobbyDetailsFlatRow {
    PlayerLobbyDetailsFlatRow { PLAYER0 cache_handle_region: region_of(s.cache_handles@, s.cache_handles@.len() as int), cache_handle_extension: ext_of(s.cache_handles@, s.cache_handles@.len() as int), cache_handles: text(listed(s.cache_handles@)) }
}
}
""".replace("PLAYER0", " ".join(f"{k}: {v}," for k, v in PLAYER.items()))


def users():
    pre = lobby.PRELUDE.replace("#[verifier::external_body] pub struct GameDescription { x: u8 }",
        "pub struct GameDescription { pub is_blizzard_map: bool, pub map_size_x: u8, pub map_size_y: u8, pub rest: DescriptionRest }\n#[verifier::external_body] pub struct DescriptionRest { x: u8 }")
    assert "DescriptionRest" in pre
    fns = [Fn(AS, "Vec<UserInitDataFlatRow>asFrom<&InitData>::from", impl="impl<'a> VxFrom<&'a InitData> for Vec<UserInitDataFlatRow>", nopub=True, name="vx_from", std=True, params="init_data: &'a InitData", rettype="Vec<UserInitDataFlatRow>",
              inner="""    open spec fn vx_can(init_data: &'a InitData) -> bool { true }
    open spec fn vx_rel(init_data: &'a InitData, r: Vec<UserInitDataFlatRow>) -> bool { r@ == Seq::new(init_data.sync_lobby_state.user_initial_data@.len(), |k: int| user_row(*init_data, k)) }""",
              attrs=lobby.ISO, pre=lobby.B + " let ghost all = Seq::new(init_data.sync_lobby_state.user_initial_data@.len(), |k: int| user_row(*init_data, k)); proof { ax_len(&init_data.sync_lobby_state.user_initial_data); assert(all.take(0) =~= Seq::empty()); assert(all.take(all.len() as int) =~= all); }",
              inv={0: "        invariant\n            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_k == vx_i0, vx_v0@ == init_data.sync_lobby_state.user_initial_data@, vx_out@ == all.take(vx_i0 as int),\n        decreases vx_n0 - vx_i0,"},
              ls={0: lobby.B}, le={0: "proof { assert(all.take(vx_i0 as int) =~= all.take(vx_i0 - 1).push(all[vx_i0 - 1])); } "}),
           Fn(DE, "parse_hex_chars_to_u8_char", std=True, spec="    requires chars@.len() == 2, digits(chars@), ensures res == pair(chars@[0], chars@[1]),",
              subst=[(r"chars \. iter \(\)\. collect \(\)", "vx_text(chars)"), (r"u8 :: from_str_radix \((.*?), 16\)", r"vx_radix16(\1)")]),
           Fn(DE, "make_string_from_hex_chars", std=True, spec="    requires digits(input_str@), input_str@.len() % 2 == 0, ensures res@ == plain(input_str@),",
              subst=[(r"input_str \. chars \(\)\. collect :: < Vec < char > > \(\)\. chunks \(2\)\. map \((\w+) \)\. collect \(\)", r"vx_map_chunks(vx_chars(input_str), 2, \1)")]),
           Fn(DE, "PlayerLobbyDetailsFlatRowasFrom<PlayerLobbyDetails>::from", impl="impl VxFrom<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow", nopub=True, name="vx_from", std=True, rettype="PlayerLobbyDetailsFlatRow",
              inner="""    open spec fn vx_can(source: PlayerLobbyDetails) -> bool { forall|i: int| 0 <= i < source.cache_handles@.len() ==> digits((#[trigger] source.cache_handles@[i])@) }
    open spec fn vx_rel(source: PlayerLobbyDetails, r: PlayerLobbyDetailsFlatRow) -> bool { r == player_row(source) }""",
              attrs=lobby.ISO, pre=lobby.B + " proof { assert(text(listed(source.cache_handles@))@ == listed(source.cache_handles@)); }",
              subst=[(r"\b(?!vx_)(\w+) \. len \(\)", r"vx_len(\1)"), (r"(\w+) \. split_at \(", r"vx_split_at(\1, "), (r"& (\w+) \[(\w+) ?\.\. \]", r"vx_tail(\1, \2)"), (r"(\w+) \. to_string \(\)", r"\1.clone()"), (r"String :: new \(\)", "vx_new_string()"),
                     (r"(\w+) \. push_str \(", r"vx_push_str(&mut \1, "), (r"(\w+) \. push \(", r"vx_push_char(&mut \1, "), (r"(\w+) \. pop \(\)", r"vx_pop_char(&mut \1)")],
              inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_v0@ == source.cache_handles@, cache_handles@ == hashes(vx_v0@, vx_i0 as int),
            cache_handle_extension == ext_of(vx_v0@, vx_i0 as int), cache_handle_region == region_of(vx_v0@, vx_i0 as int),
        decreases vx_n0 - vx_i0,"""}, ls={0: lobby.B},
              le={0: """proof {
            let h = vx_v0@[vx_i0 - 1]@;
            assert(h.skip(8).skip(4) =~= h.skip(12)); assert(h.skip(12).skip(4) =~= h.skip(16));
            assert(text(plain(h.take(8)))@ == plain(h.take(8))); assert(text(plain(h.skip(12).take(4)))@ == plain(h.skip(12).take(4)));
            assert(handle(h)); assert(cache_handles@ =~= hashes(vx_v0@, vx_i0 - 1) + h.skip(16).push(','));
        }"""})]
    return L.LIB, [Section(items=U_TYPES, spec=pre + U_SPEC, fns=fns)]
