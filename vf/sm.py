"""Contracts for the replay state machine: C13 (position reports), C14 (unit registry),
C15 (control groups), C16 (selection marks and commands)."""
import os, re
from .core import Fn, Section, REPO
from . import small as S

TS, GS, ST, UC = "tracker_events/state.rs", "game_events/state.rs", "state/mod.rs", "state/unit_cmd.rs"
GM = "game_events/mod.rs"
TE = ["unit_born", "unit_init", "unit_type_change", "unit_done", "unit_died", "unit_owner_change", "unit_positions",
      "player_setup", "player_stats", "player_upgrade"]


def _types(f, skip=()):
    try:
        t = open(os.path.join(REPO, "src", f)).read()
    except OSError:
        return []
    return [(f, n) for n in re.findall(r"^pub (?:struct|enum|type) (\w+)", t, re.M) if n not in skip]


ITEMS = [i for f in TE for i in _types(f"tracker_events/{f}.rs")] + [("tracker_events/mod.rs", "ReplayTrackerEvent")] \
    + _types(GM, skip=("GameEvent",)) + [("common.rs", "Vec3D")] \
    + _types(UC) + [(ST, "SC2Unit"), (ST, "UnitChangeHint"), (ST, "SC2UserState"), (ST, "SC2ReplayState"),
                    (ST, "ACTIVE_UNITS_GROUP_IDX"), (TS, "UNIT_POSITION_RATIO"), (GS, "GAME_EVENT_POS_RATIO"),
                    ("details.rs", "PlayerLobbyDetails"), ("details.rs", "PlayerDetails"), ("details.rs", "ToonNameDetails"), ("details.rs", "Color")]

HEADER = """#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unreachable_code, unused_assignments)]
use vstd::prelude::*;
"""
PRELUDE = """
pub mod chrono {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct NaiveDateTime { x: u8 }
    }
}
verus! {
// ---- dependencies, by what they do (see DESIGN.md, trusted base)
#[verifier::external_body] pub struct InitData { x: u8 }
#[verifier::external_body] pub struct Details { x: u8 }
#[verifier::external_body] pub struct LobbySlot { x: u8 }
#[verifier::external_body] pub struct GameDescription { x: u8 }
#[verifier::external_body] pub struct VersionedBalanceUnits { x: u8 }

/// std's HashMap, as a finite map.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
}
/// The keys of a map, each once, in some order.
#[verifier::external_body]
pub fn vx_keys<K, V>(m: &HashMap<K, V>) -> (r: Vec<K>)
    ensures r@.no_duplicates(), forall|k: K| r@.contains(k) <==> m@.contains_key(k),
{ unimplemented!() }
/// The values of a map, in some order.
#[verifier::external_body]
pub fn vx_values<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<&'a V>)
    ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: K| #[trigger] m@.contains_key(k) && m@[k] == *(#[trigger] r@[i]),
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *r@[i] == m@[k],
{ unimplemented!() }

pub trait VxFrom<A>: Sized {
    spec fn vx_spec(x: A) -> Self;
    fn vx_from(x: A) -> (r: Self) ensures r == Self::vx_spec(x);
}
pub fn vx_into<A, B: VxFrom<A>>(x: A) -> (r: B) ensures r == B::vx_spec(x) { B::vx_from(x) }
impl VxFrom<u32> for i64 { open spec fn vx_spec(x: u32) -> i64 { x as i64 } fn vx_from(x: u32) -> (r: i64) { x as i64 } }
impl VxFrom<u8> for i64 { open spec fn vx_spec(x: u8) -> i64 { x as i64 } fn vx_from(x: u8) -> (r: i64) { x as i64 } }

// ---- 32-bit floats: the rounding of the operations is left open, so results agree only when
// ---- the same operations are applied to the same operands
pub uninterp spec fn i2f(x: int) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn fneg(a: f32) -> f32;
pub trait VxNum { spec fn vx_int(self) -> int; }
impl VxNum for u8 { open spec fn vx_int(self) -> int { self as int } }
impl VxNum for u32 { open spec fn vx_int(self) -> int { self as int } }
impl VxNum for i32 { open spec fn vx_int(self) -> int { self as int } }
impl VxNum for i64 { open spec fn vx_int(self) -> int { self as int } }
#[verifier::external_body] pub fn vx_f32<T: VxNum>(x: T) -> (r: f32) ensures r == i2f(x.vx_int()) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmul(a: f32, b: f32) -> (r: f32) ensures r == fmul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fdiv(a: f32, b: f32) -> (r: f32) ensures r == fdiv(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fadd(a: f32, b: f32) -> (r: f32) ensures r == fadd(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fsub(a: f32, b: f32) -> (r: f32) ensures r == fsub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fneg(a: f32) -> (r: f32) ensures r == fneg(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }

/// Two vectors (strings) with the same elements (characters) are the same value.
pub broadcast axiom fn ax_vec<T>(a: Vec<T>, b: Vec<T>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_string(a: String, b: String) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

pub trait VxOrd { spec fn vx_key(self) -> int; }
impl VxOrd for u32 { open spec fn vx_key(self) -> int { self as int } }
impl VxOrd for SC2Unit { open spec fn vx_key(self) -> int { self.tag_index as int } }
pub open spec fn sorted<T: VxOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).vx_key() <= (#[trigger] s[j]).vx_key() }
pub open spec fn strict<T: VxOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).vx_key() < (#[trigger] s[j]).vx_key() }
#[verifier::external_body]
pub fn vx_sort<T: VxOrd>(v: &mut Vec<T>)
    ensures sorted(final(v)@), final(v)@.len() == old(v)@.len(), forall|x: T| final(v)@.contains(x) <==> old(v)@.contains(x),
{ unimplemented!() }
/// Drops every element whose key equals that of its predecessor.
pub open spec fn dedup<T: VxOrd>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{ if s.len() <= 1 { s } else if s.last().vx_key() == s[s.len() - 2].vx_key() { dedup(s.drop_last()) } else { dedup(s.drop_last()).push(s.last()) } }
#[verifier::external_body]
pub fn vx_dedup0<T: VxOrd>(v: &mut Vec<T>) ensures final(v)@ == dedup(old(v)@) { unimplemented!() }
pub open spec fn deduped<T: VxOrd>(s: Seq<T>, d: Seq<T>) -> bool {
    strict(d) && (forall|x: T| d.contains(x) ==> s.contains(x)) && forall|x: T| s.contains(x) ==> exists|y: T| #[trigger] d.contains(y) && y.vx_key() == x.vx_key()
}
pub fn vx_dedup<T: VxOrd>(v: &mut Vec<T>)
    ensures final(v)@ == dedup(old(v)@), sorted(old(v)@) ==> deduped(old(v)@, final(v)@),
{ let ghost o = v@; vx_dedup0(v); proof { if sorted(o) { lemma_dedup(o); } } }
/// Of numbers, no one is lost.
pub broadcast proof fn lemma_deduped(s: Seq<u32>, d: Seq<u32>)
    ensures #[trigger] deduped(s, d) ==> forall|x: u32| #[trigger] d.contains(x) <==> s.contains(x),
{
    if deduped(s, d) {
        assert forall|x: u32| s.contains(x) implies d.contains(x) by {
            let y = choose|y: u32| #[trigger] d.contains(y) && y.vx_key() == x.vx_key();
            assert(y == x);
        }
    }
}
pub broadcast proof fn lemma_concat<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
{
    let c = a + b;
    if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(c[j] == x); }
    if b.contains(x) { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(c[a.len() + j] == x); }
    if c.contains(x) { let j = choose|j: int| 0 <= j < c.len() && c[j] == x; if j < a.len() { assert(a[j] == x); } else { assert(b[j - a.len()] == x); } }
}

/// Of a sorted sequence, dedup keeps one element of every key, in strictly increasing order.
pub proof fn lemma_dedup<T: VxOrd>(s: Seq<T>)
    requires sorted(s),
    ensures strict(dedup(s)), forall|x: T| dedup(s).contains(x) ==> s.contains(x),
        forall|x: T| s.contains(x) ==> exists|y: T| #[trigger] dedup(s).contains(y) && y.vx_key() == x.vx_key(),
        s.len() > 0 ==> dedup(s).len() > 0 && dedup(s).last().vx_key() == s.last().vx_key(),
    decreases s.len(),
{
    if s.len() <= 1 {
    } else {
        let p = s.drop_last();
        lemma_dedup(p);
        let d = dedup(p);
        let r = dedup(s);
        assert(p.last() == s[s.len() - 2]);
        assert forall|x: T| s.contains(x) implies exists|y: T| #[trigger] r.contains(y) && y.vx_key() == x.vx_key() by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            if i < s.len() - 1 {
                assert(p[i] == x);
                assert(p.contains(x));
                let y = choose|y: T| #[trigger] d.contains(y) && y.vx_key() == x.vx_key();
                let j = choose|j: int| 0 <= j < d.len() && d[j] == y;
                assert(r[j] == y);
                assert(r.contains(y));
            } else if s.last().vx_key() == s[s.len() - 2].vx_key() {
                assert(d[d.len() - 1] == d.last());
                assert(r.contains(d.last()));
            } else {
                assert(r[r.len() - 1] == s.last());
                assert(r.contains(s.last()));
            }
        }
        assert forall|x: T| r.contains(x) implies s.contains(x) by {
            let j = choose|j: int| 0 <= j < r.len() && r[j] == x;
            if j < d.len() { assert(d[j] == x); assert(d.contains(x)); assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); }
            else { assert(s[s.len() - 1] == x); }
        }
        if s.last().vx_key() != s[s.len() - 2].vx_key() {
            assert(r =~= d.push(s.last()));
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).vx_key() < (#[trigger] r[j]).vx_key() by {
                if j == d.len() {
                    assert(d[i].vx_key() <= d.last().vx_key()) by { if i < d.len() - 1 { assert(d[i].vx_key() < d[d.len() - 1].vx_key()); } }
                    assert(s[s.len() - 2].vx_key() <= s[s.len() - 1].vx_key());
                }
            }
        }
    }
}
}
"""


def clones(names):
    out = ["verus! {"]
    for n in names:
        out.append(f"impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}")
    out.append("}")
    return "\n".join(out)


CLONES = ["SC2Unit", "SC2UnitCmd", "GameSCmdEvent", "ReplayTrackerEvent", "ReplayGameEvent", "UnitPositionsEvent", "GameSMapCoord3D",
          "GameSCmdDataTargetUnit", "GameSCmdData", "GameSCmdAbil", "GameSSelectionDelta"]

SPEC = clones(CLONES) + """
verus! {
// ---------------------------------------------------------------- state
pub open spec fn wf(s: SC2ReplayState) -> bool { forall|k: i64| #[trigger] s.user_state@.contains_key(k) ==> s.user_state@[k].control_groups@.len() == 11 }
pub open spec fn name_of(u: Option<SC2Unit>) -> Option<String> { match u { Some(x) => Some(x.name), None => None } }
pub open spec fn same_rest(a: SC2ReplayState, b: SC2ReplayState) -> bool { a.init_data == b.init_data && a.details == b.details && a.balance_units == b.balance_units }
/// What no event changes: the replay's data and the users' names (C17 relies on it).
pub open spec fn user_names(m: Map<i64, SC2UserState>) -> Map<i64, String> { m.map_values(|u: SC2UserState| u.player_lobby_details.player_details.name) }
pub open spec fn same_names(a: SC2ReplayState, b: SC2ReplayState) -> bool { user_names(a.user_state@) =~= user_names(b.user_state@) }
pub type Units = Map<u32, SC2Unit>;
pub type Users = Map<i64, SC2UserState>;

// the name and size shown for a unit (proved elsewhere or left open)
pub uninterp spec fn ability_name(b: VersionedBalanceUnits, unit: Seq<char>, link: u16, index: i64) -> String;
pub uninterp spec fn unit_look(unit: Seq<char>, user: i64, b: VersionedBalanceUnits) -> (f32, [u8; 4]);
#[verifier::external_body]
pub fn get_indexed_ability_command_name(b: &VersionedBalanceUnits, unit_name: &str, ability_id: u16, command_index: i64) -> (r: String)
    ensures r == ability_name(*b, unit_name@, ability_id, command_index),
{ unimplemented!() }
#[verifier::external_body]
pub fn get_unit_sized_color(unit_name: &str, user_id: i64, b: &VersionedBalanceUnits) -> (r: (f32, [u8; 4]))
    ensures r == unit_look(unit_name@, user_id, *b),
{ unimplemented!() }

pub open spec fn v3(x: f32, y: f32, z: f32) -> Vec3D { Vec3D([x, y, z]) }
pub uninterp spec fn empty_string() -> String;
pub uninterp spec fn default_cmd() -> SC2UnitCmd;
pub open spec fn default_unit() -> SC2Unit {
    SC2Unit { tag_index: 0, last_game_loop: 0, user_id: None, player_name: None, name: empty_string(), pos: v3(0.0f32, 0.0f32, 0.0f32), init_game_loop: 0,
        creator_ability_name: None, creator_tag_index: None, radius: 0.0f32, color: [0u8, 0u8, 0u8, 0u8], is_selected: false, is_init: false, cmd: default_cmd() }
}
impl SC2Unit {
    #[verifier::external_body]
    pub fn default() -> (r: SC2Unit) ensures r == default_unit() { unimplemented!() }
}
pub open spec fn looked(u: SC2Unit, b: VersionedBalanceUnits) -> SC2Unit {
    let l = unit_look(u.name@, (match u.user_id { Some(x) => x, None => 0u8 }) as i64, b);
    SC2Unit { radius: l.0, color: l.1, ..u }
}
/// n is the name of a player bound to the tracker player number p, if there is one.
pub open spec fn player_name(users: Users, p: u8, n: Option<String>) -> bool {
    match n {
        None => forall|k: i64| #[trigger] users.contains_key(k) ==> users[k].player_lobby_details.tracker_setup_player_id != Some(p),
        Some(n) => exists|k: i64| #[trigger] users.contains_key(k) && users[k].player_lobby_details.tracker_setup_player_id == Some(p)
            && users[k].player_lobby_details.player_details.name == n,
    }
}

// ---------------------------------------------------------------- C14: the unit registry
/// A unit first seen now.
pub open spec fn fresh(s: SC2ReplayState, tag: u32, l: i64, owner: Option<u8>, pn: Option<String>, name: String, pos: Vec3D, init: bool) -> SC2Unit {
    looked(SC2Unit { tag_index: tag, last_game_loop: l, user_id: owner, player_name: pn, name, pos, init_game_loop: l, is_init: init, ..default_unit() }, s.balance_units)
}
pub open spec fn at(x: u8, y: u8) -> Vec3D { v3(i2f(x as int), i2f(y as int), 0.0f32) }
pub open spec fn post_init(s: SC2ReplayState, t: SC2ReplayState, l: i64, e: UnitInitEvent, h: UnitChangeHint) -> bool {
    same_rest(s, t) && t.user_state@ == s.user_state@
    && match h { UnitChangeHint::Registered { unit, creator } => {
        let u = *unit;
        creator is None && player_name(s.user_state@, e.control_player_id, u.player_name)
        && u == fresh(s, e.unit_tag_index, l, Some(e.control_player_id), u.player_name, e.unit_type_name, at(e.x, e.y), true)
        && t.units@ =~= (if s.units@.contains_key(e.unit_tag_index) {
            s.units@.insert(e.unit_tag_index, SC2Unit { last_game_loop: l, pos: at(e.x, e.y), is_init: true, name: e.unit_type_name, ..s.units@[e.unit_tag_index] })
        } else { s.units@.insert(e.unit_tag_index, u) }) }, _ => false }
}
/// The registry after the creator, if any, was noted.
pub open spec fn noted(m: Units, creator: Option<u32>, l: i64) -> Units {
    match creator { Some(c) => if m.contains_key(c) { m.insert(c, SC2Unit { last_game_loop: l, ..m[c] }) } else { m }, None => m }
}
pub open spec fn post_born(s: SC2ReplayState, t: SC2ReplayState, l: i64, e: UnitBornEvent, h: UnitChangeHint) -> bool {
    let m = noted(s.units@, e.creator_unit_tag_index, l);
    same_rest(s, t) && t.user_state@ == s.user_state@
    && match h { UnitChangeHint::Registered { unit, creator } => {
        let u = *unit;
        &&& creator == (match e.creator_unit_tag_index { Some(c) => if m.contains_key(c) { Some(m[c]) } else { None }, None => None })
        &&& t.units@ =~= m.insert(e.unit_tag_index, u)
        &&& if m.contains_key(e.unit_tag_index) { u == (SC2Unit { creator_ability_name: e.creator_ability_name, last_game_loop: l, ..m[e.unit_tag_index] }) }
            else { player_name(s.user_state@, e.control_player_id, u.player_name)
                && u == fresh(s, e.unit_tag_index, l, Some(e.control_player_id), u.player_name, e.unit_type_name, at(e.x, e.y), false) } }, _ => false }
}
pub open spec fn post_type(s: SC2ReplayState, t: SC2ReplayState, l: i64, e: UnitTypeChangeEvent, h: UnitChangeHint) -> bool {
    let i = e.unit_tag_index;
    same_rest(s, t) && t.user_state@ == s.user_state@
    && if s.units@.contains_key(i) {
        let u = looked(SC2Unit { name: e.unit_type_name, last_game_loop: l, ..s.units@[i] }, s.balance_units);
        t.units@ =~= s.units@.insert(i, u) && h == (UnitChangeHint::Registered { unit: Box::new(u), creator: Some(s.units@[i]) })
    } else {
        t.units@ =~= s.units@.insert(i, fresh(s, i, l, None, None, e.unit_type_name, v3(0.0f32, 0.0f32, 0.0f32), false)) && h is None
    }
}
pub open spec fn post_done(s: SC2ReplayState, t: SC2ReplayState, l: i64, e: UnitDoneEvent, h: UnitChangeHint) -> bool {
    let i = e.unit_tag_index;
    same_rest(s, t) && t.user_state@ == s.user_state@
    && if s.units@.contains_key(i) {
        let u = looked(SC2Unit { is_init: false, last_game_loop: l, ..s.units@[i] }, s.balance_units);
        t.units@ =~= s.units@.insert(i, u) && h == (UnitChangeHint::Registered { unit: Box::new(u), creator: None })
    } else { t.units@ =~= s.units@ && h is None }
}
/// A group without the unit of index i.
pub open spec fn others(g: Seq<u32>, i: u32) -> Seq<u32>
    decreases g.len()
{ if g.len() == 0 { g } else if tag_index(g.last() as u64) == i { others(g.drop_last(), i) } else { others(g.drop_last(), i).push(g.last()) } }
/// b is a but for the control groups.
pub open spec fn but_groups(a: SC2UserState, b: SC2UserState) -> bool { b == (SC2UserState { control_groups: b.control_groups, ..a }) && a.control_groups@.len() == 11 && b.control_groups@.len() == 11 }
pub open spec fn died_user(a: SC2UserState, b: SC2UserState, i: u32) -> bool {
    but_groups(a, b) && forall|g: int| 0 <= g < 11 ==> (#[trigger] b.control_groups@[g])@ == others(a.control_groups@[g]@, i)
}
pub open spec fn post_died(s: SC2ReplayState, t: SC2ReplayState, e: UnitDiedEvent, h: UnitChangeHint) -> bool {
    let i = e.unit_tag_index;
    same_rest(s, t) && t.units@ =~= s.units@.remove(i)
    && t.user_state@.dom() =~= s.user_state@.dom()
    && (forall|k: i64| #[trigger] s.user_state@.contains_key(k) ==> died_user(s.user_state@[k], t.user_state@[k], i))
    && h == (if s.units@.contains_key(i) {
        UnitChangeHint::Unregistered { killed: Box::new(s.units@[i]), killer: match e.killer_unit_tag_index {
            Some(k) => if t.units@.contains_key(k) { Some(t.units@[k]) } else { None }, None => None } }
    } else { UnitChangeHint::None })
}
/// The user table after a player setup event.
pub open spec fn setup(m: Users, e: PlayerSetupEvent) -> Users {
    match e.user_id { None => m, Some(u) => if m.contains_key(u as i64) {
        let x = m[u as i64];
        m.insert(u as i64, SC2UserState { player_lobby_details: PlayerLobbyDetails { tracker_setup_player_id: Some(e.player_id), tracker_setup_slot_id: e.slot_id, ..x.player_lobby_details }, ..x })
    } else { m } }
}

// ---------------------------------------------------------------- C13: position reports
pub open spec fn placed(u: SC2Unit, p: UnitPosition, l: i64) -> SC2Unit {
    SC2Unit { pos: v3(fdiv(i2f(p.x as int), 4.0f32), fdiv(i2f(p.y as int), 4.0f32), 0.0f32), last_game_loop: l, ..u }
}
/// The registry after the first k entries.
pub open spec fn moved(m: Units, es: Seq<UnitPosition>, k: int, l: i64) -> Units
    decreases k
{ if k <= 0 { m } else { let p = moved(m, es, k - 1, l); let e = es[k - 1]; if p.contains_key(e.tag) { p.insert(e.tag, placed(p[e.tag], e, l)) } else { p } } }
/// The registered units among the first k entries.
pub open spec fn named(m: Units, es: Seq<UnitPosition>, k: int) -> Seq<u32>
    decreases k
{ if k <= 0 { Seq::empty() } else if m.contains_key(es[k - 1].tag) { named(m, es, k - 1).push(es[k - 1].tag) } else { named(m, es, k - 1) } }
/// The units with the given indices.
pub open spec fn those(m: Units, ids: Seq<u32>, k: int) -> Seq<SC2Unit>
    decreases k
{ if k <= 0 { Seq::empty() } else if m.contains_key(ids[k - 1]) { those(m, ids, k - 1).push(m[ids[k - 1]]) } else { those(m, ids, k - 1) } }
pub open spec fn hint_is(h: Seq<SC2Unit>, m: Units, ids: Seq<u32>) -> bool { h == those(m, ids, ids.len() as int) }
pub proof fn lemma_those(m: Units, ids: Seq<u32>, k: int)
    requires 0 <= k <= ids.len(), forall|i: int| 0 <= i < ids.len() ==> m.contains_key(#[trigger] ids[i]),
    ensures those(m, ids, k) =~= Seq::new(k as nat, |i: int| m[ids[i]])
    decreases k
{ if k > 0 { lemma_those(m, ids, k - 1); } }
pub open spec fn post_pos(s: SC2ReplayState, t: SC2ReplayState, l: i64, e: UnitPositionsEvent, h: UnitChangeHint) -> bool {
    let es = expanded(e);
    let n = es.len() as int;
    same_rest(s, t) && t.user_state@ == s.user_state@
    && t.units@ =~= moved(s.units@, es, n, l)
    && match h { UnitChangeHint::Positions(v) => hint_is(v@, t.units@, named(s.units@, es, n)), _ => false }
}
/// No unit appears or disappears, and only units named by the report change.
pub proof fn c13_only_named(m: Units, es: Seq<UnitPosition>, k: int, l: i64)
    requires 0 <= k <= es.len(),
    ensures moved(m, es, k, l).dom() =~= m.dom(),
        forall|i: u32| m.contains_key(i) && !(exists|j: int| 0 <= j < k && (#[trigger] es[j]).tag == i) ==> moved(m, es, k, l)[i] == m[i],
        forall|i: u32| m.contains_key(i) ==> (#[trigger] moved(m, es, k, l)[i]).name == m[i].name && moved(m, es, k, l)[i].user_id == m[i].user_id
            && moved(m, es, k, l)[i].tag_index == m[i].tag_index && moved(m, es, k, l)[i].is_selected == m[i].is_selected,
    decreases k
{
    if k > 0 {
        c13_only_named(m, es, k - 1, l);
        let p = moved(m, es, k - 1, l);
        assert forall|i: u32| m.contains_key(i) && !(exists|j: int| 0 <= j < k && (#[trigger] es[j]).tag == i) implies moved(m, es, k, l)[i] == m[i] by {
            assert(es[k - 1].tag != i);
        }
    }
}

// ---------------------------------------------------------------- C15, C16: selections
/// Some tag of the first k names unit i.
pub open spec fn names(tags: Seq<u32>, k: int, i: u32) -> bool { exists|j: int| 0 <= j < k && tag_index((#[trigger] tags[j]) as u64) == i }
/// What an event does to each unit it is addressed to.
pub enum Op { Mark(bool, i64), Order(GameSCmdEvent, Option<String>, i64, VersionedBalanceUnits), Point(GameSMapCoord3D, i64), Target(GameSCmdDataTargetUnit, i64) }
pub open spec fn named_abil(e: GameSCmdEvent, unit: Seq<char>, b: VersionedBalanceUnits) -> GameSCmdEvent {
    match e.m_abil { None => e, Some(a) => GameSCmdEvent { m_abil: Some(GameSCmdAbil { ability: ability_name(b, unit, a.m_abil_link, a.m_abil_cmd_index), ..a }), ..e } }
}
pub open spec fn done_to(o: Op, u: SC2Unit) -> SC2Unit {
    match o {
        Op::Mark(on, l) => if u.is_selected == on { SC2Unit { last_game_loop: l, ..u } }
            else { SC2Unit { last_game_loop: l, is_selected: on, radius: fmul(u.radius, if on { 2.0f32 } else { 0.5f32 }), ..u } },
        Op::Order(e, n, l, b) => SC2Unit { last_game_loop: l, cmd: SC2UnitCmd { other_unit_name: n, ..cmd_of(named_abil(e, u.name@, b)) }, ..u },
        Op::Point(p, l) => SC2Unit { last_game_loop: l, cmd: SC2UnitCmd { data: SC2UnitCmdData::TargetPoint(map_point(p)), other_unit: None, ..u.cmd }, ..u },
        Op::Target(t, l) => SC2Unit { last_game_loop: l, cmd: SC2UnitCmd { data: SC2UnitCmdData::TargetUnit(target_of(t)), ..u.cmd }, ..u },
    }
}
/// The registry after the operation was applied to the units named by the first k tags, and to no other.
pub open spec fn applied(m: Units, tags: Seq<u32>, k: int, o: Op) -> Units {
    Map::new(m.dom(), |i: u32| if names(tags, k, i) { done_to(o, m[i]) } else { m[i] })
}
pub proof fn lemma_applied(m: Units, tags: Seq<u32>, k: int, o: Op)
    requires 0 <= k < tags.len(),
    ensures ({ let i = tag_index(tags[k] as u64) as u32; let p = applied(m, tags, k, o);
        applied(m, tags, k + 1, o) =~= (if m.contains_key(i) { p.insert(i, done_to(o, p[i])) } else { p })
        && (p.contains_key(i) <==> m.contains_key(i))
        && (m.contains_key(i) ==> done_to(o, p[i]) == done_to(o, m[i]) && p[i].name == m[i].name) }),
{
    let i = tag_index(tags[k] as u64) as u32;
    assert(names(tags, k + 1, i)) by { assert(tag_index(tags[k] as u64) == i); }
    assert forall|x: u32| x != i implies names(tags, k + 1, x) == names(tags, k, x) by {
        if names(tags, k + 1, x) {
            let j = choose|j: int| 0 <= j < k + 1 && tag_index((#[trigger] tags[j]) as u64) == x;
            assert(j < k);
        }
    }
    assert(done_to(o, done_to(o, m[i])) == done_to(o, m[i]));
}
pub proof fn lemma_applied0(m: Units, tags: Seq<u32>, o: Op) ensures applied(m, tags, 0, o) =~= m {}
/// The indices of the registered units named by the first k tags whose mark is not `on`, in order.
pub open spec fn flipped(m: Units, tags: Seq<u32>, k: int, on: bool) -> Seq<u32>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        let i = tag_index(tags[k - 1] as u64) as u32;
        let p = flipped(m, tags, k - 1, on);
        if m.contains_key(i) && m[i].is_selected != on && !names(tags, k - 1, i) { p.push(i) } else { p }
    }
}
/// The results of the operation on the registered units named by the first k tags, in order.
pub open spec fn addressed(m: Units, tags: Seq<u32>, k: int, o: Op) -> Seq<SC2Unit>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        let i = tag_index(tags[k - 1] as u64) as u32;
        let p = addressed(m, tags, k - 1, o);
        if m.contains_key(i) { p.push(done_to(o, m[i])) } else { p }
    }
}
/// The ability name returned with a command: that of the last addressed unit.
pub open spec fn enriched(e: GameSCmdEvent, m: Units, tags: Seq<u32>, k: int, b: VersionedBalanceUnits) -> GameSCmdEvent
    decreases k
{
    if k <= 0 { e } else {
        let i = tag_index(tags[k - 1] as u64) as u32;
        if m.contains_key(i) { named_abil(e, m[i].name@, b) } else { enriched(e, m, tags, k - 1, b) }
    }
}
pub proof fn lemma_enriched(e: GameSCmdEvent, m: Units, tags: Seq<u32>, k: int, b: VersionedBalanceUnits)
    requires 0 <= k <= tags.len(), e.m_abil is Some,
    ensures enriched(e, m, tags, k, b).m_abil is Some, forall|n: Seq<char>| #[trigger] named_abil(enriched(e, m, tags, k, b), n, b) == named_abil(e, n, b),
    decreases k
{
    if k > 0 { lemma_enriched(e, m, tags, k - 1, b); }
}
/// A unit is reported exactly once when its mark changes.
pub proof fn c16_flipped(m: Units, tags: Seq<u32>, k: int, on: bool)
    requires 0 <= k <= tags.len(),
    ensures flipped(m, tags, k, on).no_duplicates(),
        forall|i: u32| #[trigger] flipped(m, tags, k, on).contains(i) <==> m.contains_key(i) && names(tags, k, i) && m[i].is_selected != on,
    decreases k
{
    if k > 0 {
        c16_flipped(m, tags, k - 1, on);
        let x = tag_index(tags[k - 1] as u64) as u32;
        let p = flipped(m, tags, k - 1, on);
        let q = flipped(m, tags, k, on);
        assert(p.contains(x) ==> names(tags, k - 1, x));
        assert(forall|j: int| 0 <= j < p.len() ==> p.contains(#[trigger] p[j]));
        assert forall|i: u32| q.contains(i) <==> m.contains_key(i) && names(tags, k, i) && m[i].is_selected != on by {
            assert(names(tags, k, x)) by { assert(tag_index(tags[k - 1] as u64) == x); }
            if i != x {
                assert(names(tags, k, i) == names(tags, k - 1, i)) by {
                    if names(tags, k, i) { let j = choose|j: int| 0 <= j < k && tag_index((#[trigger] tags[j]) as u64) == i; assert(j < k - 1); }
                }
                assert(q.contains(i) == p.contains(i)) by {
                    if p.contains(i) { let j = choose|j: int| 0 <= j < p.len() && p[j] == i; assert(q[j] == i); }
                    if q.contains(i) { let j = choose|j: int| 0 <= j < q.len() && q[j] == i; assert(p[j] == i); }
                }
            } else {
                assert(names(tags, k, i));
                if m.contains_key(i) && m[i].is_selected != on && !names(tags, k - 1, i) { assert(q[q.len() - 1] == i); }
                else if p.contains(i) { let j = choose|j: int| 0 <= j < p.len() && p[j] == i; assert(q[j] == i); }
            }
        }
    }
}
pub open spec fn group(m: Users, u: i64, g: int) -> Seq<u32> { m[u].control_groups@[g]@ }
/// The current selection of a user (empty for an unknown user).
pub open spec fn selection(m: Users, u: i64) -> Seq<u32> { if m.contains_key(u) { group(m, u, 10) } else { Seq::empty() } }
/// The registry after a user's selection lost its marks.
pub open spec fn unmarked(s: SC2ReplayState, u: i64, l: i64) -> Units { let g = selection(s.user_state@, u); applied(s.units@, g, g.len() as int, Op::Mark(false, l)) }
/// The users after groups of user u were replaced by those of g; every other user and field stays.
pub open spec fn regrouped(a: Users, b: Users, u: i64, g: spec_fn(int) -> Seq<u32>) -> bool {
    if !a.contains_key(u) { b == a } else {
        b == a.insert(u, b[u]) && but_groups(a[u], b[u]) && forall|i: int| 0 <= i < 11 ==> (#[trigger] b[u].control_groups@[i])@ == g(i)
    }
}
/// s without the elements of x.
pub open spec fn without(s: Seq<u32>, x: Seq<u32>) -> Seq<u32>
    decreases s.len()
{ if s.len() == 0 { s } else if x.contains(s.last()) { without(s.drop_last(), x) } else { without(s.drop_last(), x).push(s.last()) } }
pub open spec fn without1(s: Seq<u32>, x: u32) -> Seq<u32>
    decreases s.len()
{ if s.len() == 0 { s } else if x == s.last() { without1(s.drop_last(), x) } else { without1(s.drop_last(), x).push(s.last()) } }
pub proof fn lemma_without(s: Seq<u32>, x: Seq<u32>, k: int)
    requires 0 <= k < x.len(),
    ensures without1(without(s, x.take(k)), x[k]) == without(s, x.take(k + 1)),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_without(s.drop_last(), x, k);
        let a = without(s.drop_last(), x.take(k));
        let y = s.last();
        assert(x.take(k + 1) =~= x.take(k).push(x[k]));
        assert(x.take(k + 1).contains(y) <==> x.take(k).contains(y) || y == x[k]) by {
            if x.take(k).contains(y) { let j = choose|j: int| 0 <= j < k && x.take(k)[j] == y; assert(x.take(k + 1)[j] == y); }
            if y == x[k] { assert(x.take(k + 1)[k] == y); }
        }
        if !x.take(k).contains(y) { assert(a.push(y).drop_last() =~= a); }
    }
}
pub proof fn lemma_without0(s: Seq<u32>, x: Seq<u32>) requires x.len() == 0 ensures without(s, x) == s decreases s.len()
{ if s.len() > 0 { lemma_without0(s.drop_last(), x); assert(s.drop_last().push(s.last()) =~= s); } }
pub open spec fn union_of(r: Seq<u32>, a: Seq<u32>, b: Seq<u32>) -> bool {
    strict(r) && forall|x: u32| r.contains(x) <==> a.contains(x) || b.contains(x)
}
pub proof fn lemma_union(c: Seq<u32>, d: Seq<u32>, a: Seq<u32>, b: Seq<u32>)
    requires sorted(d), forall|x: u32| d.contains(x) <==> c.contains(x), c == a + b,
    ensures union_of(dedup(d), a, b),
{
    lemma_dedup(d);
    assert forall|x: u32| dedup(d).contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let j = choose|j: int| 0 <= j < a.len() && a[j] == x; assert(c[j] == x); }
        if b.contains(x) { let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert(c[a.len() + j] == x); }
        if c.contains(x) { let j = choose|j: int| 0 <= j < c.len() && c[j] == x; if j < a.len() { assert(a[j] == x); } else { assert(b[j - a.len()] == x); } }
        if d.contains(x) { let y = choose|y: u32| #[trigger] dedup(d).contains(y) && y.vx_key() == x.vx_key(); assert(y == x); }
    }
}
pub open spec fn stealing(e: GameEControlGroupUpdate) -> bool { e is ESetAndSteal || e is EAppendAndSteal }
/// Group i of a user after a control group event naming group n, where it is determined element by element.
pub open spec fn group_after(m: Users, u: i64, e: GameEControlGroupUpdate, n: int, i: int) -> Seq<u32> {
    let sel = group(m, u, 10);
    let g = if stealing(e) && i < 10 { without(group(m, u, i), sel) } else { group(m, u, i) };
    if e is ERecall { if i == 10 { group(m, u, n) } else { g } }
    else if i != n { g }
    else if e is ESet || e is ESetAndSteal { sel }
    else if e is EClear { Seq::empty() }
    else { g }   // EAppend*: the base of the union
}
pub open spec fn post_groups(a: Users, b: Users, u: i64, e: GameSControlGroupUpdateEvent) -> bool {
    let n = e.m_control_group_index as int;
    let k = e.m_control_group_update;
    if n > 10 || !a.contains_key(u) { b == a } else {
        &&& b == a.insert(u, b[u]) && but_groups(a[u], b[u])
        &&& forall|i: int| 0 <= i < 11 ==> if i == n && (k is EAppend || k is EAppendAndSteal) { union_of((#[trigger] b[u].control_groups@[i])@, group_after(a, u, k, n, i), group(a, u, 10)) }
                else { b[u].control_groups@[i]@ == group_after(a, u, k, n, i) }
    }
}
/// Nothing but cameras moved.
pub open spec fn same_groups(a: Users, b: Users) -> bool {
    b.dom() =~= a.dom() && forall|k: i64| #[trigger] a.contains_key(k) ==> b[k] == (SC2UserState { camera_pos: b[k].camera_pos, ..a[k] })
}
pub open spec fn post_delta_groups(a: Users, b: Users, u: i64, e: GameSSelectionDeltaEvent) -> bool {
    let n = e.m_control_group_id as int;
    let now = e.m_delta.m_add_unit_tags@;
    if n <= 10 && a.contains_key(u) { regrouped(a, b, u, |i: int| if i == n { now } else { group(a, u, i) }) } else { b =~= a }
}
pub open spec fn post_group_units(s: SC2ReplayState, t: SC2ReplayState, l: i64, u: i64, e: GameSControlGroupUpdateEvent, h: UnitChangeHint) -> bool {
    let n = e.m_control_group_index as int;
    let sel = selection(s.user_state@, u);
    let m1 = unmarked(s, u, l);
    let f1 = flipped(s.units@, sel, sel.len() as int, false);
    let now = if e.m_control_group_update is ERecall && s.user_state@.contains_key(u) { group(s.user_state@, u, n) } else { Seq::empty() };
    let f2 = flipped(m1, now, now.len() as int, true);
    match h { UnitChangeHint::Selection(v) =>
        if n > 10 { t.units@ =~= s.units@ && v@.len() == 0 }
        else {
            t.units@ =~= applied(m1, now, now.len() as int, Op::Mark(true, l))
            && v@ == those(m1, f1, f1.len() as int) + those(t.units@, f2, f2.len() as int)
        }, _ => false }
}
pub open spec fn post_delta(s: SC2ReplayState, t: SC2ReplayState, l: i64, u: i64, e: GameSSelectionDeltaEvent, h: UnitChangeHint) -> bool {
    let n = e.m_control_group_id as int;
    let now = e.m_delta.m_add_unit_tags@;
    let sel = selection(s.user_state@, u);
    let m1 = unmarked(s, u, l);
    let f1 = flipped(s.units@, sel, sel.len() as int, false);
    let f2 = flipped(m1, now, now.len() as int, true);
    let changed = those(m1, f1, f1.len() as int) + those(t.units@, f2, f2.len() as int);
    match h { UnitChangeHint::Selection(v) =>
        if n != 10 { t.units@ =~= s.units@ && v@.len() == 0 }
        else {
            t.units@ =~= applied(m1, now, now.len() as int, Op::Mark(true, l)) && strict(v@)
            && (forall|x: SC2Unit| v@.contains(x) ==> changed.contains(x))
            && (forall|x: SC2Unit| changed.contains(x) ==> exists|y: SC2Unit| #[trigger] v@.contains(y) && y.tag_index == x.tag_index)
        }, _ => false }
}
/// The unit a tag refers to: by the tag itself, else by the index in it.
pub open spec fn found(m: Units, tag: u32) -> Option<SC2Unit> {
    if m.contains_key(tag) { Some(m[tag]) } else { let i = tag_index(tag as u64) as u32; if m.contains_key(i) { Some(m[i]) } else { None } }
}
pub open spec fn cmd_target(m: Units, d: GameSCmdData) -> Option<SC2Unit> { match d { GameSCmdData::TargetUnit(t) => found(m, t.m_tag), _ => None } }
pub open spec fn post_cmd(s: SC2ReplayState, t: SC2ReplayState, l: i64, u: i64, e: GameSCmdEvent, r: (ReplayGameEvent, UnitChangeHint)) -> bool {
    let sel = selection(s.user_state@, u);
    let tg = cmd_target(s.units@, e.m_data);
    let o = Op::Order(e, name_of(tg), l, s.balance_units);
    let e2 = if e.m_abil is None { e } else { enriched(e, s.units@, sel, sel.len() as int, s.balance_units) };
    same_rest(s, t) && t.user_state@ == s.user_state@
    && t.units@ =~= (if e.m_abil is None { s.units@ } else { applied(s.units@, sel, sel.len() as int, o) })
    && r.0 == ReplayGameEvent::Cmd(e2)
    && match r.1 { UnitChangeHint::Abilities { units, event, target } =>
        units@ == (if e.m_abil is None { Seq::empty() } else { addressed(s.units@, sel, sel.len() as int, o) }) && event == e2 && target == tg, _ => false }
}
pub open spec fn post_point(s: SC2ReplayState, t: SC2ReplayState, l: i64, u: i64, e: GameSCmdUpdateTargetPointEvent, h: UnitChangeHint) -> bool {
    let sel = selection(s.user_state@, u);
    let o = Op::Point(e.m_target, l);
    same_rest(s, t) && t.user_state@ == s.user_state@ && t.units@ =~= applied(s.units@, sel, sel.len() as int, o)
    && match h { UnitChangeHint::TargetPoints(v) => v@ == addressed(s.units@, sel, sel.len() as int, o), _ => false }
}
pub open spec fn post_target(s: SC2ReplayState, t: SC2ReplayState, l: i64, u: i64, e: GameSCmdUpdateTargetUnitEvent, h: UnitChangeHint) -> bool {
    let sel = selection(s.user_state@, u);
    let o = Op::Target(e.m_target, l);
    same_rest(s, t) && t.user_state@ == s.user_state@
    && match found(s.units@, e.m_target.m_tag) {
        None => t.units@ =~= s.units@ && h is None,
        Some(x) => t.units@ =~= applied(s.units@, sel, sel.len() as int, o)
            && match h { UnitChangeHint::TargetUnits { units, target } => units@ == addressed(s.units@, sel, sel.len() as int, o) && *target == x, _ => false },
    }
}

// ---------------------------------------------------------------- the order stored in a unit
pub open spec fn map_point(c: GameSMapCoord3D) -> Vec3D {
    v3(fdiv(i2f(c.x as int), 4096.0f32), fdiv(fneg(i2f(c.y as int)), 4096.0f32), fdiv(i2f(c.z as int), 4096.0f32))
}
pub open spec fn target_of(t: GameSCmdDataTargetUnit) -> SC2UnitCmdDataTargetUnit {
    SC2UnitCmdDataTargetUnit { target_unit_flags: t.m_target_unit_flags, timer: t.m_timer, tag: t.m_tag, snapshot_unit_link: t.m_snapshot_unit_link,
        snapshot_control_player_id: t.m_snapshot_control_player_id, snapshot_upkeep_player_id: t.m_snapshot_upkeep_player_id,
        snapshot_point: map_point(t.m_snapshot_point) }
}
pub open spec fn data_of(d: GameSCmdData) -> SC2UnitCmdData {
    match d { GameSCmdData::None => SC2UnitCmdData::None, GameSCmdData::TargetPoint(p) => SC2UnitCmdData::TargetPoint(map_point(p)),
        GameSCmdData::TargetUnit(u) => SC2UnitCmdData::TargetUnit(target_of(u)), GameSCmdData::Data(x) => SC2UnitCmdData::Data(x) }
}
pub open spec fn abil_of(a: GameSCmdAbil) -> SC2UnitCmdAbil {
    SC2UnitCmdAbil { abil_link: a.m_abil_link, ability: a.ability, abil_cmd_index: a.m_abil_cmd_index, abil_cmd_data: a.m_abil_cmd_data }
}
pub open spec fn cmd_of(e: GameSCmdEvent) -> SC2UnitCmd {
    SC2UnitCmd { cmd_flags: e.m_cmd_flags, abil: match e.m_abil { Some(a) => Some(abil_of(a)), None => None }, data: data_of(e.m_data), sequence: e.m_sequence,
        other_unit: e.m_other_unit, other_unit_name: None, unit_group: e.m_unit_group }
}
/// While a unit is marked its radius is doubled, afterwards it is halved again; nothing else of it changes.
pub proof fn c16_mark_frame(u: SC2Unit, on: bool, l: i64)
    ensures ({ let v = done_to(Op::Mark(on, l), u); v.is_selected == on && v.name == u.name && v.pos == u.pos && v.user_id == u.user_id && v.cmd == u.cmd && v.is_init == u.is_init
        && v.tag_index == u.tag_index && (u.is_selected == on ==> v.radius == u.radius) }),
{}
/// Setup of tracker player numbers changes nothing but the binding of one user.
pub proof fn c14_setup_frame(m: Users, e: PlayerSetupEvent)
    ensures setup(m, e).dom() =~= m.dom(), forall|k: i64| m.contains_key(k) && e.user_id != Some(k as u32) ==> #[trigger] setup(m, e)[k] == m[k] || k != k as u32 as i64,
        forall|k: i64| m.contains_key(k) ==> (#[trigger] setup(m, e)[k]).control_groups == m[k].control_groups,
{}
}
"""

B = "broadcast use {ax_vec, ax_string, lemma_concat, lemma_deduped};"


def F(*a, **k):
    k.setdefault("std", True)
    p = k.pop("pre", "")
    return Fn(*a, pre=B + p, attrs="#[verifier::loop_isolation(false)]\n", **k)


def those_loop(n, ids, m="sc2_state.units@"):
    return {n: f"""        invariant
            vx_i{n} <= vx_n{n}, vx_n{n} == vx_v{n}@.len(), vx_v{n}@ == {ids}@,
            vx_out@ == those({m}, {ids}@, vx_i{n} as int),
        decreases vx_n{n} - vx_i{n},"""}


def inv(n, seq, body):
    return {n: f"""        invariant
            vx_i{n} <= vx_n{n}, vx_n{n} == vx_v{n}@.len(), vx_v{n}@ == {seq},
            {body}
        decreases vx_n{n} - vx_i{n},"""}


WF = "    requires wf(*old(sc2_state)),\n"
ST0 = "let ghost s0 = *sc2_state;"

# ------------------------------------------------------------------------------------------------ fns
UTI = S.C12[1]
EXPAND = S.C13_EXPAND
V3NEW = F("common.rs", "Vec3D::new", spec="    ensures res == v3(x, y, z),")
PROPS_FN = F(ST, "SC2Unit::set_unit_props", spec="    ensures *final(self) == looked(*old(self), *balance_units),", subst=[(r"& self \. name", "self.name.as_str()")])
PNAME = F(TS, "get_player_name_by_tracker_control_player_id", spec="    ensures player_name(user_state@, tracker_control_player_id, res),",
          pre="let ghost users = user_state@;",
          inv=inv(0, "vx_vals@", "forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] vx_vals@[j]).player_lobby_details.tracker_setup_player_id != Some(tracker_control_player_id),"))
POSITION = F(TS, "handle_unit_position", spec="    ensures post_pos(*old(sc2_state), *final(sc2_state), game_loop, unit_pos, res.1), res.0 == ReplayTrackerEvent::UnitPosition(unit_pos),",
             pre=ST0 + "let ghost es = expanded(unit_pos);",
             inv={**inv(0, "es", """same_rest(s0, *sc2_state), sc2_state.user_state@ == s0.user_state@, sc2_state.units@.dom() == s0.units@.dom(),
            sc2_state.units@ == moved(s0.units@, es, vx_i0 as int, game_loop), updated_unit_ids@ == named(s0.units@, es, vx_i0 as int),"""),
                  **those_loop(1, "updated_unit_ids")},
             le={0: "proof { assert(sc2_state.units@ =~= moved(s0.units@, es, vx_i0 as int, game_loop)); assert(sc2_state.units@.dom() =~= s0.units@.dom()); }"})
INIT = F(TS, "handle_unit_init", spec="    ensures post_init(*old(sc2_state), *final(sc2_state), game_loop, unit_init, res.1), res.0 == ReplayTrackerEvent::UnitInit(unit_init),")
BORN = F(TS, "handle_unit_born", spec="    ensures post_born(*old(sc2_state), *final(sc2_state), game_loop, unit_born, res.1), res.0 == ReplayTrackerEvent::UnitBorn(unit_born),")
TYPE = F(TS, "handle_unit_type_change", spec="    ensures post_type(*old(sc2_state), *final(sc2_state), game_loop, unit_change, res.1), res.0 == ReplayTrackerEvent::UnitTypeChange(unit_change),")
DONE = F(TS, "handle_unit_done", spec="    ensures post_done(*old(sc2_state), *final(sc2_state), game_loop, unit_done, res.1), res.0 == ReplayTrackerEvent::UnitDone(unit_done),")
DIED = F(TS, "handle_unit_died", spec=WF + "    ensures wf(*final(sc2_state)), post_died(*old(sc2_state), *final(sc2_state), unit_dead, res.1), res.0 == ReplayTrackerEvent::UnitDied(unit_dead),",
         pre=ST0 + "let ghost dead = unit_dead.unit_tag_index;",
         inv={2: """        invariant
            vx_i2 <= vx_n2, vx_n2 == vx_v2@.len(), vx_v2@ == vx_ks@, vx_ks@.no_duplicates(), forall|k: i64| vx_ks@.contains(k) ==> s0.user_state@.contains_key(k),
            forall|k: i64| #[trigger] s0.user_state@.contains_key(k) ==> vx_ks@.contains(k),
            forall|k: i64| #[trigger] sc2_state.user_state@.contains_key(k) ==> vx_ks@.contains(k),
            same_rest(s0, *sc2_state), sc2_state.units@ == s0.units@, sc2_state.user_state@.dom() == s0.user_state@.dom(),
            forall|j: int| 0 <= j < vx_i2 ==> died_user(s0.user_state@[#[trigger] vx_ks@[j]], sc2_state.user_state@[vx_ks@[j]], dead),
            forall|j: int| vx_i2 <= j < vx_n2 ==> sc2_state.user_state@[#[trigger] vx_ks@[j]] == s0.user_state@[vx_ks@[j]],
        decreases vx_n2 - vx_i2,""",
              1: """        invariant
            0 <= vx_i1 <= 11, vx_n1 == 11, but_groups(u0, *state),
            forall|g: int| 0 <= g < vx_i1 ==> (#[trigger] state.control_groups@[g])@ == others(u0.control_groups@[g]@, dead),
            forall|g: int| vx_i1 <= g < 11 ==> (#[trigger] state.control_groups@[g])@ == u0.control_groups@[g]@,
        decreases 11 - vx_i1,""",
              **inv(0, "vx_old@", "vx_old@ == u0.control_groups@[group_idx as int]@, vx_out@ == others(vx_old@.take(vx_i0 as int), dead),")},
         lets={("_idx", 0): "let ghost u0 = s0.user_state@[*vx_e]; proof { assert(vx_ks@.contains(*vx_e)); }",
               ("vx_out", 0): "proof { assert(vx_old@.take(0) =~= Seq::empty()); assert(vx_old@.take(vx_old@.len() as int) =~= vx_old@); }"},
         ls={0: "let ghost i = vx_i0 as int; proof { assert(vx_old@.take(i + 1).drop_last() =~= vx_old@.take(i)); assert(vx_old@.take(i + 1).last() == vx_old@[i]); }"},
         le={2: "proof { assert(sc2_state.user_state@.dom() =~= s0.user_state@.dom()); }"},
         )
TRACKER = F(TS, "handle_tracker_event", spec=WF + """    ensures wf(*final(sc2_state)),
        evt matches ReplayTrackerEvent::UnitBorn(e) ==> post_born(*old(sc2_state), *final(sc2_state), tracker_loop, e, res.1) && res.0 == evt,
        evt matches ReplayTrackerEvent::UnitInit(e) ==> post_init(*old(sc2_state), *final(sc2_state), tracker_loop, e, res.1) && res.0 == evt,
        evt matches ReplayTrackerEvent::UnitTypeChange(e) ==> post_type(*old(sc2_state), *final(sc2_state), tracker_loop, e, res.1) && res.0 == evt,
        evt matches ReplayTrackerEvent::UnitDone(e) ==> post_done(*old(sc2_state), *final(sc2_state), tracker_loop, e, res.1) && res.0 == evt,
        evt matches ReplayTrackerEvent::UnitDied(e) ==> post_died(*old(sc2_state), *final(sc2_state), e, res.1) && res.0 == evt,
        evt matches ReplayTrackerEvent::UnitPosition(e) ==> post_pos(*old(sc2_state), *final(sc2_state), tracker_loop, e, res.1) && res.0 == evt,
        evt matches ReplayTrackerEvent::PlayerSetup(e) ==> same_rest(*old(sc2_state), *final(sc2_state)) && final(sc2_state).units@ == old(sc2_state).units@
                && final(sc2_state).user_state@ =~= setup(old(sc2_state).user_state@, e) && res.1 is None && res.0 == evt,
        evt matches ReplayTrackerEvent::Upgrade(e) ==> *final(sc2_state) == *old(sc2_state) && res.1 is None
                && match res.0 { ReplayTrackerEvent::Upgrade(f) => f == (UpgradeEvent { player_name: f.player_name, ..e }) && player_name(old(sc2_state).user_state@, e.player_id, f.player_name), _ => false },
        !(evt is UnitBorn || evt is UnitInit || evt is UnitTypeChange || evt is UnitDone || evt is UnitDied || evt is UnitPosition || evt is PlayerSetup || evt is Upgrade) ==> *final(sc2_state) == *old(sc2_state) && res.0 == evt && res.1 is None,
        """)

MARK_INV = """same_rest(s0, *sc2_state), sc2_state.user_state@ == s0.user_state@,
            sc2_state.units@ == applied(s0.units@, tags, vx_i0 as int, op), updated_unit_ids@ == flipped(s0.units@, tags, vx_i0 as int, %s),"""
MARK_LE = "proof { lemma_applied(s0.units@, tags, vx_i0 - 1, op); assert(sc2_state.units@ =~= applied(s0.units@, tags, vx_i0 as int, op)); }"
MARK_POST = "    ensures same_rest(*old(sc2_state), *final(sc2_state)), final(sc2_state).user_state@ == old(sc2_state).user_state@,\n"
FRAME_INV = "vx_i%d <= vx_n%d, vx_n%d == vx_v%d@.len(),"
# The functions shared by C15 and C16 are proved against both postconditions, each in the unit of its property:
# aspect "groups" says what happens to the users' groups (C15), aspect "units" what happens to the registry (C16).


def unmark(aspect):
    spec = WF + MARK_POST
    if aspect == "groups":
        return F(GS, "unmark_previously_selected_units", spec=spec + "        res is Selection,", pre=ST0,
                 inv={0: "        invariant\n            " + FRAME_INV % (0, 0, 0, 0) + " *state == s0.user_state@[user_id], s0.init_data == sc2_state.init_data, s0.details == sc2_state.details, s0.balance_units == sc2_state.balance_units,\n        decreases vx_n0 - vx_i0,",
                      1: "        invariant\n            " + FRAME_INV % (1, 1, 1, 1) + "\n        decreases vx_n1 - vx_i1,"},
                 lets={("updated_units", 0): "proof { assert(sc2_state.user_state@ =~= s0.user_state@); }"})
    return F(GS, "unmark_previously_selected_units", spec=spec + """        final(sc2_state).units@ =~= unmarked(*old(sc2_state), user_id, game_loop),
        match res { UnitChangeHint::Selection(v) => { let g = selection(old(sc2_state).user_state@, user_id);
            hint_is(v@, final(sc2_state).units@, flipped(old(sc2_state).units@, g, g.len() as int, false)) }, _ => false },""",
             pre=ST0 + "let ghost tags = selection(s0.user_state@, user_id); let ghost op = Op::Mark(false, game_loop); proof { lemma_applied0(s0.units@, tags, op); }",
             inv={**inv(0, "tags", "*state == s0.user_state@[user_id], s0.init_data == sc2_state.init_data, s0.details == sc2_state.details, s0.balance_units == sc2_state.balance_units, sc2_state.units@ == applied(s0.units@, tags, vx_i0 as int, op), updated_unit_ids@ == flipped(s0.units@, tags, vx_i0 as int, false),"),
                  **those_loop(1, "updated_unit_ids")}, le={0: MARK_LE}, lets={("updated_units", 0): "proof { assert(sc2_state.user_state@ =~= s0.user_state@); }"})


def mark(aspect):
    if aspect == "groups":
        return F(GS, "mark_selected_units", spec=MARK_POST + "        res is Selection,", pre=ST0,
                 inv={0: "        invariant\n            " + FRAME_INV % (0, 0, 0, 0) + " same_rest(s0, *sc2_state), sc2_state.user_state@ == s0.user_state@,\n        decreases vx_n0 - vx_i0,",
                      1: "        invariant\n            " + FRAME_INV % (1, 1, 1, 1) + "\n        decreases vx_n1 - vx_i1,"})
    return F(GS, "mark_selected_units", spec=MARK_POST + """        final(sc2_state).units@ =~= applied(old(sc2_state).units@, selected_units@, selected_units@.len() as int, Op::Mark(true, game_loop)),
        match res { UnitChangeHint::Selection(v) => hint_is(v@, final(sc2_state).units@, flipped(old(sc2_state).units@, selected_units@, selected_units@.len() as int, true)), _ => false },""",
             pre=ST0 + "let ghost tags = selected_units@; let ghost op = Op::Mark(true, game_loop); proof { lemma_applied0(s0.units@, tags, op); }",
             inv={**inv(0, "tags", MARK_INV % "true"), **those_loop(1, "updated_unit_ids")}, le={0: MARK_LE})


DELTA_PRE = "let ghost sel = selection(s0.user_state@, user_id); let ghost f1 = flipped(s0.units@, sel, sel.len() as int, false); let ghost m1 = unmarked(s0, user_id, game_loop); let ghost now = selection_delta.m_delta.m_add_unit_tags@; let ghost f2 = flipped(m1, now, now.len() as int, true); proof { assert(Seq::<SC2Unit>::empty() + Seq::<SC2Unit>::empty() =~= Seq::<SC2Unit>::empty()); }"


def delta(aspect):
    spec = WF + "    ensures wf(*final(sc2_state)), same_rest(*old(sc2_state), *final(sc2_state)), res.0 == ReplayGameEvent::SelectionDelta(selection_delta),\n"
    if aspect == "groups":
        return F(GS, "handle_selection_delta", spec=spec + "        post_delta_groups(old(sc2_state).user_state@, final(sc2_state).user_state@, user_id, selection_delta),", pre=ST0)
    return F(GS, "handle_selection_delta", spec=spec + "        post_delta(*old(sc2_state), *final(sc2_state), game_loop, user_id, selection_delta, res.1),", pre=ST0 + DELTA_PRE,
             lets={("unmarked_units", 0): "proof { assert(sc2_state.units@ == m1); assert(unmarked_units@ == those(m1, f1, f1.len() as int)); }",
                   ("marked_units", 0): "proof { assert(marked_units@ == those(sc2_state.units@, f2, f2.len() as int)); assert(updated_units@ =~= those(m1, f1, f1.len() as int)); }"})


def steal_inv(n):
    a, b, c = n, n + 1, n + 2
    rest = """forall|g: int| 0 <= g < %s ==> (#[trigger] user_state.control_groups@[g])@ == without(u0.control_groups@[g]@, sel),
            forall|g: int| %s <= g < 11 ==> (#[trigger] user_state.control_groups@[g])@ == u0.control_groups@[g]@,"""
    return {
        c: f"""        invariant
            0 <= vx_i{c} <= 10, vx_n{c} == 10, but_groups(u0, **user_state), current_selected_units@ == sel,
            {rest % (f"vx_i{c}", f"vx_i{c}")}
        decreases 10 - vx_i{c},""",
        **inv(b, "sel", f"""but_groups(u0, **user_state), {rest % ("group_idx", "group_idx < g && 0")}
            user_state.control_groups@[group_idx as int]@ == without(u0.control_groups@[group_idx as int]@, sel.take(vx_i{b} as int)),"""),
        **inv(a, "vx_old@", f"vx_out@ == without1(vx_old@.take(vx_i{a} as int), *unit),"),
    }


STEAL_OUT = "proof { assert(vx_old@.take(0) =~= Seq::empty()); assert(vx_old@.take(vx_old@.len() as int) =~= vx_old@); }"


def steal_ls(n):
    return f"let ghost i = vx_i{n} as int; proof {{ assert(vx_old@.take(i + 1).drop_last() =~= vx_old@.take(i)); assert(vx_old@.take(i + 1).last() == vx_old@[i]); }}"


def steal_start(n):
    return f"proof {{ lemma_without0(u0.control_groups@[vx_i{n} as int]@, sel.take(0)); assert(sel.take(sel.len() as int) =~= sel); }}"


def steal_le(n):
    return f"proof {{ lemma_without(u0.control_groups@[group_idx as int]@, sel, vx_i{n + 1} - 1); assert(sel.take(sel.len() as int) =~= sel); }}"


def weak_inv(n):
    a, b, c = n, n + 1, n + 2
    return {c: f"        invariant\n            0 <= vx_i{c} <= 10, vx_n{c} == 10, but_groups(u0, **user_state),\n        decreases 10 - vx_i{c},",
            b: f"        invariant\n            {FRAME_INV % (b, b, b, b)} but_groups(u0, **user_state),\n        decreases vx_n{b} - vx_i{b},",
            a: f"        invariant\n            {FRAME_INV % (a, a, a, a)}\n        decreases vx_n{a} - vx_i{a},"}


def ctrl(aspect):
    spec = WF + "    ensures wf(*final(sc2_state)), same_rest(*old(sc2_state), *final(sc2_state)), res.0 == ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),\n"
    pre = ST0 + "let ghost u0 = s0.user_state@[user_id]; let ghost sel = selection(s0.user_state@, user_id);"
    if aspect == "groups":
        return F(GS, "update_control_group", spec=spec + "        post_groups(old(sc2_state).user_state@, final(sc2_state).user_state@, user_id, ctrl_group_evt),", pre=pre,
                 inv={**steal_inv(0), **steal_inv(3)}, ls={0: steal_ls(0), 3: steal_ls(3), 2: steal_start(2), 5: steal_start(5)}, le={1: steal_le(0), 4: steal_le(3)},
                 lets={("vx_out", 0): STEAL_OUT, ("vx_out", 1): STEAL_OUT})
    return F(GS, "update_control_group", spec=spec + "        post_group_units(*old(sc2_state), *final(sc2_state), game_loop, user_id, ctrl_group_evt, res.1),", pre=pre,
             inv={**weak_inv(0), **weak_inv(3)})


CMD = F(GS, "handle_cmd", spec=WF + "    ensures wf(*final(sc2_state)), post_cmd(*old(sc2_state), *final(sc2_state), game_loop, user_id, cmd, res),",
        pre=ST0 + "let ghost e0 = cmd; let ghost tags = selection(s0.user_state@, user_id);",
        lets={("unit_index", 0): "let ghost p = sc2_state.units@; let ghost c0 = cmd;", ("user_selected_units", 0): "let ghost op = Op::Order(e0, name_of(target), game_loop, s0.balance_units); proof { lemma_applied0(s0.units@, tags, op); }"},
        inv=inv(0, "tags", """same_rest(s0, *sc2_state), sc2_state.user_state@ == s0.user_state@, cmd.m_abil is None == e0.m_abil is None,
            sc2_state.units@ == (if e0.m_abil is None { s0.units@ } else { applied(s0.units@, tags, vx_i0 as int, op) }),
            user_selected_units@ == (if e0.m_abil is None { Seq::empty() } else { addressed(s0.units@, tags, vx_i0 as int, op) }),
            cmd == (if e0.m_abil is None { e0 } else { enriched(e0, s0.units@, tags, vx_i0 as int, s0.balance_units) }),"""),
        ls={0: "proof { if e0.m_abil is Some { lemma_applied(s0.units@, tags, vx_i0 as int, op); lemma_enriched(e0, s0.units@, tags, vx_i0 as int, s0.balance_units); } }"},
        le={0: "proof { if e0.m_abil is Some { if p.contains_key(unit_index) { let n = p[unit_index].name@; assert(cmd.m_abil == named_abil(c0, n, s0.balance_units).m_abil); assert(cmd == named_abil(c0, n, s0.balance_units)); assert(cmd == named_abil(e0, n, s0.balance_units)); assert(sc2_state.units@[unit_index].cmd == (SC2UnitCmd { other_unit_name: name_of(target), ..cmd_of(cmd) })); } assert(sc2_state.units@ =~= applied(s0.units@, tags, vx_i0 as int, op)); } }"})


def upd(name, arg, post, op, ev):
    return F(GS, name, spec=WF + f"    ensures wf(*final(sc2_state)), {post}(*old(sc2_state), *final(sc2_state), game_loop, user_id, {arg}, res.1), res.0 == ReplayGameEvent::{ev}({arg}),",
             pre=ST0 + f"let ghost tags = selection(s0.user_state@, user_id); let ghost op = Op::{op}({arg}.m_target, game_loop); proof {{ lemma_applied0(s0.units@, tags, op); }}",
             inv=inv(0, "tags", """same_rest(s0, *sc2_state), sc2_state.user_state@ == s0.user_state@, sc2_state.units@ == applied(s0.units@, tags, vx_i0 as int, op),
            user_selected_units@ == addressed(s0.units@, tags, vx_i0 as int, op),"""),
             le={0: "proof { lemma_applied(s0.units@, tags, vx_i0 - 1, op); assert(sc2_state.units@ =~= applied(s0.units@, tags, vx_i0 as int, op)); }"})


POINT = upd("handle_update_target_point", "target_point", "post_point", "Point", "CmdUpdateTargetPoint")
TARGET = upd("handle_update_target_unit", "target_unit", "post_target", "Target", "CmdUpdateTargetUnit")


def from_fn(file, ty, src, spec):
    return F(file, f"{ty}asFrom<{src}>::from", impl=f"impl VxFrom<{src}> for {ty}", nopub=True, name="vx_from",
             inner=f"open spec fn vx_spec(x: {src}) -> {ty} {{ {spec}(x) }}")


FROMS = [from_fn("common.rs", "Vec3D", "GameSMapCoord3D", "map_point"), from_fn(UC, "SC2UnitCmdDataTargetUnit", "GameSCmdDataTargetUnit", "target_of"),
         from_fn(UC, "SC2UnitCmdData", "GameSCmdData", "data_of"), from_fn(UC, "SC2UnitCmdAbil", "GameSCmdAbil", "abil_of"),
         from_fn(UC, "SC2UnitCmd", "GameSCmdEvent", "cmd_of")]
SETS = [F(UC, "SC2UnitCmd::set_data_target_point", spec="    ensures *final(self) == (SC2UnitCmd { data: SC2UnitCmdData::TargetPoint(map_point(coord)), ..*old(self) }),"),
        F(UC, "SC2UnitCmd::set_data_target_unit", spec="    ensures *final(self) == (SC2UnitCmd { data: SC2UnitCmdData::TargetUnit(target), ..*old(self) }),")]
USER_NEW = F(ST, "SC2UserState::new", subst=[(r"let mut control_groups = vec ! \[\];", "let mut control_groups: Vec<Vec<u32>> = vec![];")], spec="    ensures res.player_lobby_details == player_lobby_details, res.control_groups@.len() == 11, forall|i: int| 0 <= i < 11 ==> (#[trigger] res.control_groups@[i])@ =~= Seq::<u32>::empty(),",
             inv={0: "        invariant\n            0 <= vx_i0 <= 11, vx_n0 == 11, control_groups@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] control_groups@[i])@ =~= Seq::<u32>::empty(),\n        decreases 11 - vx_i0,"})
CAM = "    ensures wf(*final(sc2_state)), same_rest(*old(sc2_state), *final(sc2_state)), final(sc2_state).units@ == old(sc2_state).units@, same_groups(old(sc2_state).user_state@, final(sc2_state).user_state@), res.1 is None,"
CAMS = [F(GS, f, spec=WF + CAM) for f in ("handle_camera_save", "handle_camera_update")]


def game(aspect):
    g = """        evt matches ReplayGameEvent::SelectionDelta(e) ==> post_delta_groups(old(sc2_state).user_state@, final(sc2_state).user_state@, user_id, e),
        evt matches ReplayGameEvent::ControlGroupUpdate(e) ==> post_groups(old(sc2_state).user_state@, final(sc2_state).user_state@, user_id, e),
        !(evt is SelectionDelta || evt is ControlGroupUpdate) ==> same_groups(old(sc2_state).user_state@, final(sc2_state).user_state@),"""
    u = """        evt matches ReplayGameEvent::SelectionDelta(e) ==> post_delta(*old(sc2_state), *final(sc2_state), game_loop, user_id, e, res.1),
        evt matches ReplayGameEvent::ControlGroupUpdate(e) ==> post_group_units(*old(sc2_state), *final(sc2_state), game_loop, user_id, e, res.1),
        evt matches ReplayGameEvent::Cmd(e) ==> post_cmd(*old(sc2_state), *final(sc2_state), game_loop, user_id, e, res),
        evt matches ReplayGameEvent::CmdUpdateTargetPoint(e) ==> post_point(*old(sc2_state), *final(sc2_state), game_loop, user_id, e, res.1),
        evt matches ReplayGameEvent::CmdUpdateTargetUnit(e) ==> post_target(*old(sc2_state), *final(sc2_state), game_loop, user_id, e, res.1),
        !(evt is SelectionDelta || evt is ControlGroupUpdate || evt is Cmd || evt is CmdUpdateTargetPoint || evt is CmdUpdateTargetUnit) ==> final(sc2_state).units@ == old(sc2_state).units@ && res.1 is None,"""
    return F(GS, "handle_game_event", spec=WF + "    ensures wf(*final(sc2_state)), " + ("same_names" if aspect == "groups" else "same_rest") + "(*old(sc2_state), *final(sc2_state)),\n" + (g if aspect == "groups" else u))


def tracker(pos):
    f = TRACKER
    lines = f.spec.split("\n")
    if pos:
        spec = WF + "    ensures wf(*final(sc2_state)), evt is UnitPosition ==> (same_rest(*old(sc2_state), *final(sc2_state)) && same_names(*old(sc2_state), *final(sc2_state))),\n" + "\n".join(l for l in lines if "post_pos" in l)
    else:
        spec = "\n".join(l for l in lines if "post_pos" not in l) + "!(evt is UnitPosition) ==> (same_rest(*old(sc2_state), *final(sc2_state)) && same_names(*old(sc2_state), *final(sc2_state))),"
    return F(TS, "handle_tracker_event", spec=spec)


MK = lambda *own, fns: [setattr(f, "trusted", f not in own) or f for f in fns]
TRK = [POSITION, INIT, BORN, TYPE, DONE, DIED]
BASE = [UTI, EXPAND, V3NEW, PROPS_FN, PNAME]
CONV = FROMS + SETS


def units(pid):
    """The functions of one property's unit; those of other properties appear by contract only."""
    if pid == "C13":
        t = tracker(True)
        mine, rest = [V3NEW, POSITION, t], BASE + [x for x in TRK if x is not POSITION]
    elif pid == "C14":
        t = tracker(False)
        mine, rest = [PROPS_FN, PNAME, INIT, BORN, TYPE, DONE, DIED, t, USER_NEW], [UTI, EXPAND, V3NEW, POSITION]
    else:
        a = "groups" if pid == "C15" else "units"
        shared = [unmark(a), mark(a), delta(a), ctrl(a), game(a)]
        if pid == "C15":
            mine, rest = shared + CAMS, [UTI, V3NEW, CMD, POINT, TARGET] + CONV
        else:
            mine, rest = shared + [V3NEW, CMD, POINT, TARGET] + CONV, [UTI] + CAMS
    for f in mine:
        f.trusted = False
    rest = [f for f in rest if f not in mine]
    for f in rest:
        f.trusted = True
    return [Section(items=ITEMS, spec=PRELUDE + S.C12_SPEC + S.C13_SPEC + SPEC, fns=rest + mine)]
