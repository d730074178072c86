"""Contracts for C21: joining the players of the details with their lobby slots and user data."""
import copy
from .core import Fn, Section
from . import libfns as L, sm

DE, ID, ST, FI = "details.rs", "init_data/mod.rs", sm.ST, "filters.rs"
TYPES = [(DE, n) for n in ("PlayerLobbyDetails", "Details", "PlayerDetails", "ToonNameDetails", "Color", "Thumbnail")] \
    + [(ID, n) for n in ("InitData", "LobbySyncState", "UserInitialData", "LobbyState", "LobbySlot", "RewardOverride", "GamePhase")] \
    + [(ST, "SC2UserState"), (ST, "SC2ReplayState"), ("game_events/mod.rs", "GameSPointMini"), ("game_events/mod.rs", "GameTFixedMiniBitsUnsigned"), (FI, "SC2ReplayFilters"), ("common.rs", "OBSERVE_NONE")]
_HM = sm.PRELUDE[sm.PRELUDE.index("/// std's HashMap"):sm.PRELUDE.index("/// The keys of a map")]
HM = _HM.replace("impl<K, V> HashMap<K, V> {", """impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }""", 1)
CLONED = ["PlayerLobbyDetails", "PlayerDetails", "LobbySlot", "InitData", "GameDescription"]
PRELUDE = """
pub mod chrono {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct NaiveDateTime { x: u8 }
    pub struct Utc { pub at: NaiveDateTime }
    /// The nanoseconds of a time since 1970, where an i64 can hold them.
    pub uninterp spec fn nanos(t: NaiveDateTime) -> Option<i64>;
    pub uninterp spec fn epoch() -> NaiveDateTime;
    impl NaiveDateTime {
        #[verifier::external_body] pub fn and_utc(&self) -> (r: Utc) ensures r.at == *self { unimplemented!() }
        #[verifier::external_body] pub fn default() -> (r: NaiveDateTime) ensures r == epoch() { unimplemented!() }
    }
    impl Utc { #[verifier::external_body] pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>) ensures r == nanos(self.at) { unimplemented!() } }
    }
}
pub mod common { pub use super::OBSERVE_NONE; }
verus! {
#[verifier::external_body] pub struct GameDescription { x: u8 }
#[verifier::external_body] pub struct VersionedBalanceUnits { x: u8 }
#[verifier::external_body] pub struct SC2Unit { x: u8 }
""" + HM + """
/// Two vectors (strings) with the same elements (characters) are the same value.
pub broadcast axiom fn ax_vec<T>(a: Vec<T>, b: Vec<T>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_string(a: String, b: String) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub uninterp spec fn copied<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_copied<T>(s: Seq<T>) ensures #[trigger] copied(s)@ == s;
pub uninterp spec fn text(s: Seq<char>) -> String;
pub broadcast axiom fn ax_text(s: Seq<char>) ensures #[trigger] text(s)@ == s;
pub open spec fn empty() -> String { text(Seq::empty()) }
/// A vector's elements take up at most 2^63-1 bytes.
pub axiom fn ax_len(v: &Vec<UserInitialData>) ensures v@.len() < 0x800_0000_0000_0000;
pub proof fn neg_usize(x: i64)
    ensures x >= 0 ==> x as usize == x, x < 0 ==> x as usize >= 0x8000_0000_0000_0000usize
{ assert(x < 0 ==> x as usize >= 0x8000_0000_0000_0000usize) by (bit_vector); }
/// The value at a position; positions are followed one by one, so no element is read twice.
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
pub trait VxDefault: Sized { spec fn vx_d() -> Self; }
#[verifier::external_body]
pub fn vx_or_default<T: VxDefault>(x: Option<T>) -> (r: T) ensures r == (match x { Some(v) => v, None => T::vx_d() }) { unimplemented!() }
impl VxDefault for String { open spec fn vx_d() -> String { empty() } }
impl VxDefault for chrono::NaiveDateTime { open spec fn vx_d() -> chrono::NaiveDateTime { chrono::epoch() } }
impl<'a> VxDefault for &'a str { uninterp spec fn vx_d() -> &'a str; }
/// String == &str compares contents.
#[verifier::external_body]
pub fn vx_same(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VxTryFrom<A>: Sized {
    spec fn vx_ok(x: A) -> bool;
    spec fn vx_is(x: A, r: Result<Self, S2ProtocolError>) -> bool;
    fn vx_try_from(x: A) -> (r: Result<Self, S2ProtocolError>) requires Self::vx_ok(x), ensures Self::vx_is(x, r);
}
pub fn vx_try_into<A, B: VxTryFrom<A>>(x: A) -> (r: Result<B, S2ProtocolError>) requires B::vx_ok(x), ensures B::vx_is(x, r) { B::vx_try_from(x) }

// ---- the file a replay was read from, and what its details sector holds (C09)
#[verifier::external_body] pub struct MPQ { x: u8 }
#[verifier::external_body] pub struct PathBuf { x: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PathBuf {
    #[verifier::external_body] pub fn from(s: String) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) { unimplemented!() }
}
pub uninterp spec fn file_at(name: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn archive(file: Seq<u8>) -> Option<MPQ>;
pub uninterp spec fn sector_details(m: MPQ, file: Seq<u8>) -> Option<Details>;
#[verifier::external_body]
pub fn read_file(p: &PathBuf) -> (r: Result<Vec<u8>, S2ProtocolError>) ensures match r { Ok(v) => file_at(p@) == Some(v@), Err(_) => file_at(p@) is None } { unimplemented!() }
pub mod parser {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn parse(file: &Vec<u8>) -> (r: Result<((), MPQ), S2ProtocolError>) ensures match r { Ok((_, m)) => archive(file@) == Some(m), Err(_) => archive(file@) is None } { unimplemented!() }
    }
}
pub mod versions {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn read_details(file_name: &str, mpq: &MPQ, file: &[u8]) -> (r: Result<Details, S2ProtocolError>)
        ensures match r { Ok(d) => sector_details(*mpq, file@) == Some(d), Err(_) => sector_details(*mpq, file@) is None },
    { unimplemented!() }
    }
}
pub uninterp spec fn calendar(t: i64, offset: i64) -> Option<chrono::NaiveDateTime>;
#[verifier::external_body]
pub fn transform_to_naivetime(t: i64, offset: i64) -> (r: Option<chrono::NaiveDateTime>) ensures r == calendar(t, offset) { unimplemented!() }
}
""" + sm.clones(CLONED)
SPEC = """
verus! {
pub open spec fn stamped(d: Details, id: u64) -> Details {
    Details { ext_fs_id: id, ext_datetime: match calendar(d.time_utc, d.time_local_offset) { Some(t) => if chrono::nanos(t) is Some { t } else { chrono::epoch() }, None => chrono::epoch() }, ..d }
}
pub open spec fn details_in(m: MPQ, file: Seq<u8>, id: u64) -> Option<Details> { match sector_details(m, file) { Some(d) => Some(stamped(d, id)), None => None } }
/// The details of the replay an InitData was read from.
pub open spec fn details_of(i: InitData) -> Option<Details> {
    match file_at(i.ext_fs_file_name@) { None => None, Some(f) => match archive(f) { None => None, Some(m) => details_in(m, f, i.ext_fs_id) } }
}
/// The first lobby slot from `i` on that carries working-set number `id`.
pub open spec fn slot_from(s: Seq<LobbySlot>, id: u8, i: int) -> Option<LobbySlot>
    decreases s.len() - i
{ if i < 0 || i >= s.len() { None } else if s[i].working_set_slot_id == Some(id) { Some(s[i]) } else { slot_from(s, id, i + 1) } }
pub open spec fn slot_of(i: InitData, p: PlayerDetails) -> Option<LobbySlot> {
    match p.working_set_slot_id { Some(id) => slot_from(i.sync_lobby_state.lobby_state.slots@, id, 0), None => None }
}
/// The user data of a slot: that of the slot's user.
pub open spec fn user_of(i: InitData, s: LobbySlot) -> Option<UserInitialData> {
    match s.user_id { Some(u) => if 0 <= u < i.sync_lobby_state.user_initial_data@.len() { Some(i.sync_lobby_state.user_initial_data@[u as int]) } else { None }, None => None }
}
pub open spec fn joined(d: Details, i: InitData, p: PlayerDetails, s: LobbySlot) -> PlayerLobbyDetails {
    PlayerLobbyDetails {
        player_details: p, lobby_slot: s, title: d.title, game_description: i.sync_lobby_state.game_description,
        time_utc: d.time_utc, time_local_offset: d.time_local_offset,
        user_init_data_name: match user_of(i, s) { Some(u) => u.name, None => empty() },
        user_init_data_clan_tag: match user_of(i, s) { Some(u) => match u.clan_tag { Some(t) => t, None => empty() }, None => empty() },
        tracker_setup_player_id: None, tracker_setup_slot_id: None, cache_handles: d.cache_handles,
        ext_fs_sha256: i.ext_fs_sha256, ext_fs_file_name: i.ext_fs_file_name, ext_fs_id: d.ext_fs_id, ext_datetime: d.ext_datetime }
}
/// The first `n` players, each with its slot; those without one are left out.
pub open spec fn join(d: Details, i: InitData, n: int) -> Seq<PlayerLobbyDetails>
    decreases n
{ if n <= 0 { Seq::empty() } else { let p = d.player_list@[n - 1]; match slot_of(i, p) { Some(s) => join(d, i, n - 1).push(joined(d, i, p, s)), None => join(d, i, n - 1) } } }
pub open spec fn joined_all(i: InitData) -> Option<Seq<PlayerLobbyDetails>> { match details_of(i) { Some(d) => Some(join(d, i, d.player_list@.len() as int)), None => None } }
/// The last of the first `n` joined players whose slot has user `k`.
pub open spec fn owner(s: Seq<PlayerLobbyDetails>, k: i64, n: int) -> Option<PlayerLobbyDetails>
    decreases n
{ if n <= 0 { None } else if s[n - 1].lobby_slot.user_id == Some(k) { Some(s[n - 1]) } else { owner(s, k, n - 1) } }
pub open spec fn fresh(u: SC2UserState, d: PlayerLobbyDetails) -> bool {
    u.player_lobby_details == d && u.control_groups@.len() == 11 && forall|i: int| 0 <= i < 11 ==> (#[trigger] u.control_groups@[i])@ =~= Seq::<u32>::empty()
}
pub open spec fn users(m: Map<i64, SC2UserState>, s: Seq<PlayerLobbyDetails>, n: int) -> bool {
    forall|k: i64| match owner(s, k, n) { Some(d) => #[trigger] m.contains_key(k) && fresh(m[k], d), None => !m.contains_key(k) }
}
pub open spec fn started(i: InitData, r: Result<SC2ReplayState, S2ProtocolError>) -> bool {
    match joined_all(i) { None => r is Err, Some(s) => match r { Err(_) => false, Ok(x) => x.init_data == i && Some(x.details) == details_of(i) && x.units@ == Map::<u32, SC2Unit>::empty() && users(x.user_state@, s, s.len() as int) } }
}
impl SC2ReplayState {
    /// Derived.
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.units@ == Map::<u32, SC2Unit>::empty(), r.user_state@ == Map::<i64, SC2UserState>::empty() { unimplemented!() }
}
/// The names of those of the first `n` players who play.
pub open spec fn playing(d: Details, n: int) -> Seq<String>
    decreases n
{ if n <= 0 { Seq::empty() } else if d.player_list@[n - 1].observe == 0 { playing(d, n - 1).push(d.player_list@[n - 1].name) } else { playing(d, n - 1) } }
/// Some player of that name, among the first `n`, has this slot number.
pub open spec fn named(d: Details, name: Seq<char>, n: int, slot: Option<u8>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] d.player_list@[i]).name@ == name && d.player_list@[i].working_set_slot_id == slot }
pub open spec fn absent(d: Details, name: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] d.player_list@[i]).name@ != name }
pub open spec fn selected(d: Details, name: Seq<char>, n: int, old: Option<u8>, new: Option<u8>) -> bool { (absent(d, name, n) && new == old) || named(d, name, n, new) }
/// Every joined player is a player of the details, with the slot it names.
pub proof fn c21_paired(d: Details, i: InitData, n: int, k: int)
    requires 0 <= n <= d.player_list@.len(), 0 <= k < join(d, i, n).len(),
    ensures ({ let x = join(d, i, n)[k]; x.lobby_slot.working_set_slot_id is Some && x.lobby_slot.working_set_slot_id == x.player_details.working_set_slot_id
        && x.title == d.title && x.cache_handles == d.cache_handles && x.time_utc == d.time_utc && i.sync_lobby_state.lobby_state.slots@.contains(x.lobby_slot) && d.player_list@.contains(x.player_details) }),
    decreases n,
{
    if n > 0 {
        let p = d.player_list@[n - 1];
        match slot_of(i, p) { Some(s) => { lemma_slot(i.sync_lobby_state.lobby_state.slots@, p.working_set_slot_id->0, 0); if k < join(d, i, n - 1).len() { c21_paired(d, i, n - 1, k); } }, None => { c21_paired(d, i, n - 1, k); } }
    }
}
pub proof fn lemma_slot(s: Seq<LobbySlot>, id: u8, i: int)
    requires 0 <= i,
    ensures match slot_from(s, id, i) { Some(x) => x.working_set_slot_id == Some(id) && s.contains(x), None => forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).working_set_slot_id != Some(id) },
    decreases s.len() - i,
{ if i < s.len() { if s[i].working_set_slot_id == Some(id) { assert(s.contains(s[i])); } else { lemma_slot(s, id, i + 1); } } }
}
"""
B = "broadcast use {ax_vec, ax_string, ax_text};"
ISO = "#[verifier::loop_isolation(false)]\n"
JOIN = Fn(DE, "Vec<PlayerLobbyDetails>asTryFrom<&InitData>::try_from", impl="impl<'a> VxTryFrom<&'a InitData> for Vec<PlayerLobbyDetails>", nopub=True, name="vx_try_from", std=True, fmt=True, subst=[(r"let mut slot_idx = None ;", "let mut slot_idx: Option<usize> = None;")],
          params="init: &'a InitData", rettype="Result<Vec<PlayerLobbyDetails>, S2ProtocolError>",
          inner="""    open spec fn vx_ok(init: &'a InitData) -> bool { true }
    open spec fn vx_is(init: &'a InitData, r: Result<Vec<PlayerLobbyDetails>, S2ProtocolError>) -> bool {
        match joined_all(*init) { Some(s) => r matches Ok(v) && v@ == s, None => r is Err } }""",
          pre=B,
          ls={1: B + ' proof { ax_len(&init.sync_lobby_state.user_initial_data); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }'},
          lets={("vx_r", 0): """proof {
            let w = slot_of(*init, player);
            neg_usize(w->0.user_id->0);
            assert(empty()@ =~= Seq::<char>::empty());
            if vx_r is Some {
                let x = vx_r->0;
                let y = joined(details, *init, player, w->0);
                assert(x.lobby_slot == y.lobby_slot); assert(x.player_details == y.player_details);
                assert(x.title@ == y.title@); assert(x.game_description == y.game_description);
                assert(x.user_init_data_name@ =~= y.user_init_data_name@);
                assert(x.user_init_data_clan_tag@ =~= y.user_init_data_clan_tag@);
                assert(x.cache_handles@ =~= y.cache_handles@);
                assert(x.ext_fs_sha256@ == y.ext_fs_sha256@); assert(x.ext_fs_file_name@ == y.ext_fs_file_name@);
                assert(x == y);
            } else { assert(w is None); }
        }"""},
          inv={0: """        invariant_except_break
            slot_idx is None,
            slot_of(*init, player) == (match player.working_set_slot_id { Some(id) => slot_from(vx_v0@, id, vx_i0 as int), None => None }),
        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_v0@ == init.sync_lobby_state.lobby_state.slots@,
        ensures
            match slot_idx { Some(k) => k < init.sync_lobby_state.lobby_state.slots@.len() && slot_of(*init, player) == Some(init.sync_lobby_state.lobby_state.slots@[k as int]), None => slot_of(*init, player) is None },
        decreases vx_n0 - vx_i0,""",
               1: """        invariant
            vx_i1 <= vx_n1, vx_n1 == vx_v1@.len(), vx_v1 == details.player_list, details_of(*init) == Some(details),
            vx_out@ == join(details, *init, vx_i1 as int),
        decreases vx_n1 - vx_i1,"""})


def c21():
    det = Fn(DE, "DetailsasTryFrom<&InitData>::try_from", impl="impl<'a> VxTryFrom<&'a InitData> for Details", nopub=True, name="vx_try_from", std=True,
             params="init: &'a InitData", rettype="Result<Details, S2ProtocolError>",
             inner="""    open spec fn vx_ok(init: &'a InitData) -> bool { true }
    open spec fn vx_is(init: &'a InitData, r: Result<Details, S2ProtocolError>) -> bool { match details_of(*init) { Some(d) => r == Ok::<Details, S2ProtocolError>(d), None => r is Err } }""")
    new = copy.copy(sm.USER_NEW)
    new.pre = ""
    alias = "verus! { impl Details { pub fn try_from(init: &InitData) -> (r: Result<Details, S2ProtocolError>) ensures <Details as VxTryFrom<&InitData>>::vx_is(init, r) { vx_try_into(init) } } }"
    fns = [det, JOIN,
           Fn(DE, "Details::set_metadata", std=True, spec="    ensures res == stamped(self, ext_fs_id),"),
           Fn(DE, "Details::new", std=True, spec="    ensures match details_in(*mpq, file_contents@, ext_fs_id) { Some(d) => res == Ok::<Details, S2ProtocolError>(d), None => res is Err },"),
           Fn(DE, "Details::get_player_names", std=True, pre=B, spec="    ensures res@ == playing(*self, self.player_list@.len() as int),", attrs=ISO,
              inv={0: "        invariant\n            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_v0@ == self.player_list@, vx_out@ == playing(*self, vx_i0 as int),\n        decreases vx_n0 - vx_i0,"}),
           Fn(FI, "SC2ReplayFilters::set_player_id_from_user_name", std=True, spec="""    ensures selected(*details, username@, details.player_list@.len() as int, old(self).player_id, final(self).player_id),
        *final(self) == (SC2ReplayFilters { player_id: final(self).player_id, ..*old(self) }),""", attrs=ISO, subst=[(r"details_player \. name == username", "vx_same(&details_player.name, username)")],
              inv={0: "        invariant\n            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_v0@ == details.player_list@, selected(*details, username@, vx_i0 as int, old(self).player_id, self.player_id), *self == (SC2ReplayFilters { player_id: self.player_id, ..*old(self) }),\n        decreases vx_n0 - vx_i0,"}),
           new,
           Fn(ST, "SC2ReplayStateasTryFrom<&InitData>::try_from", impl="impl SC2ReplayState", std=True, attrs=ISO, rettype="Result<SC2ReplayState, S2ProtocolError>",
              spec="    ensures started(*init_data, res),",
              inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_v0@ == player_lobby_slots@, users(user_state@, vx_v0@, vx_i0 as int),
        decreases vx_n0 - vx_i0,"""})]
    return L.LIB, [Section(items=TYPES, spec=PRELUDE + SPEC + alias, fns=fns)]
