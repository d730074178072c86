"""Contracts for C27: the details and lobby data a replay stores, in their protocol-neutral form."""
import re
from .core import Fn, Section
from . import libfns as L, gen, sm, stream, neutral as N

DF, IF, CF = "versions/protocol87702/events/details.rs", "versions/protocol87702/events/init_data.rs", "versions/protocol87702/events/common.rs"
DE, ID, CO = "details.rs", "init_data/mod.rs", "common.rs"
B = "broadcast use {ax_vec, ax_string, ax_mk, ax_text, ax_hex, lemma_mapped, lemma_all};"

_i, _j = stream.PRELUDE.index("/// Two vectors (strings)"), stream.PRELUDE.index("/// Distance in memory")
_a, _b = N.PRELUDE.index("verus! {\npub trait VxFrom"), N.PRELUDE.index("/// A text conversion error")
_c = N.PRELUDE.index("pub open spec fn to<A, B")
PRELUDE = """
pub mod chrono {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct NaiveDateTime { x: u8 }
    pub uninterp spec fn epoch() -> NaiveDateTime;
    impl NaiveDateTime { #[verifier::external_body] pub fn default() -> (r: NaiveDateTime) ensures r == epoch() { unimplemented!() } }
    }
}
pub mod common { pub use crate::*; }
pub mod init_data { pub use crate::*; }
verus! {
/// Two vectors (strings) with the same elements (characters) are the same value.
pub broadcast axiom fn ax_vec<T>(a: Vec<T>, b: Vec<T>) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_string(a: String, b: String) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
/// The text of these characters.
pub uninterp spec fn text(s: Seq<char>) -> String;
pub broadcast axiom fn ax_text(s: Seq<char>) ensures (#[trigger] text(s))@ == s;
#[verifier::external_body]
pub fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// A byte's two lower-case hexadecimal digits.
pub open spec fn digit(n: int) -> char { if n < 10 { ('0' as u8 + n) as char } else { ('a' as u8 + (n - 10)) as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![digit(b as int / 16), digit(b as int % 16)] }
pub open spec fn hex(s: Seq<u8>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { hex(s.drop_last()) + hex2(s.last()) } }
pub broadcast proof fn ax_hex(s: Seq<u8>, i: int)
    requires 0 < i <= s.len(),
    ensures #[trigger] hex(s.take(i)) == hex(s.take(i - 1)) + hex2(s[i - 1]),
{ assert(s.take(i).drop_last() =~= s.take(i - 1)); }
pub trait VxByte { spec fn vx_b(&self) -> u8; }
impl VxByte for u8 { open spec fn vx_b(&self) -> u8 { *self } }
impl VxByte for &u8 { open spec fn vx_b(&self) -> u8 { **self } }
/// format!("{:02x}") of a byte
#[verifier::external_body]
pub fn vx_hex02<T: VxByte>(x: T) -> (r: String) ensures r@ == hex2(x.vx_b()) { unimplemented!() }
/// A value that translates, or does not.
pub trait VxTryFrom<A>: Sized {
    spec fn vx_tr(x: A) -> Option<Self>;
    fn vx_try_from(x: A) -> (r: Result<Self, S2ProtocolError>) ensures gives(Self::vx_tr(x), r);
}
pub open spec fn gives<B>(t: Option<B>, r: Result<B, S2ProtocolError>) -> bool { match t { Some(n) => r == Ok::<B, S2ProtocolError>(n), None => r is Err } }
pub fn vx_try_into<A, B: VxTryFrom<A>>(x: A) -> (r: Result<B, S2ProtocolError>) ensures gives(B::vx_tr(x), r) { B::vx_try_from(x) }
}
""" + N.PRELUDE[_a:_b] + N.PRELUDE[_c:] + """
verus! {
/// All of them translated, in order; nothing if one does not translate.
pub open spec fn vec_tr<A, B: VxTryFrom<A>>(x: Vec<A>) -> Option<Vec<B>> {
    if forall|i: int| 0 <= i < x@.len() ==> B::vx_tr(#[trigger] x@[i]) is Some { Some(mk_vec(Seq::new(x@.len(), |i: int| B::vx_tr(x@[i])->0))) } else { None }
}
pub open spec fn all_tr<A, B: VxTryFrom<A>>(x: Seq<A>, n: int, y: Seq<B>) -> bool { y.len() == n && forall|i: int| 0 <= i < n ==> B::vx_tr(#[trigger] x[i]) == Some(y[i]) }
pub broadcast proof fn lemma_all<A, B: VxTryFrom<A>>(x: Vec<A>, n: int, y: Vec<B>)
    ensures (#[trigger] all_tr(x@, n, y@) && n == x@.len()) ==> vec_tr::<A, B>(x) == Some(y),
{
    broadcast use {ax_vec, ax_mk};
    if all_tr(x@, n, y@) && n == x@.len() {
        let s = Seq::new(x@.len(), |i: int| B::vx_tr(x@[i])->0);
        assert(x@.len() <= usize::MAX) by { let k = x.len(); }
        assert(mk_vec::<B>(s)@ == s);
        assert(y@ =~= s);
    }
}
/// A text, the digits of a handle: how the elements of two lists translate.
impl VxTryFrom<Vec<u8>> for String {
    open spec fn vx_tr(x: Vec<u8>) -> Option<String> { utf8(x@) }
    #[verifier::external_body] fn vx_try_from(x: Vec<u8>) -> (r: Result<String, S2ProtocolError>) { unimplemented!() }
}
impl VxFrom<Vec<u8>> for String {
    open spec fn vx_spec(x: Vec<u8>) -> String { text(hex(x@)) }
    #[verifier::external_body] fn vx_from(x: Vec<u8>) -> (r: String) { unimplemented!() }
}
pub open spec fn or_none<T>(x: Option<Vec<T>>) -> Vec<T> { match x { Some(v) => v, None => mk_vec(Seq::empty()) } }
}
"""
SUB = N.UTF8 + [(r"(?<!vx_)\bString :: from \(", " vx_text(")]


def conv(file, src, dst, spec, path=None, **k):
    d = dst.split("::")[-1]
    return Fn(file, path or f"{d}asFrom<{src}>::from", impl=f"impl VxFrom<{src}> for {dst}", nopub=True, name="vx_from", std=True, fmt=True,
              attrs="#[verifier::loop_isolation(false)]\n", subst=SUB, rettype="Self", inner=f"open spec fn vx_spec(x: {src}) -> Self {{ {spec} }}", pre=B, **k)


def tconv(file, src, dst, spec, path=None, pre="", **k):
    d = dst.split("::")[-1]
    return Fn(file, path or f"{d}asTryFrom<{src}>::try_from", impl=f"impl VxTryFrom<{src}> for {dst}", nopub=True, name="vx_try_from", std=True, fmt=True,
              attrs="#[verifier::loop_isolation(false)]\n", subst=SUB, rettype="Result<Self, S2ProtocolError>",
              inner=f"open spec fn vx_tr(x: {src}) -> Option<Self> {{ {spec} }}", pre=B + pre, **k)


def whole(dst, ms, also=""):
    """A record that translates when all its parts do.  Each entry of ms is `field kind`; the field it comes from is m_field."""
    need, out = [], []
    for m in ms.split(","):
        w = m.split()
        n, k = w[0], w[1] if len(w) > 1 else "same"
        f = f"x.m_{n}"
        if k in ("text", "vtext"):
            e = f"utf8({f}{'.value' if k == 'vtext' else ''}@)"
            need.append(e + " is Some")
            e += "->0"
        elif k == "try":
            e = f"try_of({f})"
        else:
            e = {"same": f, "v": f + ".value", "to": f"to({f})", "tov": f"to({f}.value)", "opt": f"opt_to({f})", "vec": f"vec_to({f}.value)", "u8": f + ".value as u8", "u32": f + ".value as u32",
                 "ov": f"(match {f} {{ Some(v) => Some(v.value), None => None }})"}.get(k) or " ".join(w[1:]).replace("$", f)
        out.append(f"{n}: {e}")
    lit = f"{dst} {{ {', '.join(out)}{also} }}"
    return f"if {' && '.join(need)} {{ Some({lit}) }} else {{ None }}" if need else lit


def names(file, src, dst, vs):
    return conv(file, src, dst, "match x { " + ", ".join(f"{src}::{a} => {b}" for a, b in vs) + " }")


def enum(src, dst):
    return names(IF, src, dst, [(v["n"], f"{dst}::{v['n']}") for v in gen.G["87702"]["bit_packed"]["types"][src]["variants"]])


def loop(rel, out, k=0, also=""):
    return f"""        invariant vx_i{k} <= vx_n{k}, vx_n{k} == vx_v{k}@.len(), {rel}(vx_v{k}@, vx_i{k} as int, {out}@),{also}
        decreases vx_n{k} - vx_i{k},"""


def hexes(k, out):
    return f"""        invariant vx_i{k} <= vx_n{k}, vx_n{k} == vx_v{k}@.len(), {out}@ =~= hex(vx_v{k}@.take(vx_i{k} as int)),
        decreases vx_n{k} - vx_i{k},"""


OBS = [("ENone", "0u8"), ("ESpectator", "1u8"), ("EReferee", "2u8")]


# ------------------------------------------------------------------------------------------ details
def details():
    T = gen.G["87702"]["byte_aligned"]["types"]
    n = N.closure(T, "GameSDetails")
    out = """
        let ps: Option<Vec<PlayerDetails>> = match x.m_player_list { Some(v) => vec_tr(v), None => Some(mk_vec(Seq::empty())) };
        let mods: Option<Vec<String>> = match x.m_mod_paths { Some(v) => vec_tr(v), None => Some(mk_vec(Seq::empty())) };
        let th: Option<Thumbnail> = <Thumbnail as VxTryFrom<GameSThumbnail>>::vx_tr(x.m_thumbnail);
        if ps is Some && mods is Some && th is Some && """ + whole("Details", "title text, difficulty text, is_blizzard_map, time_utc, time_local_offset, restart_as_transition_map, disable_recover_game, description text, image_file_path text, campaign_index, "
        "map_file_name text, mini_save, game_speed to, default_difficulty, cache_handles (match $ { Some(v) => vec_to(v)* None => mk_vec(Seq::empty()) })",
        ", player_list: ps->0, mod_paths: mods->0, thumbnail: th->0, ext_fs_id: 0u64, ext_datetime: chrono::epoch()")[3:].replace("*", ",", 1)
    fns = [
        names(DF, "GameEGameSpeed", "String", [(v["n"], f'text("{v["n"][1:]}"@)') for v in T["GameEGameSpeed"]["variants"]]),
        names(DF, "GameEResultDetails", "String", [(v["n"], f'text("{v["n"][1:]}"@)') for v in T["GameEResultDetails"]["variants"]]),
        conv(CF, "EObserve", "u8", "match x { " + ", ".join(f"EObserve::{a} => {b}" for a, b in OBS) + " }", path="u8asFrom<super::byte_aligned::EObserve>::from"),
        conv(DF, "GameSColor", "Color", "Color { a: x.m_a, r: x.m_r, g: x.m_g, b: x.m_b }"),
        tconv(DF, "GameSThumbnail", "Thumbnail", whole("Thumbnail", "file text")),
        tconv(DF, "GameSToonNameDetails", "ToonNameDetails", "Some(ToonNameDetails { region: x.m_region, program_id: x.m_program_id, realm: x.m_realm, id: x.m_id })"),
        tconv(DF, "GameSPlayerDetails", "PlayerDetails", whole("PlayerDetails", "name text, toon (<ToonNameDetails as VxTryFrom<GameSToonNameDetails>>::vx_tr($)->0), race text, color to, control, team_id, handicap, observe to, result to, working_set_slot_id, hero text")),
        tconv(DF, "GameSDetails", "Details", out, inv={0: loop("all_tr", "player_list"), 1: hexes(1, "cache_str"), 2: loop("mapped", "cache_handles", 2), 3: loop("all_tr", "mod_paths", 3)},
              le={2: "assert(vx_v2@[vx_i2 - 1]@.take(vx_v2@[vx_i2 - 1]@.len() as int) =~= vx_v2@[vx_i2 - 1]@);"}),
    ]
    a = Section("byte_aligned", "", [("versions/protocol87702/mod.rs", f"byte_aligned::{t}") for t in n], sm.clones(n), fns)
    root = Section(items=[(DE, t) for t in ("Details", "PlayerDetails", "ToonNameDetails", "Color", "Thumbnail")] + [(CO, c) for c in ("OBSERVE_NONE", "OBSERVE_SPECTATOR", "OBSERVE_REFEREE")], spec=PRELUDE)
    return L.LIB, [a, root]


# ------------------------------------------------------------------------------------------ lobby data
STANDIN = """
verus! {
/// How the elements of some lists translate.
impl VxFrom<GameTReward> for u32 {
    open spec fn vx_spec(x: GameTReward) -> u32 { to(x.value) }
    #[verifier::external_body] fn vx_from(x: GameTReward) -> (r: u32) { unimplemented!() }
}
impl VxFrom<GameTLicense> for u32 {
    open spec fn vx_spec(x: GameTLicense) -> u32 { to(x.value) }
    #[verifier::external_body] fn vx_from(x: GameTLicense) -> (r: u32) { unimplemented!() }
}
impl VxFrom<GameCCacheHandle> for String {
    open spec fn vx_spec(x: GameCCacheHandle) -> String { text(hex(x.value@)) }
    #[verifier::external_body] fn vx_from(x: GameCCacheHandle) -> (r: String) { unimplemented!() }
}
impl VxTryFrom<CArtifactHandle> for String {
    open spec fn vx_tr(x: CArtifactHandle) -> Option<String> { utf8(x.value@) }
    #[verifier::external_body] fn vx_try_from(x: CArtifactHandle) -> (r: Result<String, S2ProtocolError>) { unimplemented!() }
}
}
"""
OPTIONS = "lock_teams, teams_together, advanced_shared_control, random_races, battle_net, amm, competitive, practice, cooperative, no_victory_or_defeat, hero_duplicates_allowed, fog to, observers to, user_difficulty to, client_debug_flags v, build_coach_enabled"
USER = ("name vtext, clan_logo (match $ { Some(v) => Some(v.value), None => None }), highest_league opt, combined_race_levels opt, random_seed to, race_preference (opt_to(x.m_race_preference.m_race)), "
        "team_preference (opt_to(x.m_team_preference.m_team)), test_map, test_auto, examine, custom_interface, test_type to, observe to, hero vtext, skin vtext, mount vtext, toon_handle vtext, scaled_rating opt")
DESC = ("random_value to, game_cache_name vtext, game_options to, game_speed to, game_type to, max_users v, max_observers v, max_players v, max_teams v, max_colors v, max_races v, max_controls v, map_size_x u8, map_size_y u8, "
        "map_file_sync_checksum tov, map_file_name vtext, map_author_name vtext, mod_file_sync_checksum tov, slot_descriptions vec, default_difficulty v, default_ai_build v, cache_handles vec, has_extension_mod, "
        "has_non_blizzard_extension_mod, is_blizzard_map, is_premade_ffa, is_coop_mode, is_realtime_mode")
SLOT = ("control v, user_id ov, team_id v, color_pref (OV(x.m_color_pref.m_color)), race_pref (OV(x.m_race_pref.m_race)), difficulty v, ai_build v, handicap tov, observe to, logo_index tov, hero vtext, skin vtext, mount vtext, "
        "working_set_slot_id opt, rewards vec, toon_handle vtext, licenses vec, tandem_leader_id ov, commander vtext, commander_level to, has_silence_penalty, tandem_id ov, commander_mastery_level to, commander_mastery_talents vec, "
        "trophy_id to, reward_overrides vec, brutal_plus_difficulty to, retry_mutation_indexes vec, a_c_enemy_race to, a_c_enemy_wave_type to, selected_commander_prestige to")


def W(dst, ms, also=""):
    """`whole`, whose entries may hold match expressions"""
    ms = re.sub(r"OV\(([\w.]+)\)", r"match \1 { Some(v) => Some(v.value)* None => None }", ms).replace("Some(v.value), None", "Some(v.value)* None")
    return whole(dst, ms, also).replace("* None", ", None")


def lobby():
    T = gen.G["87702"]["bit_packed"]["types"]
    n = N.closure(T, "ReplaySInitData")
    num = lambda src, ty, e, file=CF: conv(file, src, ty, e)
    state = ("phase to, max_users v, max_observers v, random_seed to, host_user_id ov, is_single_player, picked_map_tag u8, game_duration u32, default_difficulty v, default_ai_build v")
    slots = "<LobbySlot as VxTryFrom<GameSLobbySlot>>"
    fns = [
        num("Uint32", "u32", "x.value as u32"), num("Uint8", "u8", "x.value as u8"), num("Int32", "i32", "x.value as i32"), num("TRaceId", "i64", "x.value", IF),
        conv(CF, "EObserve", "u8", "match x { " + ", ".join(f"EObserve::{a} => {b}" for a, b in OBS) + " }", path="u8asFrom<super::bit_packed::EObserve>::from"),
        names(IF, "GameEGameSpeed", "u8", [(v["n"], f"{i}u8") for i, v in enumerate(T["GameEGameSpeed"]["variants"])]),
        enum("GameEGameType", "crate::init_data::GameType"), enum("GameEOptionFog", "crate::init_data::OptionFog"), enum("GameEOptionObservers", "crate::init_data::OptionObservers"),
        enum("GameEOptionUserDifficulty", "crate::init_data::OptionUserDifficulty"), enum("GameEPhase", "GamePhase"),
        conv(IF, "GameSGameOptions", "GameOptions", whole("GameOptions", OPTIONS)),
        conv(IF, "GameSSlotDescription", "crate::init_data::SlotDescription", whole("crate::init_data::SlotDescription", "allowed_colors v, allowed_races v, allowed_difficulty v, allowed_controls v, allowed_observe_types v, allowed_ai_builds v")),
        conv(IF, "GameCRewardOverride", "RewardOverride", whole("RewardOverride", "key to, rewards vec"), inv={0: loop("mapped", "vx_out")}),
        tconv(IF, "SUserInitialData", "UserInitialData", """
        let tag: Option<Option<String>> = match x.m_clan_tag { Some(t) => match utf8(t.value@) { Some(s) => Some(Some(s)), None => None }, None => Some(None) };
        if tag is Some && """ + W("UserInitialData", USER, ", clan_tag: tag->0")[3:]),
        tconv(IF, "GameSGameDescription", "crate::init_data::GameDescription", W("crate::init_data::GameDescription", DESC),
              inv={0: loop("mapped", "vx_out"), 1: hexes(1, "res"), 2: loop("mapped", "vx_out", 2)},
              le={2: "assert(vx_v2@[vx_i2 - 1].value@.take(vx_v2@[vx_i2 - 1].value@.len() as int) =~= vx_v2@[vx_i2 - 1].value@);"}),
        tconv(IF, "GameSLobbySlot", "LobbySlot", """
        let arts: Option<Vec<String>> = vec_tr(x.m_artifacts.value);
        if arts is Some && """ + W("LobbySlot", SLOT, ", artifacts: arts->0")[3:],
              inv={0: loop("all_tr", "vx_out"), **{k: loop("mapped", "vx_out", k) for k in range(1, 6)}}),
        tconv(IF, "GameSLobbyState", "LobbyState", f"match vec_tr::<GameSLobbySlot, LobbySlot>(x.m_slots.value) {{ Some(s) => Some({W('LobbyState', state, ', slots: s')}), None => None }}", inv={0: loop("all_tr", "vx_out")}),
        tconv(IF, "GameSLobbySyncState", "LobbySyncState", """
        match (vec_tr::<SUserInitialData, UserInitialData>(x.m_user_initial_data.value), <GameDescription as VxTryFrom<GameSGameDescription>>::vx_tr(x.m_game_description), <LobbyState as VxTryFrom<GameSLobbyState>>::vx_tr(x.m_lobby_state)) {
            (Some(u), Some(d), Some(l)) => Some(LobbySyncState { user_initial_data: u, game_description: d, lobby_state: l }), _ => None }""", inv={0: loop("all_tr", "user_initial_data")}),
        tconv(IF, "ReplaySInitData", "InitData", """
        match <LobbySyncState as VxTryFrom<GameSLobbySyncState>>::vx_tr(x.m_sync_lobby_state) { Some(s) => Some(InitData { ext_fs_id: 0u64, ext_fs_sha256: text(""@), ext_fs_file_name: text(""@), version: 0u32, sync_lobby_state: s }), None => None }"""),
    ]
    a = Section("p87702", "", [("versions/protocol87702/mod.rs", f"bit_packed::{t}") for t in n], sm.clones(n) + STANDIN, fns)
    items = [(ID, t) for t in ("InitData", "LobbySyncState", "UserInitialData", "GameDescription", "GameOptions", "GameType", "SlotDescription", "OptionFog", "OptionObservers", "OptionUserDifficulty", "LobbyState", "GamePhase", "LobbySlot", "RewardOverride")]
    consts = [(CO, c) for c in ["OBSERVE_NONE", "OBSERVE_SPECTATOR", "OBSERVE_REFEREE"] + ["GAME_SPEED_" + s for s in ("SLOWER", "SLOW", "NORMAL", "FAST", "FASTER")]]
    root = Section(items=items + consts, spec="pub use crate::p87702 as bit_packed;\n" + PRELUDE)
    return L.LIB, [a, root]
