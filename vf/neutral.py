"""Contracts for the translation to protocol-neutral events: C10 (tracker), C11 (game)."""
import re
from .core import Fn, Section
from . import libfns as L, gen, sm, stream

EV = "versions/protocol87702/events/"
V75 = "versions/protocol75689/mod.rs"
TYPES = stream.TYPES
B = "broadcast use {ax_vec, ax_string, ax_mk, ax_empty, lemma_mapped};"

PRELUDE = stream.PRELUDE + """
verus! {
pub trait VxFrom<A>: Sized {
    spec fn vx_spec(x: A) -> Self;
    fn vx_from(x: A) -> (r: Self) ensures r == Self::vx_spec(x);
}
pub fn vx_into<A, B: VxFrom<A>>(x: A) -> (r: B) ensures r == B::vx_spec(x) { B::vx_from(x) }
/// The vector with these elements.
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn ax_mk<T>(s: Seq<T>) ensures s.len() <= usize::MAX ==> (#[trigger] mk_vec(s))@ == s;
/// Moves the i-th element out of a vector that is consumed from front to back.
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
/// The text a byte string encodes in UTF-8, if it does.
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<String>;
#[verifier::external_body] pub struct Utf8Error { x: u8 }
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures match r { Ok(t) => utf8(b@) matches Some(s) && t@ == s@, Err(_) => utf8(b@) is None },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from_utf8(b: Vec<u8>) -> (r: Result<String, Utf8Error>)
    ensures match r { Ok(t) => utf8(b@) == Some(t), Err(_) => utf8(b@) is None },
{ unimplemented!() }
impl From<Utf8Error> for S2ProtocolError {
    #[verifier::external_body]
    fn from(e: Utf8Error) -> S2ProtocolError { unimplemented!() }
}
/// A text conversion error is never the "unsupported" error: error.rs maps it to a variant of its own.
pub broadcast axiom fn ax_err_utf8(e: Utf8Error, r: S2ProtocolError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S2ProtocolError, Utf8Error>(e, r) ==> !(r is UnsupportedEventType);
pub open spec fn to<A, B: VxFrom<A>>(x: A) -> B { B::vx_spec(x) }
pub open spec fn opt_to<A, B: VxFrom<A>>(x: Option<A>) -> Option<B> { match x { Some(v) => Some(B::vx_spec(v)), None => None } }
pub open spec fn vec_to<A, B: VxFrom<A>>(x: Vec<A>) -> Vec<B> { mk_vec(Seq::new(x@.len(), |i: int| B::vx_spec(x@[i]))) }
pub open spec fn mapped<A, B: VxFrom<A>>(x: Seq<A>, n: int, y: Seq<B>) -> bool { y.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] y[i] == B::vx_spec(x[i]) }
pub broadcast proof fn lemma_mapped<A, B: VxFrom<A>>(x: Vec<A>, n: int, y: Vec<B>)
    ensures (#[trigger] mapped(x@, n, y@) && n == x@.len()) ==> y == vec_to::<A, B>(x),
{
    broadcast use {ax_vec, ax_mk};
    if mapped(x@, n, y@) && n == x@.len() {
        let s = Seq::new(x@.len(), |i: int| B::vx_spec(x@[i]));
        assert(x@.len() <= usize::MAX) by { let k = x.len(); }
        assert(mk_vec::<B>(s)@ == s);
        assert(y@ =~= s);
    }
}
}
"""
UTF8 = [(r"(?:core|std)? ?(?:::)? ?\bstr :: from_utf8 \(", " vx_from_utf8("), (r"String :: from_utf8 \(", " vx_string_from_utf8("), (r"\. to_string \(\)", ".to_string()")]


def closure(T, root):
    """Names of the types that `root` is made of."""
    def deps(e, o):
        if e is None:
            return
        if e["k"] == "type":
            o.append(e["t"])
        if isinstance(e.get("e"), dict):
            deps(e["e"], o)
    seen, st = [], [root]
    while st:
        t = st.pop(0)
        if t in seen or t not in T:
            continue
        seen.append(t)
        d = T[t]
        o = []
        for x in {"struct": lambda: [f["e"] for f in d["fields"]], "wrap": lambda: [d["e"]], "choice": lambda: [v["e"] for v in d["variants"]]}[d["k"]]():
            deps(x, o)
        st += o
    return seen


def conv(file, src, dst, spec, pre="", path=None, std=True, **k):
    """`impl From<src> for dst`, proved to be `spec` (an expression over x)."""
    d = dst.split("::")[-1]
    return Fn(EV + file if "/" not in file or file.startswith(("game/", "tracker/")) else file, path or f"{d}asFrom<{src}>::from", impl=f"impl VxFrom<{src}> for {dst}", nopub=True, name="vx_from", std=std,
              attrs="#[verifier::loop_isolation(false)]\n", subst=UTF8, rettype="Self",
              inner=f"open spec fn vx_spec(x: {src}) -> Self {{ {spec} }}", pre=B + pre, **k)


def tconv(file, src, dst, spec, pre="", path=None, **k):
    """`impl TryFrom<src> for dst`; spec is an expression of type Tr<dst>."""
    d = dst.split("::")[-1]
    return Fn(EV + file if "/" not in file or file.startswith(("game/", "tracker/")) else file, path or f"{d}asTryFrom<{src}>::try_from", impl=f"impl VxTryFrom<{src}> for {dst}", nopub=True, name="vx_try_from", std=True,
              attrs="#[verifier::loop_isolation(false)]\n", subst=UTF8, rettype="Result<Self, S2ProtocolError>",
              inner=f"open spec fn vx_tr(x: {src}) -> Tr<Self> {{ {spec} }}", pre=B + pre, **k)


def fields(m):
    """`a b=e` -> `a: x.a, b: e`"""
    o = []
    for f in re.split(r"[,\s]\s*(?=\w+(?:=|[,\s]|$))", m.strip()):
        f = f.strip()
        if not f:
            continue
        n, _, e = f.partition("=")
        if e in ("to", "opt_to", "vec_to"):
            e = f"{e}(x.{n})"
        o.append(f"{n}: {e or 'x.' + n}")
    return ", ".join(o)


# ------------------------------------------------------------------------------------------ C10
TM = "tracker/mod.rs"
TE = "ReplayTrackerEvent"
STATS = [f["n"] for f in gen.G["87702"]["byte_aligned"]["types"]["ReplayTrackerSPlayerStats"]["fields"]]


def stat(n):
    k = n.replace("m_score_value_", "")
    return f"{k}: " + (f"tdiv(x.{n} as int, 4096) as i32" if k in ("food_used", "food_made") else f"x.{n}")


def un(fs):
    return ", ".join(f"{f}: x.m_{f}" for f in fs.split())


TAG = "unit_tag_index unit_tag_recycle"
OWN = "control_player_id upkeep_player_id"
TR = [
    conv(TM, "ReplayTrackerSPlayerStats", "PlayerStats", "PlayerStats { " + ", ".join(map(stat, STATS)) + " }"),
    conv(TM, "ReplayTrackerSPlayerStatsEvent", TE, f"{TE}::PlayerStats(PlayerStatsEvent {{ player_id: x.m_player_id, stats: to(x.m_stats) }})"),
    conv(TM, "ReplayTrackerSPlayerSetupEvent", TE, f"{TE}::PlayerSetup(PlayerSetupEvent {{ m_type: x.m_type, {un('player_id user_id slot_id')} }})"),
    conv(TM, "ReplayTrackerSUnitPositionsEvent", TE, f"{TE}::UnitPosition(UnitPositionsEvent {{ {un('first_unit_index items')} }})"),
    conv(TM, "ReplayTrackerSUnitDoneEvent", TE, f"{TE}::UnitDone(UnitDoneEvent {{ {un(TAG)} }})"),
    conv(TM, "ReplayTrackerSUnitDiedEvent", TE, f"{TE}::UnitDied(UnitDiedEvent {{ {un(TAG + ' killer_player_id x y killer_unit_tag_index killer_unit_tag_recycle')} }})"),
    conv(TM, "ReplayTrackerSUnitOwnerChangeEvent", TE, f"{TE}::UnitOwnerChange(UnitOwnerChangeEvent {{ {un(TAG + ' ' + OWN)} }})"),
    tconv(TM, "ReplayTrackerSUnitTypeChangeEvent", TE, f"match utf8(x.m_unit_type_name@) {{ None => Tr::Failed, Some(n) => Tr::Event({TE}::UnitTypeChange(UnitTypeChangeEvent {{ {un(TAG)}, unit_type_name: n }})) }}"),
    tconv(TM, "ReplayTrackerSUnitInitEvent", TE, f"match utf8(x.m_unit_type_name@) {{ None => Tr::Failed, Some(n) => Tr::Event({TE}::UnitInit(UnitInitEvent {{ {un(TAG + ' ' + OWN + ' x y')}, unit_type_name: n }})) }}"),
    tconv(TM, "ReplayTrackerSUnitBornEvent", TE, f"""
        let a: Option<Option<String>> = match x.m_creator_ability_name {{ None => Some(None), Some(b) => match utf8(b@) {{ None => None, Some(n) => Some(Some(n)) }} }};
        match (utf8(x.m_unit_type_name@), a) {{
            (Some(n), Some(a)) => Tr::Event({TE}::UnitBorn(UnitBornEvent {{ {un(TAG + ' ' + OWN + ' x y creator_unit_tag_index creator_unit_tag_recycle')}, unit_type_name: n, creator_ability_name: a }})),
            _ => Tr::Failed }}"""),
]
# an upgrade whose name is not text still translates; which text stands in for the name is left open
UPGRADE = tconv(TM, "ReplayTrackerSUpgradeEvent", TE, f"Tr::Event({TE}::Upgrade(UpgradeEvent {{ {un('player_id count')}, player_name: None, upgrade_type_name: match utf8(x.m_upgrade_type_name@) {{ Some(n) => n, None => stand_in(x.m_upgrade_type_name@) }} }}))")
KINDS = {"UnitBorn", "UnitTypeChange", "Upgrade", "UnitInit"}


def tracker_top():
    v = gen.G["87702"]["byte_aligned"]["types"]["ReplayTrackerEEventId"]["variants"]
    arms = []
    for x in v:
        n, t = x["n"], x["e"]["t"]
        arms.append(f"ReplayTrackerEEventId::{n}(e) => " + (f"<{TE} as VxTryFrom<{t}>>::vx_tr(e)" if n[1:] in KINDS else "Tr::Event(to(e))"))
    return tconv(TM, "ReplayTrackerEEventId", TE, "match x { " + ", ".join(arms) + " }")


STANDIN = """
verus! {
/// The text that stands in for bytes that encode none: left open.
pub uninterp spec fn stand_in(b: Seq<u8>) -> String;
#[verifier::external_body]
pub fn vx_fmt_debug(b: &Vec<u8>) -> (r: String) ensures r == stand_in(b@) { unimplemented!() }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
}
"""


def c10():
    T = gen.G["87702"]["byte_aligned"]["types"]
    names = closure(T, "ReplayTrackerEEventId")
    UPGRADE.subst = UTF8 + [(r"vx_string \(\)", "vx_fmt_debug(&source.m_upgrade_type_name)")]
    a = Section("byte_aligned", "", [("versions/protocol87702/mod.rs", f"byte_aligned::{n}") for n in names],
                sm.clones(names), TR + [UPGRADE, tracker_top()], use="\nbroadcast use ax_err_utf8;")
    root = Section(items=TYPES, spec=PRELUDE + STANDIN + EMPTY)
    return L.LIB, [a, root]


# ------------------------------------------------------------------------------------------ C11
GE = "ReplayGameEvent"
GM, CAM, CMD, CG, MOU, SEL, UNI, USR, COM = "game/mod.rs", "game/camera.rs", "game/cmd.rs", "game/control_group.rs", "game/mouse.rs", "game/selection.rs", "game/unit.rs", "game/user.rs", "common.rs"


def S(file, name, m, src=None):
    """a struct of the same name on both sides"""
    return conv(file, src or name, f"crate::{name}", f"crate::{name} {{ {fields(m)} }}")


def ev(file, src, variant, m, ty=None):
    """a game event: the neutral payload type has the source's name unless given"""
    return conv(file, src, GE, f"{GE}::{variant}(crate::{ty or src} {{ {fields(m)} }})")


def num(file, src, ty, e, path):
    return conv(file, src, ty, e, path=path)


NUMS = [("Uint32", "u32", "x.value as u32"), ("Int8", "i8", "x.value as i8"), ("Uint8", "u8", "x.value as u8"), ("Uint16", "u16", "x.value as u16"),
        ("Int16", "i16", "x.value as i16"), ("Int32", "i32", "x.value as i32"), ("TUserId", "u8", "x.value as u8")]
ALIAS = [(GM, "GameTFixedMiniBitsUnsigned", "i64", "x.value.value"), (GM, "GameTFixedMiniBitsSigned", "i16", "x.value.value as i16"),
         (GM, "GameTSelectionIndex", "u16", "x.value as u16"), (GM, "GameTUnitLink", "u16", "x.value.value as u16"), (GM, "GameTUnitTag", "u32", "x.value.value as u32"),
         (CG, "GameTControlGroupIndex", "u8", "x.value as u8"), (SEL, "GameTControlGroupId", "u8", "x.value as u8"),
         (SEL, "GameTSubgroupIndex", "u16", "x.value as u16"), (SEL, "GameTSubgroupPriority", "u8", "x.value as u8"), (SEL, "GameTSelectionCount", "u16", "x.value as u16"),
         (SEL, "GameTSubgroupCount", "u16", "x.value as u16"), (SEL, "GameTSyncChecksum", "u32", "to(x.value)")]


def enum(file, n, f=lambda v: v):
    vs = [v["n"] for v in gen.G["87702"]["bit_packed"]["types"][n]["variants"]]
    return conv(file, n, f"crate::{n}", "match x { " + ", ".join(f"{n}::{v} => crate::{n}::{f(v)}" for v in vs) + " }")


CMD_SPEC = "m_cmd_flags m_abil=opt_to m_data=to m_sequence m_other_unit=opt_to m_unit_group=opt_to"
CMD_EV = "event of a command"
N = "match x.%s { Some(p) => Some(p.value%s), None => None }"


def cmd():
    return ev(CMD, "GameSCmdEvent", "Cmd", CMD_SPEC)


def g_impls():
    abil = "crate::GameSCmdAbil { m_abil_link: to(x.m_abil_link.value), ability: empty_string(), m_abil_cmd_index: x.m_abil_cmd_index, m_abil_cmd_data: opt_to(x.m_abil_cmd_data) }"
    tgt = ("crate::GameSCmdDataTargetUnit { m_target_unit_flags: to(x.m_target_unit_flags), m_timer: to(x.m_timer), m_tag: to(x.m_tag), m_snapshot_unit_link: to(x.m_snapshot_unit_link), "
           f"m_snapshot_control_player_id: {N % ('m_snapshot_control_player_id', '')}, m_snapshot_upkeep_player_id: {N % ('m_snapshot_upkeep_player_id', '')}, m_snapshot_point: to(x.m_snapshot_point) }}")
    d, m = "GameSCmdData", "GameSSelectionMask"
    o = [conv(COM, n, t, e) for n, t, e in NUMS]
    o += [conv(f, n, t, e, path=f"{n}asFrom<{n}>::from") for f, n, t, e in ALIAS]
    o += [
        conv(GM, "GameSMapCoord3D", "crate::GameSMapCoord3D", "crate::GameSMapCoord3D { x: x.x.value, y: x.y.value, z: to(x.z.value) }"),
        conv(GM, "GameSuiCoord", "crate::GameSuiCoord", "crate::GameSuiCoord { x: x.x.value as u16, y: x.y.value as u16 }"),
        conv(GM, "GameSPointMini", "crate::GameSPointMini", "crate::GameSPointMini { x: to(x.x), y: to(x.y) }"),
        conv(CAM, "GameSCameraSaveEvent", GE, f"{GE}::CameraSave(crate::CameraSaveEvent {{ {fields('m_which m_target=to')} }})"),
        conv(CAM, "GameSCameraUpdateEvent", GE, f"{GE}::CameraUpdate(crate::CameraUpdateEvent {{ {fields('m_target=opt_to m_distance=opt_to m_pitch=opt_to m_yaw=opt_to m_reason=opt_to m_follow')} }})"),
        conv(CMD, "GameSCmdAbil", "crate::GameSCmdAbil", abil),
        conv(CMD, "GameSCmdDataTargetUnit", "crate::GameSCmdDataTargetUnit", tgt),
        conv(CMD, d, f"crate::{d}", f"match x {{ {d}::None(u) => crate::{d}::None, {d}::TargetPoint(v) => crate::{d}::TargetPoint(to(v)), {d}::TargetUnit(v) => crate::{d}::TargetUnit(to(v)), {d}::Data(v) => crate::{d}::Data(to(v)) }}"),
        cmd(),
        ev(CMD, "GameSCmdUpdateTargetPointEvent", "CmdUpdateTargetPoint", "m_target=to"),
        ev(CMD, "GameSCmdUpdateTargetUnitEvent", "CmdUpdateTargetUnit", "m_target=to"),
        enum(CMD, "GameECommandManagerState"),
        ev(CMD, "GameSCommandManagerStateEvent", "CommandManagerState", "m_state=to m_sequence"),
        enum(CG, "GameEControlGroupUpdate"),
        tconv(SEL, m, f"crate::{m}", f"Tr::Event(mask_of(x))"),
        tconv(CG, "GameSControlGroupUpdateEvent", GE, f"Tr::Event({GE}::ControlGroupUpdate(crate::GameSControlGroupUpdateEvent {{ m_control_group_index: to(x.m_control_group_index), m_control_group_update: to(x.m_control_group_update), m_mask: mask_of(x.m_mask) }}))"),
        ev(MOU, "GameSTriggerMouseClickedEvent", "TriggerMouseClicked", "m_button=to m_down m_pos_ui=to m_pos_world=to m_flags=to"),
        ev(MOU, "GameSTriggerMouseMovedEvent", "TriggerMouseMoved", "m_pos_ui=to m_pos_world=to m_flags=to"),
        ev(MOU, "GameSTriggerMouseWheelEvent", "TriggerMouseWheel", "m_wheel_spin=to m_flags=to"),
        conv(SEL, "GameSelectionMaskType", "crate::GameSelectionMaskType", "crate::GameSelectionMaskType { value: x.value }"),
        conv(SEL, "GameSelectionIndexArrayType", "crate::GameSelectionIndexArrayType", "crate::GameSelectionIndexArrayType { value: vec_to(x.value) }",
             inv={0: push("res")}, post=""),
        S(SEL, "GameSSelectionDeltaSubgroup", "m_unit_link=to m_subgroup_priority=to m_intra_subgroup_priority=to m_count=to"),
        tconv(SEL, "GameSSelectionDelta", "crate::GameSSelectionDelta", "Tr::Event(delta_of(x))", inv={0: push("m_add_subgroups", 0), 1: push("m_add_unit_tags", 1)}),
        tconv(SEL, "GameSSelectionDeltaEvent", GE, f"Tr::Event({GE}::SelectionDelta(crate::GameSSelectionDeltaEvent {{ m_control_group_id: to(x.m_control_group_id), m_delta: delta_of(x.m_delta) }}))"),
        S(SEL, "GameSSelectionSyncData", "m_count=to m_subgroup_count=to m_active_subgroup_index=to m_unit_tags_checksum=to m_subgroup_indices_checksum=to m_subgroups_checksum=to"),
        ev(SEL, "GameSSelectionSyncCheckEvent", "SelectionSyncCheck", "m_control_group_id=to m_selection_sync_data=to"),
        ev(UNI, "GameSUnitClickEvent", "UnitClick", "m_unit_tag=to"),
        ev(UNI, "GameSUnitHighlightEvent", "UnitHighlight", "m_unit_tag=to m_flags=to"),
        enum(USR, "ELeaveReason", lambda v: v[1:]),
        conv(USR, "GameSDropUserEvent", GE, f"{GE}::DropUser(crate::DropUserEvent {{ {fields('m_drop_session_user_id=to m_reason=to')} }})"),
        conv(GM, "GameSTriggerChatMessageEvent", GE, f"{GE}::TriggerChatMessage(crate::GameSTriggerChatMessageEvent {{ m_chat_message: match utf8(x.m_chat_message.value@) {{ Some(n) => n, None => stand_in(x.m_chat_message.value@) }} }})"),
        ev(GM, "GameSTriggerReplySelectedEvent", "TriggerReplySelected", "m_conversation_id=to m_reply_id=to"),
        ev(GM, "GameSTriggerHotkeyPressedEvent", "TriggerHotkeyPressed", "m_hotkey=to m_down"),
        ev(GM, "GameSTriggerTargetModeUpdateEvent", "TriggerTargetModeUpdate", "m_abil_link=to(x.m_abil_link.value) ability=empty_string() m_abil_cmd_index m_state=to"),
        ev(GM, "GameSTriggerKeyPressedEvent", "TriggerKeyPressed", "m_key=to m_flags=to"),
        ev(GM, "GameSTriggerButtonPressedEvent", "TriggerButtonPressed", "m_button=to(x.m_button.value)"),
    ]
    o[-6].subst = UTF8 + [(r"vx_string \(\)", "vx_fmt_debug(&source.m_chat_message.value)")]
    assert o[-6].path.startswith("ReplayGameEventasFrom<GameSTriggerChat")
    return o


def push(out, k=0):
    return f"""        invariant vx_i{k} <= vx_n{k}, vx_n{k} == vx_v{k}@.len(), mapped(vx_v{k}@, vx_i{k} as int, {out}@),
        decreases vx_n{k} - vx_i{k},"""


G_SPEC = """
verus! {
pub open spec fn mask_of(x: GameSSelectionMask) -> crate::GameSSelectionMask {
    match x { GameSSelectionMask::None(u) => crate::GameSSelectionMask::None, GameSSelectionMask::Mask(v) => crate::GameSSelectionMask::Mask(to(v)),
        GameSSelectionMask::OneIndices(v) => crate::GameSSelectionMask::OneIndices(to(v)), GameSSelectionMask::ZeroIndices(v) => crate::GameSSelectionMask::ZeroIndices(to(v)) }
}
pub open spec fn delta_of(x: GameSSelectionDelta) -> crate::GameSSelectionDelta {
    crate::GameSSelectionDelta { m_subgroup_index: to(x.m_subgroup_index), m_remove_mask: mask_of(x.m_remove_mask), m_add_subgroups: vec_to(x.m_add_subgroups), m_add_unit_tags: vec_to(x.m_add_unit_tags) }
}
}
"""
SUPPORTED = {"EDropUser": 0, "ECameraSave": 0, "ECmd": 0, "ESelectionDelta": 1, "EControlGroupUpdate": 1, "ESelectionSyncCheck": 0, "ETriggerChatMessage": 0, "EUnitClick": 0,
             "EUnitHighlight": 0, "ETriggerReplySelected": 0, "ECameraUpdate": 0, "ETriggerMouseClicked": 0, "ETriggerMouseMoved": 0, "ETriggerHotkeyPressed": 0,
             "ETriggerTargetModeUpdate": 0, "ETriggerKeyPressed": 0, "ETriggerMouseWheel": 0, "ETriggerButtonPressed": 0, "ECommandManagerState": 0,
             "ECmdUpdateTargetPoint": 0, "ECmdUpdateTargetUnit": 0}


def game_top(ver, file, path):
    arms = []
    for x in gen.G[ver]["bit_packed"]["types"]["GameEEventId"]["variants"]:
        n = x["n"]
        if n in SUPPORTED:
            arms.append(f"GameEEventId::{n}(e) => " + (f"<{GE} as VxTryFrom<{x['e']['t']}>>::vx_tr(e)" if SUPPORTED[n] else "Tr::Event(to(e))"))
    return tconv(file, "GameEEventId", GE, "match x { " + ", ".join(arms) + ", _ => Tr::Unsupported }", path=path)


def c11():
    T87, T75 = gen.G["87702"]["bit_packed"]["types"], gen.G["75689"]["bit_packed"]["types"]
    n87 = closure(T87, "GameEEventId")
    own = closure(T75, "GameEEventId")
    ext = [n for n in gen.G["75689"]["bit_packed"]["reexports"] if n in n87]
    a = Section("p87702", "", [("versions/protocol87702/mod.rs", f"bit_packed::{n}") for n in n87], sm.clones(n87) + G_SPEC,
                g_impls() + [game_top("87702", GM, None)], use="\nbroadcast use ax_err_utf8;")
    c75 = conv(V75, "GameSCmdEvent", GE, cmd_spec(), path=f"bit_packed::{GE}asFrom<GameSCmdEvent>::from")
    b = Section("p75689", stream.uses(V75, r"bit_packed::(" + "|".join(ext) + ");"), [(V75, f"bit_packed::{n}") for n in own], sm.clones(own),
                [c75, game_top("75689", V75, f"bit_packed::{GE}asTryFrom<GameEEventId>::try_from")], use="\nbroadcast use ax_err_utf8;")
    root = Section(items=TYPES, spec="pub use crate::p87702 as bit_packed;\n" + PRELUDE + STANDIN + EMPTY + stream.MODS_G)
    return L.LIB, [a, b, root]


def cmd_spec():
    return f"{GE}::Cmd(crate::GameSCmdEvent {{ {fields(CMD_SPEC)} }})"


EMPTY = """
pub mod game_events { pub use crate::*; }
pub mod tracker_events { pub use crate::*; }
verus! {
pub uninterp spec fn empty_string() -> String;
pub broadcast axiom fn ax_empty(s: String) ensures #[trigger] s@ == Seq::<char>::empty() ==> s == empty_string();
}
"""
