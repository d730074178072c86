"""Contracts for the event streams: C07 (tracker), C08 (game)."""
import os, re
from .core import Fn, Section, REPO
from . import libfns as L, gen, sm

TI, GI = "tracker_events/iterator.rs", "game_events/iterator.rs"
V87, V75 = "versions/protocol87702/mod.rs", "versions/protocol75689/mod.rs"


def uses(f, keep):
    """The `use crate::versions...` lines of a source file: they name the decoders its code calls."""
    try:
        t = open(os.path.join(REPO, "src", f)).read()
    except OSError:
        return ""
    t = re.sub(r"//[^\n]*", "", t)
    return "\n".join(u for u in re.findall(r"^[ \t]*(?:pub )?use crate::versions::[^;]*;", t, re.M) if re.search(keep, u))


# sm's stand-ins for the types the event types mention, without its ordering and float parts
_i = sm.PRELUDE.index("pub trait VxFrom")
_j = sm.PRELUDE.index("/// Two vectors (strings)")
_k = sm.PRELUDE.index("pub trait VxOrd")
PRELUDE = (sm.PRELUDE[:_i] + sm.PRELUDE[_j:_k]).replace("pub struct VersionedBalanceUnits { x: u8 }",
    "pub struct VersionedBalanceUnit { x: u8 }\npub type VersionedBalanceUnits = HashMap<String, VersionedBalanceUnit>;") + """
/// Distance in memory from `base` to `tail`, which every decoder returns as an end of its input.
#[verifier::external_body]
pub fn vx_ptr_diff(tail: &[u8], base: &[u8]) -> (r: usize)
    requires is_tail(tail@, base@),
    ensures r == base@.len() - tail@.len(),
{ unimplemented!() }
pub open spec fn is_tail(t: Seq<u8>, b: Seq<u8>) -> bool { t.len() <= b.len() && t == b.skip(b.len() - t.len()) }

/// What translating a protocol-specific value gives.
pub enum Tr<N> { Event(N), Unsupported, Failed }
pub trait VxTryFrom<A>: Sized {
    spec fn vx_tr(x: A) -> Tr<Self>;
    fn vx_try_from(x: A) -> (r: Result<Self, S2ProtocolError>) ensures translated(Self::vx_tr(x), r);
}
pub open spec fn translated<B>(t: Tr<B>, r: Result<B, S2ProtocolError>) -> bool {
    match t { Tr::Event(n) => r == Ok::<B, S2ProtocolError>(n), Tr::Unsupported => r matches Err(e) && e is UnsupportedEventType, Tr::Failed => r matches Err(e) && !(e is UnsupportedEventType) }
}
pub fn vx_try_into<A, B: VxTryFrom<A>>(x: A) -> (r: Result<B, S2ProtocolError>) ensures translated(B::vx_tr(x), r) { B::vx_try_from(x) }
}
"""
PRELUDE_TAIL = "verus! {\npub open spec fn is_tail(t: Seq<u8>, b: Seq<u8>) -> bool { t.len() <= b.len() && t == b.skip(b.len() - t.len()) }\n}\n"
TYPES = [i for i in sm.ITEMS if i[1] not in ("ACTIVE_UNITS_GROUP_IDX", "UNIT_POSITION_RATIO", "GAME_EVENT_POS_RATIO")]
CLONES = sm.clones(["ReplayTrackerEvent", "ReplayGameEvent", "SC2EventType"])
ST = "state/mod.rs"
MODS_T = """
pub mod versions {
    pub mod protocol87702 { pub use crate::byte_aligned; }
    pub mod protocol75689 { pub mod byte_aligned {
%s
    } }
}
"""
MODS = """
pub mod versions {
    pub mod protocol87702 { pub use crate::p87702 as bit_packed; pub use crate::byte_aligned; }
    pub mod protocol75689 { pub use crate::p75689 as bit_packed; pub mod byte_aligned {
%s
    } }
}
"""


def opaque(t, tag, byte):
    """An event type by what C05/C06 prove of its decoder."""
    S, i, tl, w = ("Seq<u8>", "input@", "t@", "") if byte else ("P", "p(input)", "p(t)", " && wf(t)")
    ty = "&[u8]" if byte else "(&[u8], usize)"
    req = "" if byte else " requires wf(input),"
    ist = "is_tail(t@, input@)" if byte else "is_tail(t.0@, input.0@)"
    return f"""
#[verifier::external_body]
pub struct {t} {{ x: u8 }}
pub uninterp spec fn s_{t}(q: {S}) -> Option<({t}, {S})>;
impl {t} {{
    #[verifier::external_body]
    pub fn parse(input: {ty}) -> (res: S2ProtoResult<{ty}, {t}>)
       {req}
        ensures match res {{ Ok((t, v)) => s_{t}({i}) == Some((v, {tl})) && {ist}{w}, Err(e) => s_{t}({i}) is None && parse_err(e) }},
    {{ unimplemented!() }}
}}"""


WFT = """
verus! {
pub const MAX_STREAM: int = 0x7fff_ffff;
"""

# ------------------------------------------------------------------------------------------ C07
T_SPEC = """
verus! {
impl VxTryFrom<ReplayTrackerEEventId> for ReplayTrackerEvent {
    uninterp spec fn vx_tr(x: ReplayTrackerEEventId) -> Tr<Self>;
    #[verifier::external_body]
    fn vx_try_from(x: ReplayTrackerEEventId) -> (r: Result<Self, S2ProtocolError>) { unimplemented!() }
}
pub open spec fn tdelta(d: byte_aligned::SVarUint32) -> int {
    match d { byte_aligned::SVarUint32::MUint6(v) => v as int, byte_aligned::SVarUint32::MUint14(v) => v as int,
              byte_aligned::SVarUint32::MUint22(v) => v as int, byte_aligned::SVarUint32::MUint32(v) => v as int }
}
/// One record: its delta, then its event.
pub open spec fn s_trec(s: Seq<u8>) -> Option<((int, ReplayTrackerEEventId), Seq<u8>)> {
    match byte_aligned::s_SVarUint32(s) { None => None, Some((d, t)) => match byte_aligned::s_ReplayTrackerEEventId(t) { None => None, Some((e, u)) => Some(((tdelta(d), e), u)) } }
}
/// The supported events of what is left of a stream whose loop counter stands at `at`.
pub open spec fn t_events(s: Seq<u8>, at: int) -> Seq<SC2EventType>
    decreases s.len()
{
    match s_trec(s) {
        Some(((d, e), t)) => if t.len() >= s.len() { Seq::empty() } else {
            match <ReplayTrackerEvent as VxTryFrom<ReplayTrackerEEventId>>::vx_tr(e) {
                Tr::Event(n) => seq![SC2EventType::Tracker { tracker_loop: (at + d) as i64, event: n }] + t_events(t, at + d),
                Tr::Unsupported => t_events(t, at + d),
                Tr::Failed => Seq::empty(),
            } },
        None => Seq::empty(),
    }
}
pub open spec fn at_loop(e: SC2EventType) -> int { match e { SC2EventType::Tracker { tracker_loop, .. } => tracker_loop as int, SC2EventType::Game { game_loop, .. } => game_loop as int } }
pub open spec fn in_order(e: Seq<SC2EventType>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> at_loop(#[trigger] e[i]) <= at_loop(#[trigger] e[j]) }
/// Loop numbers never decrease along the stream.
pub proof fn lemma_t_order(s: Seq<u8>, at: int)
    requires 0 <= at, at + s.len() * 0x1_0000_0000 <= i64::MAX,
    ensures in_order(t_events(s, at)), forall|i: int| 0 <= i < t_events(s, at).len() ==> (#[trigger] t_events(s, at)[i]) is Tracker && at_loop(t_events(s, at)[i]) >= at,
    decreases s.len(),
{
    lemma_trec(s);
    match s_trec(s) { Some(((d, e), t)) => if t.len() < s.len() {
        lemma_t_order(t, at + d);
        let r = t_events(t, at + d);
        match <ReplayTrackerEvent as VxTryFrom<ReplayTrackerEEventId>>::vx_tr(e) {
            Tr::Event(n) => { let h = seq![SC2EventType::Tracker { tracker_loop: (at + d) as i64, event: n }]; let all = h + r;
                assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]) is Tracker && at_loop(all[i]) >= at + d by { if i > 0 { assert(all[i] == r[i - 1]); } }
                assert forall|i: int, j: int| 0 <= i < j < all.len() implies at_loop(#[trigger] all[i]) <= at_loop(#[trigger] all[j]) by { assert(all[j] == r[j - 1]); if i > 0 { assert(all[i] == r[i - 1]); } } },
            _ => {} } }, None => {} }
}
/// What C17 relies on: the events to come are tracker events in loop order.
pub proof fn c07_order(x: TrackertEventIteratorState)
    requires t_wf(x),
    ensures in_order(t_left(x)), forall|i: int| 0 <= i < t_left(x).len() ==> (#[trigger] t_left(x)[i]) is Tracker,
{ assert(t_rest(x).len() == x.event_data@.len() - x.byte_index); lemma_t_order(t_rest(x), x.event_loop as int); }
pub open spec fn t_rest(x: TrackertEventIteratorState) -> Seq<u8> { x.event_data@.skip(x.byte_index as int) }
pub open spec fn t_left(x: TrackertEventIteratorState) -> Seq<SC2EventType> { t_events(t_rest(x), x.event_loop as int) }
pub proof fn lemma_trec(s: Seq<u8>)
    ensures match s_trec(s) { Some(((d, e), t)) => 0 <= d < 0x1_0000_0000, None => true }, s.len() == 0 ==> s_trec(s) is None,
{ lemma_delta(s); }
pub open spec fn t_wf(x: TrackertEventIteratorState) -> bool {
    x.byte_index <= x.event_data@.len() <= 0x7fff_ffff && 0 <= x.event_loop <= x.byte_index * 0x1_0000_0000
}
pub broadcast proof fn lemma_tail(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] is_tail(b, a), #[trigger] is_tail(c, b),
    ensures is_tail(c, a),
{ assert(c =~= a.skip(a.len() - c.len())); }
pub proof fn lemma_groups_used(s: Seq<u8>, i: int)
    ensures match vlq_groups(s, i) { Some((w, e)) => i < e <= s.len(), None => true },
    decreases s.len() - i,
{ if 0 <= i < s.len() && s[i] >= 128 { lemma_groups_used(s, i + 1); } }
pub proof fn lemma_vlq_used(s: Seq<u8>)
    ensures match vlq_raw(s) { Some((m, used)) => 0 < used <= s.len(), None => true },
{ if s.len() > 0 && s[0] >= 128 { lemma_groups_used(s, 1); } }
pub proof fn lemma_vlq_tail(s: Seq<u8>)
    ensures match s_vlq(s) { Some((n, t)) => is_tail(t, s) && t.len() < s.len(), None => true },
{ lemma_vlq_used(s); match s_vlq(s) { Some((n, t)) => { assert(t =~= s.skip(s.len() - t.len())); }, None => {} } }
/// The delta of a record takes at least one byte and is a 32-bit number.
pub proof fn lemma_delta(s: Seq<u8>)
    ensures match byte_aligned::s_SVarUint32(s) { Some((d, t)) => t.len() < s.len() && is_tail(t, s) && 0 <= tdelta(d) < 0x1_0000_0000, None => true },
{
    broadcast use lemma_tail;
    reveal(byte_aligned::s_SVarUint32); reveal(byte_aligned::s_SVarUint32__MUint6); reveal(byte_aligned::s_SVarUint32__MUint14);
    reveal(byte_aligned::s_SVarUint32__MUint22); reveal(byte_aligned::s_SVarUint32__MUint32);
    match s_tag(s, 3) { None => {}, Some(t0) => { lemma_vlq_tail(t0); assert(is_tail(t0, s)) by { assert(t0 =~= s.skip(s.len() - t0.len())); }
        match s_vlq(t0) { None => {}, Some((n, t)) => {
            match s_tag(t, 9) { None => {}, Some(u) => { lemma_vlq_tail(u); assert(is_tail(u, t)) by { assert(u =~= t.skip(t.len() - u.len())); } } }
        } } } }
}
}
"""
PAIR = Fn("versions/protocol87702/events/tracker/mod.rs", "ReplayTrackerEEventId::parse_event_pair", std=True, spec="""    ensures match res {
        Ok((t, v)) => s_trec(input@) == Some(((v.0 as int, v.1), t@)) && is_tail(t@, input@) && t@.len() < input@.len(),
        Err(e) => s_trec(input@) is None && parse_err(e),
    },""", pre="broadcast use lemma_tail; proof { lemma_delta(input@); }")
READ = Fn(TI, "TrackertEventIteratorState::read_versioned_tracker_event", std=True, spec="""    requires t_wf(*old(self)),
    ensures t_wf(*final(self)), final(self).event_data == old(self).event_data,
        match s_trec(t_rest(*old(self))) {
            Some(((d, e), t)) => t_rest(*final(self)) == t && final(self).event_loop == old(self).event_loop + d && final(self).byte_index > old(self).byte_index
                && match <ReplayTrackerEvent as VxTryFrom<ReplayTrackerEEventId>>::vx_tr(e) {
                    Tr::Event(n) => res == Ok::<TrackerEvent, S2ProtocolError>(TrackerEvent { delta: d as u32, event: n }),
                    Tr::Unsupported => res matches Err(x) && x is UnsupportedEventType,
                    Tr::Failed => res matches Err(x) && !(x is UnsupportedEventType) },
            None => *final(self) == *old(self) && (res matches Err(x) && parse_err(x)),
        },""", pre="let ghost s0 = *self; proof { lemma_trec(t_rest(s0)); assert(t_rest(s0) == s0.event_data@.subrange(s0.byte_index as int, s0.event_data@.len() as int)); }")
NEXT = Fn(TI, "TrackertEventIteratorState::get_next_event", std=True, spec="""    requires t_wf(*old(self)),
    ensures t_wf(*final(self)), final(self).event_data == old(self).event_data,
        match res { Some(x) => t_left(*old(self)) == seq![x] + t_left(*final(self)), None => t_left(*old(self)) =~= Seq::<SC2EventType>::empty() && t_left(*final(self)) =~= Seq::<SC2EventType>::empty() },""",
    inv={0: """        invariant t_wf(*self), self.event_data == old(self).event_data, t_left(*self) == t_left(*old(self)),
        decreases self.event_data@.len() - self.byte_index,"""}, ls={0: "let ghost s1 = *self; proof { lemma_trec(t_rest(s1)); }"})


def start(file, ty, wf, also=""):
    return Fn(file, f"{ty}asFrom<Vec<u8>>::from", impl=f"impl {ty}", name="vx_start", nopub=True, std=True,
              spec=f"    requires event_data@.len() <= 0x7fff_ffff,\n    ensures res.event_data == event_data, res.event_loop == 0, res.byte_index == 0, {also}{wf}(res),")


def c07():
    g = gen.Gen("87702", "byte_aligned", {k: gen.G["87702"]["byte_aligned"]["types"][k] for k in ["SVarUint32"]}, {})
    ba = g.section("byte_aligned", trusted=())
    for f in ba.fns:
        f.trusted = True
    ba.spec += "\nverus! {" + opaque("ReplayTrackerEEventId", "t", True) + "\n}"
    root = Section(items=TYPES + [("tracker_events/mod.rs", "TrackerEvent"), (ST, "SC2EventType"), (TI, "TrackertEventIteratorState")],
                   spec="use byte_aligned::{ReplayTrackerEEventId, SVarUint32};\n" + uses(TI, "ReplayTrackerEEventId") + PRELUDE + CLONES + MODS_T % uses(V75, r"byte_aligned::ReplayTrackerEEventId;") + T_SPEC, fns=[PAIR, READ, NEXT, start(TI, "TrackertEventIteratorState", "t_wf")])
    return L.LIB + L.BA_LEMMAS + L.EXTRA, [ba, root]


# ------------------------------------------------------------------------------------------ C08
MODS_G = """
pub mod versions {
    pub mod protocol87702 { pub use crate::p87702 as bit_packed; }
    pub mod protocol75689 { pub use crate::p75689 as bit_packed; }
}
"""
TR = "<ReplayGameEvent as VxTryFrom<%s::GameEEventId>>::vx_tr(%s)"


def rec(v):
    """One game record: delta, user, event, padding to the next byte."""
    return f"""
pub open spec fn s_grec{v[1:3]}(q: P) -> Option<((int, i64, {v}::GameEEventId), P)> {{
    match p87702::s_SVarUint32(q) {{ None => None, Some((d, t)) => match p87702::s_ReplaySGameUserId(t) {{ None => None, Some((u, w)) =>
        match {v}::s_GameEEventId(w) {{ None => None, Some((e, x)) => match s_align(x) {{ None => None, Some(y) => Some(((gdelta(d), u.m_user_id, e), y)) }} }} }} }}
}}
/// What a record means: its delta, its user and the neutral event it holds.
pub open spec fn s_gmean{v[1:3]}(q: P) -> Option<((int, i64, Tr<ReplayGameEvent>), P)> {{
    match s_grec{v[1:3]}(q) {{ None => None, Some(((d, u, e), t)) => Some(((d, u, {TR % (v, 'e')}), t)) }}
}}
pub proof fn lemma_grec{v[1:3]}(q: P)
    requires 0 <= q.o < 8,
    ensures match s_grec{v[1:3]}(q) {{ Some(((d, u, e), t)) => 0 <= d < 0x1_0000_0000, None => true }}, q.s.len() == 0 ==> s_grec{v[1:3]}(q) is None,
{{ lemma_gdelta(q); }}
impl VxTryFrom<{v}::GameEEventId> for ReplayGameEvent {{
    uninterp spec fn vx_tr(x: {v}::GameEEventId) -> Tr<Self>;
    #[verifier::external_body]
    fn vx_try_from(x: {v}::GameEEventId) -> (r: Result<Self, S2ProtocolError>) {{ unimplemented!() }}
}}
"""


G_ORDER = """pub open spec fn at_loop(e: SC2EventType) -> int { match e { SC2EventType::Tracker { tracker_loop, .. } => tracker_loop as int, SC2EventType::Game { game_loop, .. } => game_loop as int } }
pub open spec fn in_order(e: Seq<SC2EventType>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> at_loop(#[trigger] e[i]) <= at_loop(#[trigger] e[j]) }
/// Loop numbers never decrease along the stream.
pub proof fn lemma_g_order(v: u32, q: P, at: int, n: Names)
    requires 0 <= at, at + q.s.len() * 0x1_0000_0000 <= i64::MAX, 0 <= q.o < 8,
    ensures in_order(g_events(v, q, at, n)), forall|i: int| 0 <= i < g_events(v, q, at, n).len() ==> (#[trigger] g_events(v, q, at, n)[i]) is Game && at_loop(g_events(v, q, at, n)[i]) >= at,
    decreases q.s.len(),
{
    lemma_grec87(q); lemma_grec75(q);
    match s_gmean(v, q) { Some(((d, u, e), t)) => if t.s.len() < q.s.len() && 0 <= t.o < 8 {
        lemma_g_order(v, t, at + d, n);
        let r = g_events(v, t, at + d, n);
        match e {
            Tr::Event(x) => { let h = seq![SC2EventType::Game { game_loop: (at + d) as i64, user_id: u, player_name: name_of(n, u), event: x }]; let all = h + r;
                assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]) is Game && at_loop(all[i]) >= at + d by { if i > 0 { assert(all[i] == r[i - 1]); } }
                assert forall|i: int, j: int| 0 <= i < j < all.len() implies at_loop(#[trigger] all[i]) <= at_loop(#[trigger] all[j]) by { assert(all[j] == r[j - 1]); if i > 0 { assert(all[i] == r[i - 1]); } } },
            _ => {} } }, None => {} }
}
/// What C17 relies on: the events to come are game events in loop order.
pub proof fn c08_order(v: u32, x: GameEventIteratorState, n: Names)
    requires g_wf(x),
    ensures in_order(g_left(v, x, n)), forall|i: int| 0 <= i < g_left(v, x, n).len() ==> (#[trigger] g_left(v, x, n)[i]) is Game,
{ assert(g_rest(x).s.len() == x.event_data@.len() - x.byte_index); lemma_g_order(v, g_rest(x), x.event_loop as int, n); }
"""
G_SPEC = """
verus! {
pub open spec fn gdelta(d: p87702::SVarUint32) -> int {
    match d { p87702::SVarUint32::MUint6(v) => v.value as int, p87702::SVarUint32::MUint14(v) => v.value as int,
              p87702::SVarUint32::MUint22(v) => v.value as int, p87702::SVarUint32::MUint32(v) => v.value as int }
}
/// Which protocol decodes a replay of this base build.
pub open spec fn old_build(v: u32) -> bool { v <= 75689 }
pub open spec fn s_gmean(v: u32, q: P) -> Option<((int, i64, Tr<ReplayGameEvent>), P)> { if old_build(v) { s_gmean75(q) } else { s_gmean87(q) } }
/// The display name registered for a user.
pub type Names = Map<i64, String>;
pub open spec fn names(m: Map<i64, SC2UserState>) -> Names { m.map_values(|u: SC2UserState| u.player_lobby_details.player_details.name) }
pub open spec fn name_of(n: Names, u: i64) -> Option<String> { if n.contains_key(u) { Some(n[u]) } else { None } }
/// The supported events of what is left of a stream whose loop counter stands at `at`.
pub open spec fn g_events(v: u32, q: P, at: int, n: Names) -> Seq<SC2EventType>
    decreases q.s.len()
{
    match s_gmean(v, q) {
        Some(((d, u, e), t)) => if t.s.len() >= q.s.len() || t.o < 0 || t.o >= 8 { Seq::empty() } else {
            match e {
                Tr::Event(x) => seq![SC2EventType::Game { game_loop: (at + d) as i64, user_id: u, player_name: name_of(n, u), event: x }] + g_events(v, t, at + d, n),
                Tr::Unsupported => g_events(v, t, at + d, n),
                Tr::Failed => Seq::empty(),
            } },
        None => Seq::empty(),
    }
}
pub open spec fn g_rest(x: GameEventIteratorState) -> P { P { s: x.event_data@.skip(x.byte_index as int), o: x.bit_index as int } }
pub open spec fn g_left(v: u32, x: GameEventIteratorState, n: Names) -> Seq<SC2EventType> { g_events(v, g_rest(x), x.event_loop as int, n) }
pub open spec fn g_wf(x: GameEventIteratorState) -> bool {
    x.byte_index <= x.event_data@.len() <= 0x7fff_ffff && x.bit_index < 8 && 0 <= x.event_loop <= x.byte_index * 0x1_0000_0000
}
pub broadcast proof fn lemma_tail(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] is_tail(b, a), #[trigger] is_tail(c, b),
    ensures is_tail(c, a),
{ assert(c =~= a.skip(a.len() - c.len())); }
/// The end of a stream's rest, found again from its length.
pub broadcast proof fn lemma_tail_at(d: Seq<u8>, i: int, t: Seq<u8>)
    requires 0 <= i <= d.len(), #[trigger] is_tail(t, d.subrange(i, d.len() as int)),
    ensures d.skip(d.len() - t.len()) == t,
{ assert(d.skip(d.len() - t.len()) =~= t); }
pub proof fn lemma_rest_tail(q: P, n: int)
    requires 0 <= q.o < 8, n >= 0, enough(q, n),
    ensures is_tail(rest(q, n).s, q.s), 0 <= rest(q, n).o < 8, rest(q, n).s.len() * 8 - rest(q, n).o == q.s.len() * 8 - q.o - n,
{
    let r = rest(q, n);
    if n > 0 {
        assert((q.o + n) / 8 <= q.s.len());
        assert(r.s =~= q.s.skip(q.s.len() - r.s.len()));
    } else { assert(r.s =~= q.s.skip(0)); }
}
pub proof fn lemma_int_tail(q: P, n: int)
    requires 0 <= q.o < 8, 1 <= n <= 32,
    ensures match s_int(q, 0i64, n) { Some((v, t)) => t == rest(q, n) && enough(q, n) && 0 <= v <= 0xffff_ffff && is_tail(t.s, q.s) && 0 <= t.o < 8 && t.s.len() * 8 - t.o == q.s.len() * 8 - q.o - n, None => true },
{ lemma_int_lt(q, n); if enough(q, n) { lemma_rest_tail(q, n); } }
/// The delta of a record takes at least one byte and is a 32-bit number.
pub proof fn lemma_gdelta(q: P)
    requires 0 <= q.o < 8,
    ensures match p87702::s_SVarUint32(q) { Some((d, t)) => t.s.len() < q.s.len() && is_tail(t.s, q.s) && 0 <= t.o < 8 && 0 <= gdelta(d) < 0x1_0000_0000, None => true },
        q.s.len() == 0 ==> p87702::s_SVarUint32(q) is None,
{
    broadcast use lemma_tail;
    reveal(p87702::s_SVarUint32); reveal(p87702::s_SVarUint32__MUint6); reveal(p87702::s_SVarUint32__MUint14);
    reveal(p87702::s_SVarUint32__MUint22); reveal(p87702::s_SVarUint32__MUint32);
    reveal(p87702::s_Uint6); reveal(p87702::s_Uint14); reveal(p87702::s_Uint22); reveal(p87702::s_Uint32);
    reveal(p87702::s_Uint6__value); reveal(p87702::s_Uint14__value); reveal(p87702::s_Uint22__value); reveal(p87702::s_Uint32__value);
    lemma_int_tail(q, 2);
    match s_int(q, 0i64, 2) { None => {}, Some((n, t)) => { lemma_int_tail(t, 6); lemma_int_tail(t, 14); lemma_int_tail(t, 22); lemma_int_tail(t, 32); } }
}
pub proof fn lemma_user(q: P)
    requires 0 <= q.o < 8,
    ensures match p87702::s_ReplaySGameUserId(q) { Some((d, t)) => is_tail(t.s, q.s) && 0 <= t.o < 8, None => true },
{ reveal(p87702::s_ReplaySGameUserId); reveal(p87702::s_ReplaySGameUserId__m_user_id); lemma_int_tail(q, 5); }
pub proof fn lemma_align(q: P)
    requires 0 <= q.o < 8,
    ensures match s_align(q) { Some(t) => is_tail(t.s, q.s) && t.o == 0, None => true },
{ if q.o != 0 { if enough(q, 8 - q.o) { lemma_rest_tail(q, 8 - q.o); } } else { assert(q.s =~= q.s.skip(0)); } }
""" + rec("p87702") + rec("p75689") + G_ORDER + "}\n"


def triplet(file, path, v, e="GameEEventId"):
    n = v[1:3]
    return Fn(file, path, std=True, spec=f"""    requires wf(input),
    ensures match res {{
        Ok((t, v)) => s_grec{n}(p(input)) == Some(((v.0 as int, v.1, v.2), p(t))) && is_tail(t.0@, input.0@) && t.0@.len() < input.0@.len() && wf(t),
        Err(e) => s_grec{n}(p(input)) is None && parse_err(e),
    }},""", pre=f"""broadcast use lemma_tail;
        proof {{ let q = p(input); lemma_gdelta(q); match p87702::s_SVarUint32(q) {{ None => {{}}, Some((d, t)) => {{ lemma_user(t); match p87702::s_ReplaySGameUserId(t) {{ None => {{}}, Some((u, w)) =>
            match {v}::s_{e}(w) {{ None => {{}}, Some((e, x)) => {{ if 0 <= x.o < 8 {{ lemma_align(x); }} }} }} }} }} }} }}""")


G_READ = Fn(GI, "GameEventIteratorState::read_versioned_game_event", std=True, spec="""    requires g_wf(*old(self)),
    ensures g_wf(*final(self)), final(self).event_data == old(self).event_data,
        match s_gmean(protocol_version, g_rest(*old(self))) {
            Some(((d, u, e), t)) => g_rest(*final(self)).s =~= t.s && g_rest(*final(self)) == t && final(self).event_loop == old(self).event_loop + d && final(self).byte_index > old(self).byte_index && 0 <= t.o < 8
                && match e {
                    Tr::Event(n) => res == Ok::<GameEvent, S2ProtocolError>(GameEvent { delta: d as i64, user_id: u, event: n }),
                    Tr::Unsupported => res matches Err(x) && x is UnsupportedEventType,
                    Tr::Failed => res matches Err(x) && !(x is UnsupportedEventType) },
            None => *final(self) == *old(self) && (res matches Err(x) && parse_err(x)),
        },""", pre="broadcast use lemma_tail_at; let ghost s0 = *self; proof { lemma_grec87(g_rest(s0)); lemma_grec75(g_rest(s0)); assert(g_rest(s0).s == s0.event_data@.subrange(s0.byte_index as int, s0.event_data@.len() as int)); }")
G_NEXT = Fn(GI, "GameEventIteratorState::get_next_event", std=True, spec="""    requires g_wf(*old(self)),
    ensures g_wf(*final(self)), final(self).event_data == old(self).event_data,
        match res { Some(x) => g_left(protocol_version, *old(self), names(user_state@)) == seq![x] + g_left(protocol_version, *final(self), names(user_state@)),
            None => g_left(protocol_version, *old(self), names(user_state@)) =~= Seq::<SC2EventType>::empty() && g_left(protocol_version, *final(self), names(user_state@)) =~= Seq::<SC2EventType>::empty() },""",
    inv={0: """        invariant g_wf(*self), self.event_data == old(self).event_data, g_left(protocol_version, *self, names(user_state@)) == g_left(protocol_version, *old(self), names(user_state@)),
        decreases self.event_data@.len() - self.byte_index,"""}, ls={0: "broadcast use ax_string; let ghost s1 = *self; proof { lemma_grec87(g_rest(s1)); lemma_grec75(g_rest(s1)); }"})


def c08():
    T = gen.G["87702"]["bit_packed"]["types"]
    g = gen.Gen("87702", "bit_packed", {k: T[k] for k in ["SVarUint32", "Uint6", "Uint14", "Uint22", "Uint32", "ReplaySGameUserId"]}, {})
    a = g.section("p87702")
    for f in a.fns:
        f.trusted = True
    ev = "\nverus! {" + opaque("GameEEventId", "g", False) + "\n}"
    a.spec += ev
    t87 = triplet("versions/protocol87702/events/game/mod.rs", "GameEEventId::parse_event_triplet", "p87702")
    t75 = triplet(V75, "bit_packed::GameEEventId::parse_event_triplet", "p75689")
    a.fns = a.fns + [t87]
    b = Section("p75689", uses(V75, r"bit_packed::(SVarUint32|ReplaySGameUserId);"), [], ev, [t75])
    lib = [f for f in L.BITS3 + L.BITS4]
    for f in lib:
        f.trusted = True
    root = Section(items=TYPES + [(sm.GM, "GameEvent"), (ST, "SC2EventType"), (GI, "GameEventIteratorState")],
                   spec=uses(GI, "GameEEventId") + PRELUDE + CLONES + MODS_G + G_SPEC, fns=lib + [G_READ, G_NEXT, start(GI, "GameEventIteratorState", "g_wf", "res.bit_index == 0, ")])
    return L.LIB + L.BIT_LEMMAS + L.BIT_BOUNDS + L.EXTRA, [a, b, root]
