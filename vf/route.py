"""Contracts for C09: which protocol decodes a replay, and the one-pass readers of both."""
import copy
from .core import Fn, Section
from . import libfns as L, stream

V87, V75 = stream.V87, stream.V75
EV = "versions/protocol87702/events/"
MO = "versions/mod.rs"

PRELUDE = """
verus! {
/// Another opaque value that only its own translation produces.
#[verifier::external_body] pub struct ReplayTrackerEvent { x: u8 }
#[verifier::external_body] pub struct ReplayGameEvent { x: u8 }
#[verifier::external_body] pub struct ReplayMessageEvent { x: u8 }
#[verifier::external_body] pub struct Details { x: u8 }
#[verifier::external_body] pub struct LobbySyncState { x: u8 }
#[verifier::external_body] pub struct Smd5 { x: u8 }
pub struct MPQUserData { pub content: Vec<u8> }
#[verifier::external_body] pub struct MpqRest { x: u8 }
/// nom_mpq's archive: its user data, and what locates its embedded files.
pub struct MPQ { pub user_data: Option<MPQUserData>, pub vx_rest: MpqRest }
#[verifier::external_body] pub struct MPQParserError { x: u8 }
impl From<MPQParserError> for S2ProtocolError {
    #[verifier::external_body]
    fn from(e: MPQParserError) -> (r: S2ProtocolError) ensures parse_err(r) { unimplemented!() }
}
/// The embedded file of that name; none when the archive lacks it.
pub uninterp spec fn sector(m: MPQ, name: Seq<char>, file: Seq<u8>) -> Option<Seq<u8>>;
impl MPQ {
    #[verifier::external_body]
    pub fn read_mpq_file_sector<'a>(&self, name: &str, force_decompress: bool, file: &'a [u8]) -> (r: Result<(&'a [u8], Vec<u8>), MPQParserError>)
        ensures match r { Ok((t, v)) => sector(*self, name@, file@) == Some(v@) && v@.len() <= 0x7fff_ffff, Err(_) => sector(*self, name@, file@) is None },
    { unimplemented!() }
}
/// The hexadecimal SHA-256 of a file.
pub uninterp spec fn sha(file: Seq<u8>) -> Seq<char>;
/// assert_eq! of two byte strings: anything else panics.
#[verifier::external_body]
pub fn vx_assert_bytes(a: &Vec<u8>, b: &[u8]) requires a@ == b@ { unimplemented!() }
/// == of two byte strings.
#[verifier::external_body]
pub fn vx_bytes_eq(a: &Vec<u8>, b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub struct PathBuf { x: u8 }
impl PathBuf {
    /// The path as text; none for a path that is not text.
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    pub open spec fn name(&self) -> Seq<char> { match self.text() { Some(t) => t, None => Seq::empty() } }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(t) => self.text() == Some(t@), None => self.text() is None } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_or_default<'a>(x: Option<&'a str>) -> (r: &'a str) ensures match x { Some(v) => r@ == v@, None => r@ == Seq::<char>::empty() } { unimplemented!() }
/// What the file of that path holds; none when it cannot be read.
pub uninterp spec fn file_at(p: PathBuf) -> Option<Seq<u8>>;
pub uninterp spec fn archive(file: Seq<u8>) -> Option<MPQ>;
#[verifier::external_body]
pub fn read_file(p: &PathBuf) -> (r: Result<Vec<u8>, S2ProtocolError>) ensures match r { Ok(v) => file_at(*p) == Some(v@), Err(_) => file_at(*p) is None } { unimplemented!() }
pub mod parser {
    use super::*;
    verus! {
    #[verifier::external_body]
    pub fn parse(file: &Vec<u8>) -> (r: Result<((), MPQ), S2ProtocolError>) ensures match r { Ok((_, m)) => archive(file@) == Some(m), Err(_) => archive(file@) is None } { unimplemented!() }
    }
}
pub mod sha256 {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub fn digest(x: &[u8]) -> (r: String) ensures r@ == crate::sha(x@) { unimplemented!() }
    }
}
/// Distance in memory from `base` to `tail`, which every decoder returns as an end of its input.
#[verifier::external_body]
pub fn vx_ptr_diff(tail: &[u8], base: &[u8]) -> (r: usize)
    requires is_tail(tail@, base@),
    ensures r == base@.len() - tail@.len(),
{ unimplemented!() }
pub open spec fn is_tail(t: Seq<u8>, b: Seq<u8>) -> bool { t.len() <= b.len() && t == b.skip(b.len() - t.len()) }
/// What translating a protocol-specific value gives.
pub enum Tr<N> { Event(N), Unsupported, Failed }
pub trait VxTryFrom<A>: Sized {
    spec fn vx_tr(x: A) -> Tr<Self>;
    fn vx_try_from(x: A) -> (r: Result<Self, S2ProtocolError>) ensures translated(Self::vx_tr(x), r);
}
pub open spec fn translated<B>(t: Tr<B>, r: Result<B, S2ProtocolError>) -> bool {
    match t { Tr::Event(n) => r == Ok::<B, S2ProtocolError>(n), Tr::Unsupported => r matches Err(e) && e is UnsupportedEventType, Tr::Failed => r matches Err(e) && !(e is UnsupportedEventType) }
}
pub fn vx_try_into<A, B: VxTryFrom<A>>(x: A) -> (r: Result<B, S2ProtocolError>) ensures translated(B::vx_tr(x), r) { B::vx_try_from(x) }
/// The result is this value, or an error where there is none.
pub open spec fn gives<B>(t: Option<B>, r: Result<B, S2ProtocolError>) -> bool {
    match t { Some(n) => r matches Ok(x) && x == n, None => r is Err }
}
pub open spec fn gives_all<B>(t: Option<Seq<B>>, r: Result<Vec<B>, S2ProtocolError>) -> bool {
    match t { Some(n) => r matches Ok(x) && x@ == n, None => r is Err }
}
pub open spec fn old_build(v: u32) -> bool { v <= 75689 }
pub open spec fn made<N>(t: Tr<N>) -> Option<N> { match t { Tr::Event(n) => Some(n), _ => None } }
"""


def opaque(t, byte, rec=None, tr=None):
    """A protocol type: what its parser reads is `rec` of the input, what it translates to is `tr`."""
    S, i, tl, w = ("Seq<u8>", "input@", "t@", "") if byte else ("P", "p(input)", "p(t)", " && wf(t)")
    ty = "&[u8]" if byte else "(&[u8], usize)"
    req = "" if byte else " requires wf(input),"
    o = f"\n#[verifier::external_body]\npub struct {t} {{ x: u8 }}\n"
    if rec is None:
        o += f"""impl {t} {{
    pub uninterp spec fn vx_s(q: {S}) -> Option<({t}, {S})>;
    #[verifier::external_body]
    pub fn parse(input: {ty}) -> (res: S2ProtoResult<{ty}, {t}>)
       {req}
        ensures match res {{ Ok((t, v)) => Self::vx_s({i}) == Some((v, {tl})), Err(e) => Self::vx_s({i}) is None && parse_err(e) }},
    {{ unimplemented!() }}
}}
"""
    else:
        o += f"impl {t} {{ pub uninterp spec fn vx_rec(q: {S}) -> Option<(({rec}, {t}), {S})>; }}\n"
    if tr:
        o += f"""impl VxTryFrom<{t}> for {tr} {{
    uninterp spec fn vx_tr(x: {t}) -> Tr<Self>;
    #[verifier::external_body]
    fn vx_try_from(x: {t}) -> (r: Result<Self, S2ProtocolError>) {{ unimplemented!() }}
}}
"""
    return o


def tracker_pass():
    return """
impl ReplayTrackerEEventId {
    /// The events of a stream read in one pass: records without a neutral form are left out.
    pub open spec fn vx_pass(s: Seq<u8>) -> Option<Seq<TrackerEvent>> decreases s.len() {
        match Self::vx_rec(s) { None => None, Some(((d, e), t)) => if t.len() >= s.len() { None } else {
            let h = match <ReplayTrackerEvent as VxTryFrom<ReplayTrackerEEventId>>::vx_tr(e) { Tr::Event(n) => seq![TrackerEvent { delta: d as u32, event: n }], _ => Seq::empty() };
            if t.len() == 0 { Some(h) } else { match Self::vx_pass(t) { None => None, Some(r) => Some(h + r) } } } }
    }
    pub open spec fn vx_file(m: MPQ, file: Seq<u8>) -> Option<Seq<TrackerEvent>> {
        match sector(m, "replay.tracker.events"@, file) { Some(s) => Self::vx_pass(s), None => None }
    }
    pub open spec fn vx_empty(m: MPQ, file: Seq<u8>) -> bool { sector(m, "replay.tracker.events"@, file) matches Some(s) && s.len() == 0 }
}
"""


def bit_pass(ty, ev, neutral, name):
    return f"""
impl {ty} {{
    /// The events of a stream read in one pass: records without a neutral form are left out.
    pub open spec fn vx_pass(q: P) -> Option<Seq<{ev}>> decreases q.s.len() {{
        match Self::vx_rec(q) {{ None => None, Some(((d, u, e), t)) => if t.s.len() >= q.s.len() {{ None }} else {{
            let h = match <{neutral} as VxTryFrom<{ty}>>::vx_tr(e) {{ Tr::Event(n) => seq![{ev} {{ delta: d as i64, user_id: u, event: n }}], _ => Seq::empty() }};
            if t.s.len() == 0 {{ Some(h) }} else {{ match Self::vx_pass(t) {{ None => None, Some(r) => Some(h + r) }} }} }} }}
    }}
    pub open spec fn vx_file(m: MPQ, file: Seq<u8>) -> Option<Seq<{ev}>> {{
        match sector(m, "{name}"@, file) {{ Some(s) => Self::vx_pass(P {{ s, o: 0 }}), None => None }}
    }}
    pub open spec fn vx_empty(m: MPQ, file: Seq<u8>) -> bool {{ sector(m, "{name}"@, file) matches Some(s) && s.len() == 0 }}
}}
"""


def single(ty, name, arg, out):
    return f"""
impl {ty} {{
    pub open spec fn vx_file(m: MPQ, file: Seq<u8>) -> Option<{out}> {{
        match sector(m, "{name}"@, file) {{ None => None, Some(s) => match Self::vx_s({arg}) {{ None => None, Some((d, t)) => made(<{out} as VxTryFrom<{ty}>>::vx_tr(d)) }} }}
    }}
}}
"""


TRI = """    requires wf(input),
    ensures match res {
        Ok((t, v)) => Self::vx_rec(p(input)) == Some(((v.0 as int, v.1, v.2), p(t))) && is_tail(t.0@, input.0@) && t.0@.len() < input.0@.len() && wf(t) && 0 <= v.0 < 0x1_0000_0000,
        Err(e) => Self::vx_rec(p(input)) is None && parse_err(e),
    },"""
PAIR = """    ensures match res {
        Ok((t, v)) => Self::vx_rec(input@) == Some(((v.0 as int, v.1), t@)) && is_tail(t@, input@) && t@.len() < input@.len(),
        Err(e) => Self::vx_rec(input@) is None && parse_err(e),
    },"""
FILE = "    ensures !Self::vx_empty(*mpq, file_contents@) ==> gives_all(Self::vx_file(*mpq, file_contents@), res),"


def reader(file, path, bit, name):
    if bit:
        S, whole, cur, n = "P", "(P { s: game_events@, o: 0 })", "p(event_tail)", "event_tail.0@"
        wf = "wf(event_tail), count <= game_events@.len() - event_tail.0@.len() + 1, game_events@.len() <= 0x7fff_ffff, "
    else:
        S, whole, cur, n = "Seq<u8>", "tracker_events@", "event_tail@", "event_tail@"
        wf = ""
    W = whole + ".s" if bit else whole
    inv = {0: f"""        invariant_except_break {wf}{W}.len() > 0 ==> {n}.len() > 0, Self::vx_pass({whole}) == (match Self::vx_pass({cur}) {{ Some(r) => Some(res@ + r), None => None }}),
        invariant sector(*mpq, "{name}"@, file_contents@) == Some({'game' if bit else 'tracker'}_events@),
        ensures {W}.len() > 0 ==> Self::vx_pass({whole}) == Some(res@),
        decreases {n}.len(),"""}
    ls = {0: f"let ghost q0 = {cur}; let ghost r0 = res@;"}
    le = {0: f"""proof {{ match Self::vx_pass({cur}) {{ Some(r) => {{ assert(res@ + r =~= r0 + ((res@.skip(r0.len() as int)) + r)); assert(res@ =~= r0 + res@.skip(r0.len() as int)); }}, None => {{}} }} }}"""}
    return Fn(file, path, std=True, spec=FILE, inv=inv, ls=ls, le=le)


def router(name, proto, ty, whole, empty=True):
    """A reader of versions/mod.rs: the decoder the base build names, on the same archive."""
    spec = f"""    ensures match header(*mpq) {{ None => res is Err, Some(h) => {{
        let b = h.m_version.m_base_build;
        if old_build(b) {{ {emp('protocol75689', ty, whole, empty)} }} else {{ {emp('protocol87702', ty, whole, empty)} }} }} }},"""
    return Fn(MO, name, spec=spec, std=True, free=True)


def emp(mod, ty, whole, empty):
    t = f"{mod}::{ty}"
    if empty:
        return f"!{t}::vx_empty(*mpq, file_contents@) ==> gives_all({t}::vx_file(*mpq, file_contents@), res)"
    return whole.replace("$", f"{t}::vx_file(*mpq, file_contents@)")


ROOT = """
/// The replay header, which the archive's user data holds; an archive with another signature is no replay.
pub open spec fn header(m: MPQ) -> Option<byte_aligned::ReplaySHeader> {
    match raw_header(m) { Some(h) => if h.m_signature@ == signature() { Some(h) } else { None }, None => None }
}
pub open spec fn raw_header(m: MPQ) -> Option<byte_aligned::ReplaySHeader> {
    match m.user_data { None => None, Some(u) => match byte_aligned::ReplaySHeader::vx_s(u.content@) { Some((h, t)) => Some(h), None => None } }
}
/// The lobby data of a file: what its base build's protocol reads, under the file's name and number.
pub open spec fn read_as(m: MPQ, file: Seq<u8>, name: Seq<char>, id: u64, res: Result<InitData, S2ProtocolError>) -> bool {
    match lobby(m, file) { Some(i) => res matches Ok(x) && x.version == header(m)->0.m_version.m_base_build && x.version == i.version && x.sync_lobby_state == i.sync_lobby_state
            && x.ext_fs_id == id && x.ext_fs_file_name@ == name && x.ext_fs_sha256@ == sha(file), None => res is Err }
}
pub open spec fn signature() -> Seq<u8> { seq![83u8, 116u8, 97u8, 114u8, 67u8, 114u8, 97u8, 102u8, 116u8, 32u8, 73u8, 73u8, 32u8, 114u8, 101u8, 112u8, 108u8, 97u8, 121u8, 27u8, 49u8, 49u8] }
pub open spec fn versioned(x: Option<InitData>, v: u32) -> Option<InitData> { match x { Some(i) => Some(InitData { version: v, ..i }), None => None } }
/// The lobby data of a replay, whose version is its base build.
pub open spec fn lobby(m: MPQ, file: Seq<u8>) -> Option<InitData> {
    match header(m) { None => None, Some(h) => versioned(if old_build(h.m_version.m_base_build) { versions::protocol75689::bit_packed::ReplaySInitData::vx_file(m, file) } else { versions::protocol87702::bit_packed::ReplaySInitData::vx_file(m, file) }, h.m_version.m_base_build) }
}
pub open spec fn t_tr(v: u32, s: Seq<u8>) -> Option<(int, Tr<ReplayTrackerEvent>)> {
    if old_build(v) { match versions::protocol75689::byte_aligned::ReplayTrackerEEventId::vx_rec(s) { Some(((d, e), t)) => Some((d, <ReplayTrackerEvent as VxTryFrom<versions::protocol75689::byte_aligned::ReplayTrackerEEventId>>::vx_tr(e))), None => None } }
    else { match versions::protocol87702::byte_aligned::ReplayTrackerEEventId::vx_rec(s) { Some(((d, e), t)) => Some((d, <ReplayTrackerEvent as VxTryFrom<versions::protocol87702::byte_aligned::ReplayTrackerEEventId>>::vx_tr(e))), None => None } }
}
pub open spec fn g_tr(v: u32, q: P) -> Option<(int, i64, Tr<ReplayGameEvent>)> {
    if old_build(v) { match versions::protocol75689::bit_packed::GameEEventId::vx_rec(q) { Some(((d, u, e), t)) => Some((d, u, <ReplayGameEvent as VxTryFrom<versions::protocol75689::bit_packed::GameEEventId>>::vx_tr(e))), None => None } }
    else { match versions::protocol87702::bit_packed::GameEEventId::vx_rec(q) { Some(((d, u, e), t)) => Some((d, u, <ReplayGameEvent as VxTryFrom<versions::protocol87702::bit_packed::GameEEventId>>::vx_tr(e))), None => None } }
}
pub open spec fn t_ok(x: TrackertEventIteratorState) -> bool { x.byte_index <= x.event_data@.len() <= 0x7fff_ffff && 0 <= x.event_loop <= x.byte_index * 0x1_0000_0000 }
pub open spec fn g_ok(x: GameEventIteratorState) -> bool { x.byte_index <= x.event_data@.len() <= 0x7fff_ffff && x.bit_index < 8 && 0 <= x.event_loop <= x.byte_index * 0x1_0000_0000 }
pub open spec fn t_rest(x: TrackertEventIteratorState) -> Seq<u8> { x.event_data@.subrange(x.byte_index as int, x.event_data@.len() as int) }
pub open spec fn g_rest(x: GameEventIteratorState) -> P { P { s: x.event_data@.subrange(x.byte_index as int, x.event_data@.len() as int), o: x.bit_index as int } }
}
"""
T_READ = Fn(stream.TI, "TrackertEventIteratorState::read_versioned_tracker_event", std=True, spec="""    requires t_ok(*old(self)),
    ensures match t_tr(protocol_version, t_rest(*old(self))) {
        Some((d, Tr::Event(n))) => res == Ok::<TrackerEvent, S2ProtocolError>(TrackerEvent { delta: d as u32, event: n }),
        _ => res is Err },""")
G_READ = Fn(stream.GI, "GameEventIteratorState::read_versioned_game_event", std=True, spec="""    requires g_ok(*old(self)),
    ensures match g_tr(protocol_version, g_rest(*old(self))) {
        Some((d, u, Tr::Event(n))) => res == Ok::<GameEvent, S2ProtocolError>(GameEvent { delta: d as i64, user_id: u, event: n }),
        _ => res is Err },""")


def c09():
    V = "use super::*;\nuse crate::*;\n"
    pair = Fn(EV + "tracker/mod.rs", "ReplayTrackerEEventId::parse_event_pair", std=True, trusted=True, spec=PAIR)
    g87 = Fn(EV + "game/mod.rs", "GameEEventId::parse_event_triplet", std=True, trusted=True, spec=TRI)
    m87 = Fn(EV + "message/mod.rs", "GameEMessageId::parse_event_triplet", std=True, trusted=True, spec=TRI)
    g75 = Fn(V75, "bit_packed::GameEEventId::parse_event_triplet", std=True, trusted=True, spec=TRI)
    head = [(V87, "byte_aligned::SVersion"), (V87, "byte_aligned::ReplaySHeader")]
    ba = Section("byte_aligned", V, head, "verus! {" + opaque("ReplayTrackerEEventId", True, "int", "ReplayTrackerEvent") + opaque("GameSDetails", True, None, "Details") + tracker_pass()
        + single("GameSDetails", "replay.details", "s", "Details") + """
impl ReplaySHeader {
    pub uninterp spec fn vx_s(q: Seq<u8>) -> Option<(ReplaySHeader, Seq<u8>)>;
    #[verifier::external_body]
    pub fn parse(input: &[u8]) -> (res: S2ProtoResult<&[u8], ReplaySHeader>)
        ensures match res { Ok((t, v)) => Self::vx_s(input@) == Some((v, t@)), Err(e) => Self::vx_s(input@) is None },
    { unimplemented!() }
}
}""", [pair, reader(EV + "tracker/mod.rs", "ReplayTrackerEEventId::read_tracker_events", False, "replay.tracker.events"),
       Fn(EV + "details.rs", "GameSDetails::read_details", std=True, spec="    ensures gives(Self::vx_file(*mpq, file_contents@), res),")])
    a = Section("p87702", V, [], "verus! {" + opaque("GameEEventId", False, "int, i64", "ReplayGameEvent") + opaque("GameEMessageId", False, "int, i64", "ReplayMessageEvent") + opaque("ReplaySInitData", False, None, "InitData")
        + bit_pass("GameEEventId", "GameEvent", "ReplayGameEvent", "replay.game.events") + bit_pass("GameEMessageId", "MessageEvent", "ReplayMessageEvent", "replay.message.events")
        + single("ReplaySInitData", "replay.initData", "P { s, o: 0 }", "InitData") + "}",
        [g87, reader(EV + "game/mod.rs", "GameEEventId::read_events", True, "replay.game.events"), m87, reader(EV + "message/mod.rs", "GameEMessageId::read_events", True, "replay.message.events"),
         Fn(EV + "init_data.rs", "ReplaySInitData::read_init_data", std=True, spec="    ensures gives(Self::vx_file(*mpq, file_contents@), res),")])
    b = Section("p75689", V + stream.uses(V75, r"bit_packed::(GameEMessageId|ReplaySInitData);"), [], "verus! {" + opaque("GameEEventId", False, "int, i64", "ReplayGameEvent")
        + bit_pass("GameEEventId", "GameEvent", "ReplayGameEvent", "replay.game.events") + "}",
        [g75, reader(V75, "bit_packed::GameEEventId::read_events", True, "replay.game.events")])
    mods = """
    pub mod protocol87702 { pub use crate::p87702 as bit_packed; pub use crate::byte_aligned; }
    pub mod protocol75689 { pub use crate::p75689 as bit_packed; pub mod byte_aligned {
%s
    } }
""" % stream.uses(V75, r"byte_aligned::(ReplayTrackerEEventId|GameSDetails);")
    v = Section("versions", V, [], mods, [
        Fn(MO, "ensure_replay", std=True, free=True, optional=True, spec="    ensures res is Ok <==> header.m_signature@ == signature(),"),
        router("read_tracker_events", None, "byte_aligned::ReplayTrackerEEventId", ""),
        router("read_game_events", None, "bit_packed::GameEEventId", ""),
        router("read_message_events", None, "bit_packed::GameEMessageId", ""),
        router("read_details", None, "byte_aligned::GameSDetails", "gives($, res)", False),
        Fn(MO, "read_init_data", std=True, free=True, spec="    ensures gives(lobby(*mpq, file_contents@), res),")])
    ID = "init_data/mod.rs"
    root = Section(items=[("tracker_events/mod.rs", "TrackerEvent"), ("game_events/mod.rs", "GameEvent"), ("message_events.rs", "MessageEvent"), (ID, "InitData"),
                          (stream.TI, "TrackertEventIteratorState"), (stream.GI, "GameEventIteratorState")],
        spec="use byte_aligned::{ReplaySHeader, SVersion};\n" + stream.uses(stream.TI, "ReplayTrackerEEventId") + "\n" + stream.uses(stream.GI, "GameEEventId") + PRELUDE + ROOT,
        fns=[Fn("protocol_version_decoder.rs", "read_protocol_header", std=True, free=True, spec="    ensures match res { Ok((t, h)) => raw_header(*mpq) == Some(h), Err(e) => raw_header(*mpq) is None },"),
             Fn(ID, "InitData::with_version", std=True, spec="    ensures res == (InitData { version: version, ..self }),"),
             Fn(ID, "InitData::set_metadata", std=True, spec="    ensures res.version == self.version, res.sync_lobby_state == self.sync_lobby_state, res.ext_fs_id == ext_fs_id, res.ext_fs_file_name@ == file_name@, res.ext_fs_sha256@ == sha(file_contents@),"),
             Fn(ID, "InitData::new", std=True, spec="    ensures read_as(*mpq, file_contents@, file_name@, ext_fs_id, res),"),
             Fn(ID, "InitDataasTryFrom<(PathBuf,u64)>::try_from", impl="impl InitData", std=True, rettype="Result<InitData, S2ProtocolError>",
                spec="""    ensures match file_at(replay.0) { None => res is Err, Some(f) => match archive(f) { None => res is Err, Some(m) => read_as(m, f, replay.0.name(), replay.1, res) } },"""),
             T_READ, G_READ])
    return L.LIB + L.BIT_LEMMAS + L.BIT_BOUNDS, [ba, a, b, v, root]
