"""Contracts for C26: the message stream's records and their neutral form."""
import re
from .core import Fn, Section
from . import libfns as L, gen, sm, stream, neutral as N

EV = "versions/protocol87702/events/message/mod.rs"
ME = "message_events.rs"
RME = "ReplayMessageEvent"
TYPES = [(ME, n) for n in ["ReplayMessageEvent", "ChatMessage", "GameEMessageRecipient"]]


def rename(t):
    """The translation trait with message_events.rs's own error type."""
    i, j = t.index("/// What translating a protocol-specific value gives."), t.index("verus! {\npub trait VxFrom")
    return (t[:i] + t[i:j].replace("S2ProtocolError", "MessageEventError") + t[j:]).replace("for S2ProtocolError {\n    #[verifier::external_body]\n    fn from(e: Utf8Error) -> S2ProtocolError", "for MessageEventError {\n    #[verifier::external_body]\n    fn from(e: Utf8Error) -> MessageEventError") \
        .replace("r: S2ProtocolError)\n    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S2ProtocolError", "r: MessageEventError)\n    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<MessageEventError")


ERR = "verus! {\npub enum MessageEventError { UnsupportedEventType, Utf8Error(Utf8Error) }\n}\n"


def tr():
    T = gen.G["87702"]["bit_packed"]["types"]
    names = N.closure(T, "GameEMessageId")
    chat = f"match utf8(x.m_string.value@) {{ None => Tr::Failed, Some(n) => Tr::Event({RME}::EChat(crate::ChatMessage {{ m_recipient: to(x.m_recipient), m_string: n }})) }}"
    fns = [N.enum(EV, "GameEMessageRecipient"),
           N.tconv(EV, "GameSChatMessage", RME, chat),
           N.tconv(EV, "GameEMessageId", RME, f"match x {{ GameEMessageId::EChat(e) => <{RME} as VxTryFrom<GameSChatMessage>>::vx_tr(e), _ => Tr::Unsupported }}")]
    for f in fns:
        if f.rettype:
            f.rettype = f.rettype.replace("S2ProtocolError", "MessageEventError")
    a = Section("p87702", "", [("versions/protocol87702/mod.rs", f"bit_packed::{n}") for n in names], sm.clones(names), fns, use="\nbroadcast use ax_err_utf8;")
    pre = rename(N.PRELUDE)
    root = Section(items=TYPES, spec="pub use crate::p87702 as bit_packed;\npub mod message_events { pub use crate::*; }\n" + ERR + pre + N.EMPTY)
    return L.LIB, [a, root]


SPEC = """
verus! {
pub open spec fn gdelta(d: p87702::SVarUint32) -> int {
    match d { p87702::SVarUint32::MUint6(v) => v.value as int, p87702::SVarUint32::MUint14(v) => v.value as int,
              p87702::SVarUint32::MUint22(v) => v.value as int, p87702::SVarUint32::MUint32(v) => v.value as int }
}
"""


def triplet():
    T = gen.G["87702"]["bit_packed"]["types"]
    g = gen.Gen("87702", "bit_packed", {k: T[k] for k in ["SVarUint32", "Uint6", "Uint14", "Uint22", "Uint32", "ReplaySGameUserId"]}, {})
    a = g.section("p87702")
    for f in a.fns:
        f.trusted = True
    a.spec += "\nverus! {" + stream.opaque("GameEMessageId", "m", False) + "\n}"
    a.fns = a.fns + [stream.triplet(EV, "GameEMessageId::parse_event_triplet", "p87702", "GameEMessageId")]
    lib = [f for f in L.BITS3 + L.BITS4]
    for f in lib:
        f.trusted = True
    i, j = stream.G_SPEC.index("pub broadcast proof fn lemma_tail("), stream.G_SPEC.index("pub open spec fn s_grec87")
    rec = stream.rec("p87702")
    rec = rec[:rec.index("/// What a record means")].replace("GameEEventId", "GameEMessageId")
    root = Section(spec=stream.PRELUDE_TAIL + SPEC + stream.G_SPEC[i:j] + rec + "}\n", fns=lib)
    return L.LIB + L.BIT_LEMMAS + L.BIT_BOUNDS + L.EXTRA, [a, root]


def read():
    """The one-pass reader, as in C09, over records by the contract `triplet` proves."""
    from . import route as R
    V = "use super::*;\nuse crate::*;\n"
    m = Fn(EV, "GameEMessageId::parse_event_triplet", std=True, trusted=True, spec=R.TRI)
    a = Section("p87702", V, [], "verus! {" + R.opaque("GameEMessageId", False, "int, i64", RME) + R.bit_pass("GameEMessageId", "MessageEvent", RME, "replay.message.events") + """
/// A reader yields one event per record with a neutral form, in stream order, with that record's delta and user.
pub proof fn c26_whole(q: P, e: Seq<MessageEvent>)
    requires GameEMessageId::vx_pass(q) == Some(e),
    ensures match GameEMessageId::vx_rec(q) { None => false, Some(((d, u, m), t)) => {
        let later = if t.s.len() == 0 { Some(Seq::<MessageEvent>::empty()) } else { GameEMessageId::vx_pass(t) };
        later matches Some(l) && match <ReplayMessageEvent as VxTryFrom<GameEMessageId>>::vx_tr(m) {
            Tr::Event(n) => e =~= seq![MessageEvent { delta: d as i64, user_id: u, event: n }] + l,
            _ => e =~= l } } },
{ }
}
""", [m, R.reader(EV, "GameEMessageId::read_events", True, "replay.message.events")])
    i = R.PRELUDE.index("#[verifier::external_body] pub struct Details"), R.PRELUDE.index("#[verifier::external_body] pub struct Smd5")
    root = Section(items=[(ME, "MessageEvent")], spec=R.PRELUDE[:i[0]] + R.PRELUDE[i[1]:] + "}\n")
    return L.LIB + L.BIT_LEMMAS + L.BIT_BOUNDS, [a, root]
