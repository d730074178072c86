"""Contracts for C29: the map's DocumentHeader file."""
from .core import Fn, Section
from . import libfns as L, small as S

DH = "cache_handles/document_header.rs"
ITEMS = [(DH, "DocumentHeader")]
TEXT = """
verus! {
/// Text that is compared with literals: by its characters.
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; }
impl VxText for String { open spec fn vx_text(&self) -> Seq<char> { self@ } }
impl VxText for str { open spec fn vx_text(&self) -> Seq<char> { self@ } }
impl<T: VxText + ?Sized> VxText for &T { open spec fn vx_text(&self) -> Seq<char> { (**self).vx_text() } }
#[verifier::external_body]
pub fn vx_text_eq<T: VxText + ?Sized>(a: &T, l: &str) -> (r: bool) ensures r == (a.vx_text() == l@) { unimplemented!() }
}
"""
MPQ = """
verus! {
#[verifier::external_body] pub struct MPQParserError { x: u8 }
impl From<MPQParserError> for S2ProtocolError {
    #[verifier::external_body]
    fn from(e: MPQParserError) -> (r: S2ProtocolError) { unimplemented!() }
}
#[verifier::external_body] pub struct MPQ { x: u8 }
/// The embedded file of that name; none when the archive lacks it.
pub uninterp spec fn sector(m: MPQ, name: Seq<char>, file: Seq<u8>) -> Option<Seq<u8>>;
impl MPQ {
    #[verifier::external_body]
    pub fn read_mpq_file_sector<'a>(&self, name: &str, force_decompress: bool, file: &'a [u8]) -> (r: Result<(&'a [u8], Vec<u8>), MPQParserError>)
        ensures match r { Ok((t, v)) => sector(*self, name@, file@) == Some(v@), Err(_) => sector(*self, name@, file@) is None },
    { unimplemented!() }
}
}
"""
NOM2 = """
verus! {
pub open spec fn le2(s: Seq<u8>) -> u16 { ((s[1] as u16) << 8u16) | (s[0] as u16) }
#[verifier::external_body]
pub fn nom_le_u16(input: &[u8]) -> (res: IResult<&[u8], u16>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 2 && v == le2(input@) && t@ == input@.skip(2),
        Err(_) => input@.len() < 2,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn nom_tag2(a: u8, b: u8, input: &[u8]) -> (res: IResult<&[u8], &[u8]>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 2 && input@.take(2) == seq![a, b] && t@ == input@.skip(2),
        Err(_) => input@.len() < 2 || input@.take(2) != seq![a, b],
    },
{ unimplemented!() }
}
"""
SPEC = """
verus! {
pub mod cache_handles { pub use super::MapError; }
impl DocumentHeader {
    /// The derived Default: zeros and empty texts.
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures v_doc(r) == g_zero() { unimplemented!() }
}
pub struct G_Doc {
    pub x1: i32, pub y1: i32, pub epoch1: i32, pub epoch2: i32,
    pub mod_info: Seq<char>, pub name: Seq<char>, pub long: Seq<char>, pub short: Seq<char>,
}
pub open spec fn g_zero() -> G_Doc {
    G_Doc { x1: 0, y1: 0, epoch1: 0, epoch2: 0, mod_info: Seq::empty(), name: Seq::empty(), long: Seq::empty(), short: Seq::empty() }
}
pub open spec fn v_doc(m: DocumentHeader) -> G_Doc {
    G_Doc { x1: m.maybe_dimension_x1, y1: m.maybe_dimension_y1, epoch1: m.some_epoch_1, epoch2: m.some_epoch_2,
        mod_info: m.mod_info@, name: m.name@, long: m.description_long@, short: m.description_short@ }
}
/// What one named field sets: the title and the two descriptions; any other name nothing.
pub open spec fn s_set(g: G_Doc, k: Seq<char>, v: Seq<char>) -> G_Doc {
    if k == "DocInfo/Name"@ { G_Doc { name: v, ..g } }
    else if k == "DocInfo/DescLong"@ { G_Doc { long: v, ..g } }
    else if k == "DocInfo/DescShort"@ { G_Doc { short: v, ..g } }
    else { g }
}
pub open spec fn s_take(s: Seq<u8>, n: int) -> Option<Seq<u8>> { if s.len() >= n { Some(s.skip(n)) } else { None } }
pub open spec fn s_le(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { if s.len() >= 4 { Some((le4(s.take(4)), s.skip(4))) } else { None } }
pub open spec fn s_le2(s: Seq<u8>) -> Option<(u16, Seq<u8>)> { if s.len() >= 2 { Some((le2(s.take(2)), s.skip(2))) } else { None } }
/// A text behind its 16-bit little-endian length.
pub open spec fn s_text(s: Seq<u8>) -> Option<(Seq<char>, Seq<u8>)> {
    match s_le2(s) { None => None, Some((n, t)) => if t.len() < n { None } else { Some((lossy(t.take(n as int)), t.skip(n as int))) } }
}
/// One field: its name, the mark SUne, its value.
pub open spec fn s_field(s: Seq<u8>) -> Option<((Seq<char>, Seq<char>), Seq<u8>)> {
    match s_text(s) { None => None, Some((k, a)) =>
    if a.len() < 4 || a.take(4) != seq![83u8, 85u8, 110u8, 101u8] { None } else {
    match s_text(a.skip(4)) { None => None, Some((v, b)) => Some(((k, v), b)) } } }
}
/// n fields in order, a later one of the same name replacing an earlier one.
pub open spec fn s_fields(s: Seq<u8>, n: nat, g: G_Doc) -> Option<(G_Doc, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((g, s)) } else {
        match s_field(s) { None => None, Some(((k, v), t)) => s_fields(t, (n - 1) as nat, s_set(g, k, v)) }
    }
}
pub open spec fn s_numbers(s: Seq<u8>) -> Option<(G_Doc, Seq<u8>)> {
    if s.len() < 4 || s.take(4) != seq![72u8, 50u8, 67u8, 83u8] { None } else {
    match s_take(s.skip(4), 4) { None => None, Some(a) =>
    match s_take(a, 4) { None => None, Some(b) =>
    match s_take(b, 4) { None => None, Some(c) =>
    match s_le(c) { None => None, Some((x1, d)) =>
    match s_le(d) { None => None, Some((y1, e)) =>
    match s_take(e, 4) { None => None, Some(f) =>
    match s_le(f) { None => None, Some((e1, h)) =>
    match s_le(h) { None => None, Some((e2, i)) =>
    match s_take(i, 12) { None => None, Some(j) => Some((G_Doc { x1: x1, y1: y1, epoch1: e1, epoch2: e2, ..g_zero() }, j)) } } } } } } } } } }
}
/// The whole file: numbers, the one supported mod line, the number of fields, the fields; and what follows them.
pub open spec fn s_doc(s: Seq<u8>) -> Option<(G_Doc, Seq<u8>)> {
    match s_numbers(s) { None => None, Some((g, a)) => {
        let m = lossy(a.take(run(a, false)));
        if m != "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod"@ { None } else {
        match s_take(a.skip(run(a, false)), 1) { None => None, Some(b) =>
        match s_le2(b) { None => None, Some((n, c)) =>
        if c.len() < 2 || c.take(2) != seq![0u8, 0u8] { None } else {
            s_fields(c.skip(2), n as nat, G_Doc { mod_info: m, ..g })
        } } } } } }
}
/// A name that no later field repeats keeps its value.
pub proof fn c29_kept(s: Seq<u8>, n: nat, g: G_Doc)
    requires s_fields(s, n, g) is Some, forall|t: Seq<u8>| #[trigger] s_field(t) is Some ==> ((s_field(t)->0).0).0 != "DocInfo/Name"@,
    ensures ((s_fields(s, n, g)->0).0).name == g.name,
    decreases n
{
    reveal_strlit("DocInfo/Name"); reveal_strlit("DocInfo/DescLong"); reveal_strlit("DocInfo/DescShort");
    if n > 0 {
        let ((k, v), t) = s_field(s)->0;
        assert(k != "DocInfo/Name"@);
        c29_kept(t, (n - 1) as nat, s_set(g, k, v));
    }
}
}
"""
LITS = """proof {
        reveal_strlit("DocInfo/Name"); reveal_strlit("DocInfo/DescLong"); reveal_strlit("DocInfo/DescShort");
        assert("DocInfo/Name"@.len() == 12 && "DocInfo/DescLong"@.len() == 16 && "DocInfo/DescShort"@.len() == 17);
    }"""
FROM = lambda name, spec, view: f"""    ensures match res {{
        Ok(v) => sector(*mpq, "{name}"@, file_contents@) is Some && {spec} is Some && ({spec}->0).0 == {view}(v),
        Err(_) => sector(*mpq, "{name}"@, file_contents@) is None || {spec} is None,
    }},"""
MI, T3 = S.MI, S.T3
#: the two other map files, read from the archive (C20)
FROMS = [
    Fn(MI, "MapInfo::from_mpq", std=True, spec=FROM("MapInfo", 's_map_info(sector(*mpq, "MapInfo"@, file_contents@)->0)', "v_MapInfo")),
    Fn(T3, "T3HeightMap::from_mpq", std=True,
       spec="    requires consistent(v_MapInfo(*map_info)),\n" + FROM("t3HeightMap", 's_t3(sector(*mpq, "t3HeightMap"@, file_contents@)->0, v_MapInfo(*map_info))', "v_T3")),
]
FNS = [
    Fn(DH, "DocumentHeader::set_field_by_name", std=True, pre=LITS,
       spec="    ensures v_doc(*final(self)) == s_set(v_doc(*old(self)), name@, value@),"),
    Fn(DH, "DocumentHeader::parse", std=True, attrs="#[verifier::loop_isolation(false)]\n",
       spec="""    ensures match res {
        Ok((t, v)) => s_doc(input@) == Some((v_doc(v), t@)),
        Err(_) => s_doc(input@) is None,
    },""",
       inv={0: """        invariant
            0 <= vx_i0 <= vx_n0,
            s_fields(new_tail@, (vx_n0 - vx_i0) as nat, v_doc(res)) == s_doc(input@),
        decreases vx_n0 - vx_i0,"""}),
    Fn(DH, "DocumentHeader::from_mpq", std=True,
       spec=FROM("DocumentHeader", 's_doc(sector(*mpq, "DocumentHeader"@, file_contents@)->0)', "v_doc")),
]


def units():
    head = L.LIB.replace("Map(ExtErr)", "Map(MapError)") + S.NOM_LE + NOM2 + TEXT + MPQ
    return head, [Section(items=S.C20_ITEMS0 + ITEMS, spec=SPEC, fns=FNS)]
