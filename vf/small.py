"""Contracts for C12 (unit tags), C13 (position reports), C19 (ability lookup), C20 (map data),
C22 (timestamps)."""
from .core import Fn, Section
from . import libfns as L

# ---------------------------------------------------------------------------------------- C12
TAGS = "tracker_events/mod.rs"
C12_SPEC = """
verus! {
pub open spec fn tag_index(t: u64) -> int { (t / 262144) as int % 16384 }
pub open spec fn tag_recycle(t: u64) -> int { t as int % 262144 }
pub open spec fn tag_join(i: int, r: int) -> int { i * 262144 + r }
/// Joining and splitting give the pair back.
pub proof fn c12_split_of_join(i: u32, r: u32)
    requires i < 16384, r < 262144,
    ensures 0 <= tag_join(i as int, r as int) < 0x1_0000_0000,
        tag_index(tag_join(i as int, r as int) as u64) == i,
        tag_recycle(tag_join(i as int, r as int) as u64) == r,
{}
/// Splitting and joining give any 32-bit tag back.
pub proof fn c12_join_of_split(t: u32)
    ensures tag_join(tag_index(t as u64), tag_recycle(t as u64)) == t, tag_index(t as u64) < 16384, tag_recycle(t as u64) < 262144,
{}
}
"""
C12 = [
    Fn(TAGS, "unit_tag", spec="    ensures res as int == tag_join(unit_tag_index as int, unit_tag_recycle as int),",
       pre="proof { let x = unit_tag_index; assert(((x as i64) << 18usize) == mul(x as i64, 262144i64) && (x as i64) << 18usize >= 0 && (x as i64) << 18usize <= 0x3_ffff_fffc_0000i64) by (bit_vector); }"),
    Fn(TAGS, "unit_tag_index", spec="    ensures res as int == tag_index(unit_tag as u64),",
       pre="proof { let t = unit_tag; assert(((t >> 18) & 0x00003fff) as u32 as u64 == ((t as u64) / 262144u64) % 16384u64) by (bit_vector); }"),
    Fn(TAGS, "unit_tag_recycle", spec="    ensures res as int == tag_recycle(unit_tag as u64),",
       pre="proof { let t = unit_tag; assert((t & 0x0003ffff) as u32 as u64 == (t as u64) % 262144u64) by (bit_vector); }"),
]

# ---------------------------------------------------------------------------------------- C13
POS = "tracker_events/unit_positions.rs"
C13_SPEC = """
verus! {
#[verifier::external_body]
pub fn vx_chunk<T>(v: &Vec<T>, i: usize, n: usize) -> (r: &[T])
    requires i + n <= v@.len(), ensures r@ == v@.subrange(i as int, i + n),
{ unimplemented!() }
pub assume_specification[i32::saturating_mul](a: i32, b: i32) -> (r: i32) ensures r == clamp32(a * b);
pub open spec fn clamp32(x: int) -> int { if x > i32::MAX { i32::MAX as int } else if x < i32::MIN { i32::MIN as int } else { x } }
/// The sum of the first k index steps.
pub open spec fn steps(items: Seq<i32>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { steps(items, k - 1) + items[3 * (k - 1)] } }
/// Entry i of an expanded position report (indices wrap around at 2^32).
pub open spec fn entry(e: UnitPositionsEvent, i: int) -> UnitPosition {
    UnitPosition {
        tag: ((e.first_unit_index + steps(e.items@, i + 1)) % 0x1_0000_0000) as u32,
        x: clamp32(4 * e.items@[3 * i + 1]) as i32,
        y: clamp32(4 * e.items@[3 * i + 2]) as i32,
    }
}
pub open spec fn expanded(e: UnitPositionsEvent) -> Seq<UnitPosition> {
    Seq::new((e.items@.len() / 3) as nat, |i: int| entry(e, i))
}
proof fn lemma_wrap(a: i32, b: i32, s: int)
    requires a as u32 as int == s % 0x1_0000_0000,
    ensures
        a + b > i32::MAX ==> ((a + b - 0x1_0000_0000) as i32) as u32 as int == (s + b) % 0x1_0000_0000,
        a + b < i32::MIN ==> ((a + b + 0x1_0000_0000) as i32) as u32 as int == (s + b) % 0x1_0000_0000,
        i32::MIN <= a + b <= i32::MAX ==> ((a + b) as i32) as u32 as int == (s + b) % 0x1_0000_0000,
{
    let m = 0x1_0000_0000int;
    let q = s / m;
    assert(s == m * q + s % m);
    let bu: int = if a + b > i32::MAX { a + b - m } else if a + b < i32::MIN { a + b + m } else { a + b };
    let au: int = if a >= 0 { a as int } else { a + m };
    assert(a as u32 as int == au) by { assert(a >= 0 ==> a as u32 == a); if a < 0 { lemma_neg(a); } }
    let cu: int = if bu >= 0 { bu } else { bu + m };
    assert((bu as i32) as u32 as int == cu) by { if bu < 0 { lemma_neg(bu as i32); } }
    let k: int = if au + b == cu { q } else if au + b == cu + m { q + 1 } else { q - 1 };
    assert(s + b == m * k + cu) by (nonlinear_arith)
        requires s == m * q + au, m == 0x1_0000_0000int, k == q && au + b == cu || k == q + 1 && au + b == cu + m || k == q - 1 && au + b == cu - m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s + b, m, k, cu);
}
proof fn lemma_neg(a: i32) requires a < 0 ensures a as u32 as int == a + 0x1_0000_0000 {
        assert(a as u32 as i64 == add(a as i64, 0x1_0000_0000i64)) by (bit_vector) requires a < 0i32;
}
}
"""
C13_EXPAND = Fn(POS, "UnitPositionsEvent::to_unit_positions_vec", spec="    ensures res@ == expanded(self),",
    attrs="#[verifier::loop_isolation(false)]\n",
    lets={("unit_index", 0): "proof { let f = self.first_unit_index; assert((f as i32) as u32 == f) by (bit_vector); assert(self.first_unit_index as int % 0x1_0000_0000 == self.first_unit_index as int); }"},
    inv={0: """        invariant
            vx_n0 == 3, vx_i0 % 3 == 0, vx_i0 <= vx_v0@.len(), vx_v0@ == self.items@,
            unit_index as u32 as int == (self.first_unit_index + steps(self.items@, vx_i0 as int / 3)) % 0x1_0000_0000,
            res@ == Seq::new((vx_i0 / 3) as nat, |i: int| entry(self, i)),
        decreases vx_v0@.len() - vx_i0,"""},
    ls={0: "let ghost k = vx_i0 / 3; let ghost u0 = unit_index; let ghost r0 = res@;"},
    le={0: """proof {
            let items = self.items@;
            assert(3 * k == vx_i0 - 3);
            assert(relative_unit_pos@[0] == items[3 * k] && relative_unit_pos@[1] == items[3 * k + 1] && relative_unit_pos@[2] == items[3 * k + 2]);
            lemma_wrap(u0, relative_unit_pos@[0], self.first_unit_index + steps(items, k as int));
            assert(steps(items, k + 1) == steps(items, k as int) + items[3 * k]);
            assert(vx_i0 / 3 == k + 1);
            assert(res@ =~= Seq::new((k + 1) as nat, |i: int| entry(self, i)));
        }"""})
C13_ITEMS = [(POS, "UnitPositionsEvent"), (POS, "UnitPosition")]

# ---------------------------------------------------------------------------------------- C22
C22_SPEC = """
pub mod chrono {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct NaiveDateTime { x: u8 }
    }
}
verus! {
pub struct Utc {}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { x: core::marker::PhantomData<T> }
/// The calendar time of a number of seconds and nanoseconds since 1970-01-01, where chrono can represent it.
pub uninterp spec fn calendar(secs: int, nanos: int) -> Option<chrono::NaiveDateTime>;
pub uninterp spec fn dt_naive(d: DateTime<Utc>) -> chrono::NaiveDateTime;
impl DateTime<Utc> {
    #[verifier::external_body]
    pub fn from_timestamp(secs: i64, nsecs: u32) -> (r: Option<DateTime<Utc>>)
        ensures nsecs < 1_000_000_000 ==> match r { None => calendar(secs as int, nsecs as int) is None, Some(d) => calendar(secs as int, nsecs as int) == Some(dt_naive(d)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn naive_utc(&self) -> (r: chrono::NaiveDateTime) ensures r == dt_naive(*self) { unimplemented!() }
}
pub assume_specification[i64::div_euclid](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1), ensures b > 0 ==> r as int == a as int / b as int;
pub assume_specification[i64::rem_euclid](a: i64, b: i64) -> (r: i64)
    requires b != 0, !(a == i64::MIN && b == -1), ensures b > 0 ==> r as int == a as int % b as int;
/// Quotient rounded towards zero.
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
/// Microseconds since 1970-01-01 denoted by 100 ns ticks since 1601-01-01 and a zone offset in ticks.
pub open spec fn local_micros(ticks: int, offset: int) -> int { tdiv(ticks, 10) - 11_644_473_600_000_000 - tdiv(offset, 10) }
pub open spec fn local_time(ticks: int, offset: int) -> Option<chrono::NaiveDateTime> {
    let m = local_micros(ticks, offset);
    calendar(m / 1_000_000, (m % 1_000_000) * 1000)
}
}
"""
C22 = [Fn("lib.rs", "transform_to_naivetime", spec="    ensures res == local_time(time_utc as int, time_local_offset as int),",
          params="time_utc: i64, time_local_offset: i64")]

# ---------------------------------------------------------------------------------------- C20
MI, T3, CO = "cache_handles/map_info.rs", "cache_handles/t3_height_map.rs", "cache_handles/map/coords.rs"
C20_ITEMS0 = [(CO, "MapTerrainCoord"), (CO, "MapCellCoord"), ("cache_handles/map/mod.rs", "MapError")]
C20_ITEMS = C20_ITEMS0 + [(MI, "MapInfo"), (T3, "T3HeightMap")]
NOM_LE = """
verus! {
pub open spec fn le4(s: Seq<u8>) -> i32 {
    (((s[3] as u32) << 24u32) | ((s[2] as u32) << 16u32) | ((s[1] as u32) << 8u32) | (s[0] as u32)) as i32
}
#[verifier::external_body]
pub fn nom_le_i32(input: &[u8]) -> (res: IResult<&[u8], i32>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 4 && v == le4(input@) && t@ == input@.skip(4),
        Err(_) => input@.len() < 4,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn nom_tag4(a: u8, b: u8, c: u8, d: u8, input: &[u8]) -> (res: IResult<&[u8], &[u8]>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 4 && input@.take(4) == seq![a, b, c, d] && t@ == input@.skip(4),
        Err(_) => input@.len() < 4 || input@.take(4) != seq![a, b, c, d],
    },
{ unimplemented!() }
/// The length of the longest prefix of zero (z) or nonzero (!z) bytes.
pub open spec fn run(s: Seq<u8>, z: bool) -> int
    decreases s.len()
{ if s.len() > 0 && ((s[0] == 0) == z) { 1 + run(s.skip(1), z) } else { 0 } }
#[verifier::external_body]
pub fn nom_take_while_zero(input: &[u8]) -> (res: IResult<&[u8], &[u8]>)
    ensures match res {
        Ok((t, v)) => v@ == input@.take(run(input@, true)) && t@ == input@.skip(run(input@, true)),
        Err(_) => false,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn nom_take_while_nonzero(input: &[u8]) -> (res: IResult<&[u8], &[u8]>)
    ensures match res {
        Ok((t, v)) => v@ == input@.take(run(input@, false)) && t@ == input@.skip(run(input@, false)),
        Err(_) => false,
    },
{ unimplemented!() }
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_lossy(s: &[u8]) -> (r: String) ensures r@ == lossy(s@) { unimplemented!() }
}
"""
C20_SPEC = """
verus! {
pub struct G_MapInfo {
    pub file_version: i32, pub cell_width: i32, pub cell_height: i32,
    pub first_string: Seq<char>, pub second_string: Seq<char>, pub third_string: Seq<char>, pub fourth_string: Seq<char>,
    pub cell_left: i32, pub cell_bottom: i32, pub cell_right: i32, pub cell_top: i32,
}
pub open spec fn v_MapInfo(m: MapInfo) -> G_MapInfo {
    G_MapInfo { file_version: m.file_version, cell_width: m.cell_width, cell_height: m.cell_height,
        first_string: m.first_string@, second_string: m.second_string@, third_string: m.third_string@, fourth_string: m.fourth_string@,
        cell_left: m.cell_left, cell_bottom: m.cell_bottom, cell_right: m.cell_right, cell_top: m.cell_top }
}
/// A non-empty playable rectangle inside a map of at most 256 cells in each direction.
pub open spec fn consistent(m: G_MapInfo) -> bool {
    m.cell_width <= 256 && m.cell_height <= 256
    && 0 <= m.cell_left < m.cell_right <= m.cell_width
    && 0 <= m.cell_bottom < m.cell_top <= m.cell_height
}
pub open spec fn s_take(s: Seq<u8>, n: int) -> Option<Seq<u8>> { if s.len() >= n { Some(s.skip(n)) } else { None } }
pub open spec fn s_le(s: Seq<u8>) -> Option<(i32, Seq<u8>)> { if s.len() >= 4 { Some((le4(s.take(4)), s.skip(4))) } else { None } }
pub open spec fn s_cstr(s: Seq<u8>) -> Option<(Seq<char>, Seq<u8>)> {
    match s_take(s.skip(run(s, false)), 1) { None => None, Some(t) => Some((lossy(s.take(run(s, false))), t)) }
}
pub open spec fn s_head(s: Seq<u8>) -> Option<((i32, i32, i32), Seq<u8>)> {
    if s.len() < 4 || s.take(4) != seq![73u8, 112u8, 97u8, 77u8] { None } else {
    match s_le(s.skip(4)) { None => None, Some((v, t1)) =>
    match (if v > 24 { s_take(t1, 8) } else { Some(t1) }) { None => None, Some(t2) =>
    match s_le(t2) { None => None, Some((w, t3)) =>
    match s_le(t3) { None => None, Some((h, t4)) => Some(((v, w, h), t4)) } } } } }
}
pub open spec fn s_strings(s: Seq<u8>) -> Option<((Seq<char>, Seq<char>, Seq<char>, Seq<char>), Seq<u8>)> {
    match s_take(s, 8) { None => None, Some(a) => { let b = a.skip(run(a, true));
    match s_cstr(b) { None => None, Some((x1, c)) =>
    match s_cstr(c) { None => None, Some((x2, d)) =>
    match s_take(d, 5) { None => None, Some(e) =>
    match s_cstr(e) { None => None, Some((x3, f)) =>
    match s_cstr(f) { None => None, Some((x4, g)) => Some(((x1, x2, x3, x4), g)) } } } } } } }
}
pub open spec fn s_bounds(s: Seq<u8>) -> Option<((i32, i32, i32, i32), Seq<u8>)> {
    match s_le(s) { None => None, Some((l, a)) => match s_le(a) { None => None, Some((b, c)) =>
    match s_le(c) { None => None, Some((r, d)) => match s_le(d) { None => None, Some((t, e)) => Some(((l, b, r, t), e)) } } } }
}
pub open spec fn s_map_info(s: Seq<u8>) -> Option<(G_MapInfo, Seq<u8>)> {
    match s_head(s) { None => None, Some(((v, w, h), a)) =>
    match s_strings(a) { None => None, Some(((x1, x2, x3, x4), b)) =>
    match s_bounds(b) { None => None, Some(((l, bo, r, t), c)) => {
        let m = G_MapInfo { file_version: v, cell_width: w, cell_height: h, first_string: x1, second_string: x2, third_string: x3,
            fourth_string: x4, cell_left: l, cell_bottom: bo, cell_right: r, cell_top: t };
        if consistent(m) { Some((m, c)) } else { None } } } } }
}
/// What follows magic, version and the unknown block of an accepted height map.
pub open spec fn s_heights(s: Seq<u8>, w: int, h: int) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() < 6 * (w * h) { None }
    else if forall|i: int| 0 <= i < w * h ==> (#[trigger] s[6 * i + 4]) <= 4 { Some((Seq::new((w * h) as nat, |i: int| s[6 * i + 4]), s.skip(6 * (w * h)))) }
    else { None }
}
pub struct G_T3 { pub width: i32, pub height: i32, pub data: Seq<u8> }
pub open spec fn v_T3(m: T3HeightMap) -> G_T3 { G_T3 { width: m.width, height: m.height, data: m.data@ } }
pub open spec fn s_t3(s: Seq<u8>, m: G_MapInfo) -> Option<(G_T3, Seq<u8>)> {
    if s.len() < 4 || s.take(4) != seq![72u8, 77u8, 65u8, 80u8] { None } else { let a = s.skip(4);
    if a.len() < 4 || a.take(4) != seq![101u8, 0u8, 0u8, 0u8] { None } else {
    match s_le(a.skip(4)) { None => None, Some((w, b)) => match s_le(b) { None => None, Some((h, c)) =>
        if w != m.cell_width + 1 || h != m.cell_height + 1 { None } else {
        match s_take(c, 16) { None => None, Some(d) => match s_heights(d, w as int, h as int) { None => None, Some((hs, e)) =>
            Some((G_T3 { width: w, height: h, data: hs }, e)) } } } } } } }
}
/// An accepted height map holds one height of at most 4 per terrain point.
pub proof fn c20_heights(s: Seq<u8>, m: G_MapInfo)
    requires consistent(m), s_t3(s, m) is Some,
    ensures ({ let t = (s_t3(s, m)->0).0; t.width == m.cell_width + 1 && t.height == m.cell_height + 1
        && t.data.len() == t.width * t.height && (forall|i: int| 0 <= i < t.data.len() ==> t.data[i] <= 4) }),
{
    let t = (s_t3(s, m)->0).0;
    assert(t.width * t.height >= 0) by (nonlinear_arith) requires t.width >= 0, t.height >= 0;
}
}
"""
_DER = lambda t: "#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n" + t
C20_DERIVE = {CO + "::MapTerrainCoord": _DER, CO + "::MapCellCoord": _DER}
OKM = "    requires consistent(v_MapInfo(*self)),\n"
C20 = [
    Fn(CO, "MapTerrainCoord::new", spec="    ensures res == (MapTerrainCoord { x, y }),"),
    Fn(CO, "MapCellCoord::new", spec="    ensures res == (MapCellCoord { x, y }),"),
    Fn(MI, "MapInfo::parse", spec="""    ensures match res {
        Ok((t, v)) => s_map_info(input@) == Some((v_MapInfo(v), t@)) && consistent(v_MapInfo(v)),
        Err(_) => s_map_info(input@) is None,
    },""", subst=[(r"String\s*::\s*from_utf8_lossy\s*\((\w+)\s*\)\s*\.\s*to_string\s*\(\)", r"vx_lossy(\1)"), (r"cell_width\s*\.\s*max\s*\(cell_height\s*\)", "cell_width")],
       post=""),
    Fn(MI, "MapInfo::cell_dim_map", spec="    ensures res == (MapCellCoord { x: self.cell_width, y: self.cell_height }),"),
    Fn(MI, "MapInfo::terrain_dim_map", spec=OKM + "    ensures res == (MapTerrainCoord { x: (self.cell_width + 1) as i32, y: (self.cell_height + 1) as i32 }),"),
    Fn(MI, "MapInfo::cell_dim_playable", spec=OKM + "    ensures res == (MapCellCoord { x: (self.cell_right - self.cell_left) as i32, y: (self.cell_top - self.cell_bottom) as i32 }), res.x > 0, res.y > 0,"),
    Fn(MI, "MapInfo::terrain_dim_playable", spec=OKM + "    ensures res == (MapTerrainCoord { x: (self.cell_right - self.cell_left + 1) as i32, y: (self.cell_top - self.cell_bottom + 1) as i32 }),"),
    Fn(MI, "MapInfo::cell_left_bottom", spec="    ensures res == (MapCellCoord { x: self.cell_left, y: self.cell_bottom }),"),
    Fn(MI, "MapInfo::cell_right_top", spec="    ensures res == (MapCellCoord { x: self.cell_right, y: self.cell_top }),"),
    Fn(MI, "MapInfo::terrain_left_bottom", spec="    ensures res == (MapTerrainCoord { x: self.cell_left, y: self.cell_bottom }),"),
    Fn(MI, "MapInfo::terrain_right_top", spec=OKM + "    ensures res == (MapTerrainCoord { x: (self.cell_width + 1) as i32, y: (self.cell_height + 1) as i32 }),"),
    Fn(T3, "T3HeightMap::parse", spec="""    requires consistent(v_MapInfo(*map_info)),
    ensures match res {
        Ok((t, v)) => s_t3(input@, v_MapInfo(*map_info)) == Some((v_T3(v), t@)),
        Err(_) => s_t3(input@, v_MapInfo(*map_info)) is None,
    },""", generics="<'a>", attrs="#[verifier::loop_isolation(false)]\n",
       lets={("terrain_dimensions", 0): "", ("_unknown_bytes", 0): """proof {
            assert(width * height <= 66049 && 0 <= width * height) by (nonlinear_arith) requires 0 <= width <= 257, 0 <= height <= 257;
        } let ghost d0 = tail@; let ghost wh = width * height;"""},
       inv={0: """        invariant
            0 <= vx_i0 <= vx_n0, vx_n0 == wh, wh == width * height, 0 <= wh <= 66049,
            d0.len() >= 6 * wh, tail@ == d0.skip(6 * vx_i0),
            data@ == Seq::new(vx_i0 as nat, |i: int| d0[6 * i + 4]),
            forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] d0[6 * i + 4]) <= 4,
        decreases vx_n0 - vx_i0,"""},
       ls={0: "let ghost k = vx_i0 as int; let ghost dd = data@; proof { assert(tail@[4] == d0[6 * k + 4]); }"},
       le={0: "proof { assert(d0.skip(6 * k).skip(6) =~= d0.skip(6 * (k + 1))); assert(data@ =~= Seq::new((k + 1) as nat, |i: int| d0[6 * i + 4])); }"}),
]

# ---------------------------------------------------------------------------------------- C19
BD = "game_events/ability/balance_data/mod.rs"
C19_STRUCTS = ["Meta", "Life", "Shields", "Armor", "UnitShortRef", "UnitRef", "Cost", "Movement", "ShieldArmor", "Score", "Misc",
               "Producer", "EffectBonus", "EffectArea", "Effect", "Weapon", "Attribute", "Command", "Ability", "UpgradeRef",
               "UpgradeLevelRequirement", "UpgradeLevel", "Upgrade", "ResearchUpgrade", "ResearchesTag", "RequiresTag", "AttributesTag",
               "StrengthsTag", "WeaknessesTag", "WeaponsTag", "AbilitiesTag", "TrainsTag", "BuildsTag", "UpgradesTag", "VersionedBalanceUnit"]
C19_ITEMS = [(BD, x) for x in C19_STRUCTS]


def _lit(s):
    return "seq![" + ", ".join(f"'{c}'" for c in s) + "]"


C19_SPEC = """
verus! {
/// std's HashMap<String, VersionedBalanceUnit>, by its lookups.
#[verifier::external_body]
pub struct VersionedBalanceUnits { x: u8 }
impl VersionedBalanceUnits {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, VersionedBalanceUnit>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&VersionedBalanceUnit>)
        ensures match r { Some(u) => self.view().contains_key(k@) && *u == self.view()[k@], None => !self.view().contains_key(k@) },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub fn vx_str(s: &String) -> (r: &String) ensures r == s { s }
#[verifier::external_body]
pub fn vx_fmt__7b_7d_2e_7b_7d(a: &String, b: &String) -> (r: String) ensures r@ == a@ + DOT + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_Train_2e_7b_7d(a: &String) -> (r: String) ensures r@ == TRAIN + a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_Build_2e_7b_7d(a: &String) -> (r: String) ensures r@ == BUILD + a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_Research_2e_7b_7d(a: &String) -> (r: String) ensures r@ == RESEARCH + a@ { unimplemented!() }

pub open spec fn cmd_name(c: Command) -> Seq<char> { match c.id { Some(s) => s@, None => Seq::empty() } }
/// The first command from position i on with the wanted index.
pub open spec fn s_cmd(a: Ability, i: int, index: i64) -> Option<Seq<char>>
    decreases a.commands@.len() - i
{
    if i < 0 || i >= a.commands@.len() { None }
    else if a.commands@[i].index == index { Some(a.id@ + DOT + cmd_name(a.commands@[i])) }
    else { s_cmd(a, i + 1, index) }
}
/// The first such command of an ability with the wanted number.
pub open spec fn s_abil(v: Seq<Ability>, i: int, id: u16, index: i64) -> Option<Seq<char>>
    decreases v.len() - i
{
    if i < 0 || i >= v.len() { None }
    else if v[i].index == Some(id) && s_cmd(v[i], 0, index) is Some { s_cmd(v[i], 0, index) }
    else { s_abil(v, i + 1, id, index) }
}
pub open spec fn s_ref(v: Seq<UnitRef>, i: int, id: u16, index: i64) -> Option<Seq<char>>
    decreases v.len() - i
{
    if i < 0 || i >= v.len() { None }
    else if v[i].ability_id == Some(id) && v[i].command_index == Some(index) { Some(v[i].id@) }
    else { s_ref(v, i + 1, id, index) }
}
pub open spec fn s_res(v: Seq<ResearchUpgrade>, i: int, id: u16, index: i64) -> Option<Seq<char>>
    decreases v.len() - i
{
    if i < 0 || i >= v.len() { None }
    else if v[i].ability == id && v[i].index == index { Some(v[i].id@) }
    else { s_res(v, i + 1, id, index) }
}
pub open spec fn s_lookup(m: Map<Seq<char>, VersionedBalanceUnit>, name: Seq<char>, id: u16, index: i64) -> Seq<char> {
    if !m.contains_key(name) { Seq::empty() } else { s_unit(m[name], id, index) }
}
pub open spec fn s_unit(u: VersionedBalanceUnit, id: u16, index: i64) -> Seq<char> {
    match s_abil(u.abilities.inner@, 0, id, index) { Some(x) => x, None =>
    match s_ref(u.trains.inner@, 0, id, index) { Some(x) => TRAIN + x, None =>
    match s_ref(u.builds.inner@, 0, id, index) { Some(x) => BUILD + x, None => s_unit_res(u, id, index) } } }
}
pub open spec fn s_unit_res(u: VersionedBalanceUnit, id: u16, index: i64) -> Seq<char> {
    match u.researches { None => Seq::empty(), Some(r) =>
    match s_res(r.inner@, 0, id, index) { Some(x) => RESEARCH + x, None => Seq::empty() } }
}
/// Entries of other abilities or indices never answer.
pub proof fn c19_only_matching(u: VersionedBalanceUnit, id: u16, index: i64)
    requires
        forall|i: int, j: int| 0 <= i < u.abilities.inner@.len() && 0 <= j < u.abilities.inner@[i].commands@.len() && u.abilities.inner@[i].index == Some(id)
            ==> (#[trigger] u.abilities.inner@[i].commands@[j]).index != index,
        forall|i: int| 0 <= i < u.trains.inner@.len() ==> !((#[trigger] u.trains.inner@[i]).ability_id == Some(id) && u.trains.inner@[i].command_index == Some(index)),
        forall|i: int| 0 <= i < u.builds.inner@.len() ==> !((#[trigger] u.builds.inner@[i]).ability_id == Some(id) && u.builds.inner@[i].command_index == Some(index)),
        u.researches matches Some(r) ==> forall|i: int| 0 <= i < r.inner@.len() ==> !((#[trigger] r.inner@[i]).ability == id && r.inner@[i].index == index),
    ensures s_unit(u, id, index) == Seq::<char>::empty(),
{
    none_abil(u.abilities.inner@, 0, id, index);
    none_ref(u.trains.inner@, 0, id, index);
    none_ref(u.builds.inner@, 0, id, index);
    if let Some(r) = u.researches { none_res(r.inner@, 0, id, index); }
}
proof fn none_cmd(a: Ability, i: int, index: i64)
    requires 0 <= i, forall|j: int| 0 <= j < a.commands@.len() ==> (#[trigger] a.commands@[j]).index != index,
    ensures s_cmd(a, i, index) is None decreases a.commands@.len() - i
{ if i < a.commands@.len() { none_cmd(a, i + 1, index); } }
proof fn none_abil(v: Seq<Ability>, i: int, id: u16, index: i64)
    requires 0 <= i, forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v[i].commands@.len() && v[i].index == Some(id) ==> (#[trigger] v[i].commands@[j]).index != index,
    ensures s_abil(v, i, id, index) is None decreases v.len() - i
{ if i < v.len() { if v[i].index == Some(id) { none_cmd(v[i], 0, index); } none_abil(v, i + 1, id, index); } }
proof fn none_ref(v: Seq<UnitRef>, i: int, id: u16, index: i64)
    requires 0 <= i, forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]).ability_id == Some(id) && v[i].command_index == Some(index)),
    ensures s_ref(v, i, id, index) is None decreases v.len() - i
{ if i < v.len() { none_ref(v, i + 1, id, index); } }
proof fn none_res(v: Seq<ResearchUpgrade>, i: int, id: u16, index: i64)
    requires 0 <= i, forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]).ability == id && v[i].index == index),
    ensures s_res(v, i, id, index) is None decreases v.len() - i
{ if i < v.len() { none_res(v, i + 1, id, index); } }
}
""".replace("DOT", "seq!['.']").replace("TRAIN", _lit("Train.")).replace("BUILD", _lit("Build.")).replace("RESEARCH", _lit("Research."))


def _seq_inv(n, spec, goal, seq, extra=""):
    return f"""        invariant
            vx_i{n} <= vx_n{n}, vx_n{n} == vx_v{n}@.len(), vx_v{n}@ == {seq}, {extra}
            {goal} == {spec},
        decreases vx_n{n} - vx_i{n},"""


_G = "s_unit(*balance_unit, ability_id, command_index)"
_T = "match s_ref(balance_unit.trains.inner@, 0, ability_id, command_index) { Some(x) => %s + x, None => %s }" % (
    _lit("Train."), "match s_ref(balance_unit.builds.inner@, 0, ability_id, command_index) { Some(x) => %s + x, None => s_unit_res(*balance_unit, ability_id, command_index) }" % _lit("Build."))
_T1 = "(match s_ref(balance_unit.trains.inner@, vx_i2 as int, ability_id, command_index) { Some(x) => %s + x, None => %s })" % (
    _lit("Train."), "match s_ref(balance_unit.builds.inner@, 0, ability_id, command_index) { Some(x) => %s + x, None => s_unit_res(*balance_unit, ability_id, command_index) }" % _lit("Build."))
_B1 = "(match s_ref(balance_unit.builds.inner@, vx_i3 as int, ability_id, command_index) { Some(x) => %s + x, None => s_unit_res(*balance_unit, ability_id, command_index) })" % _lit("Build.")
_R1 = "(match s_res(balance_unit_researches.inner@, vx_i4 as int, ability_id, command_index) { Some(x) => %s + x, None => Seq::empty() })" % _lit("Research.")
C19 = [Fn(BD, "get_indexed_ability_command_name", fmt=True,
          params="balance_data_units: &VersionedBalanceUnits, unit_name: &str, ability_id: u16, command_index: i64",
          spec="    ensures res@ == s_lookup(balance_data_units.view(), unit_name@, ability_id, command_index),",
          attrs="#[verifier::loop_isolation(false)]\n",
          subst=[(r'&\s*""\s*\.\s*to_string\s*\(\)', "&vx_empty_string()"), (r"Default\s*::\s*default\s*\(\)", "vx_empty_string()")],
          inv={
              0: _seq_inv(0, "(match s_cmd(*ability, vx_i0 as int, command_index) { Some(x) => x, None => match s_abil(balance_unit.abilities.inner@, vx_i1 as int, ability_id, command_index) { Some(x) => x, None => " + _T + " } })", _G, "ability.commands@",
                          "ability.index == Some(ability_id), *ability == vx_v1@[vx_i1 - 1],"),
              1: _seq_inv(1, "(match s_abil(balance_unit.abilities.inner@, vx_i1 as int, ability_id, command_index) { Some(x) => x, None => " + _T + " })", _G, "balance_unit.abilities.inner@"),
              2: _seq_inv(2, _T1, _G, "balance_unit.trains.inner@"),
              3: _seq_inv(3, _B1, _G, "balance_unit.builds.inner@"),
              4: _seq_inv(4, _R1, _G, "balance_unit_researches.inner@"),
          })]
