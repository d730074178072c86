"""Contracts for C30: the statistics of a directory of replays."""
from .core import Fn, Section
from . import libfns as L

F = "dir_stats.rs"


def opaque(n):
    return f"#[verifier::external_body] pub struct {n} {{ x: u8 }}\n"


SPEC = """
verus! {
""" + "".join(opaque(n) for n in ["PathBuf", "IoError", "VersionedBalanceUnit", "InitRest", "DetRest", "MPQ", "Left"]) + """
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
pub struct InitData { pub version: u32, pub rest: InitRest }
pub struct Details { pub title: String, pub rest: DetRest }
pub type Bal = HashMap<(u32, String), VersionedBalanceUnit>;

// ---- paths, files and archives, by the contracts of the other checks
pub uninterp spec fn path(s: Seq<char>) -> PathBuf;
pub uninterp spec fn text(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn contents(p: PathBuf) -> Option<Seq<u8>>;
pub uninterp spec fn archive(b: Seq<u8>) -> Option<MPQ>;
pub uninterp spec fn lobby(name: Seq<char>, n: int, m: MPQ, b: Seq<u8>) -> Option<InitData>;
pub uninterp spec fn found(p: PathBuf, n: int, d: int) -> Option<Seq<PathBuf>>;
pub uninterp spec fn details_of(i: InitData) -> Option<Details>;
pub uninterp spec fn names(d: Details) -> Seq<String>;
pub uninterp spec fn included() -> Option<Bal>;
impl PathBuf {
    #[verifier::external_body] pub fn from(s: &str) -> (r: PathBuf) ensures r == path(s@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>)
        ensures match r { Some(s) => text(*self) == Some(s@), None => text(*self) is None } { unimplemented!() }
}
impl IoError { #[verifier::external_body] pub fn from(s: &str) -> (r: IoError) { unimplemented!() } }
#[verifier::external_body] pub fn vx_or_err<T>(o: Option<T>, s: &str) -> (r: Result<T, IoError>)
    ensures match r { Ok(t) => o == Some(t), Err(_) => o is None } { unimplemented!() }
#[verifier::external_body] pub fn read_file(p: &PathBuf) -> (r: Result<Vec<u8>, IoError>)
    ensures match r { Ok(v) => contents(*p) == Some(v@), Err(_) => contents(*p) is None } { unimplemented!() }
pub mod parser { use super::*; use vstd::prelude::*; verus! {
    #[verifier::external_body] pub fn parse(b: &Vec<u8>) -> (r: Result<(Left, MPQ), IoError>)
        ensures match r { Ok(x) => archive(b@) == Some(x.1), Err(_) => archive(b@) is None } { unimplemented!() }
} }
impl InitData { #[verifier::external_body] pub fn new(name: &str, n: u64, m: &MPQ, b: &Vec<u8>) -> (r: Result<InitData, IoError>)
    ensures match r { Ok(i) => lobby(name@, n as int, *m, b@) == Some(i), Err(_) => lobby(name@, n as int, *m, b@) is None } { unimplemented!() } }
#[verifier::external_body] pub fn get_matching_files(p: PathBuf, n: usize, d: usize) -> (r: Result<Vec<PathBuf>, IoError>)
    ensures match r { Ok(v) => found(p, n as int, d as int) == Some(v@) && v@.len() <= n, Err(_) => found(p, n as int, d as int) is None } { unimplemented!() }
impl Details {
    #[verifier::external_body] pub fn try_from(i: &InitData) -> (r: Result<Details, IoError>)
        ensures match r { Ok(d) => details_of(*i) == Some(d), Err(_) => details_of(*i) is None } { unimplemented!() }
    #[verifier::external_body] pub fn get_player_names(&self) -> (r: Vec<String>) ensures r@ == names(*self), r@.len() <= MANY() { unimplemented!() }
}
#[verifier::external_body] pub fn read_balance_data_from_included_assets() -> (r: Result<Bal, IoError>)
    ensures match r { Ok(b) => included() == Some(b), Err(_) => included() is None } { unimplemented!() }
/// More player entries than any replay file has room for.
pub open spec fn MANY() -> int { 0x100_0000_0000 }

// ---- vectors and maps
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
pub open spec fn first<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() <= n { s } else { s.take(n) } }
#[verifier::external_body]
pub fn vx_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == first(v@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_has<T>(v: &Vec<T>, x: &T) -> (r: bool) ensures r == v@.contains(*x) { unimplemented!() }
pub uninterp spec fn held<K, V>(m: HashMap<K, V>) -> Map<K, V>;
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { held(*self) } }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Vec<&K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(*(#[trigger] r@[i])),
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_or_insert<K, V>(m: &mut HashMap<K, V>, k: K, v: V) -> (r: &mut V)
    ensures *r == (if old(m)@.dom().contains(k) { old(m)@[k] } else { v }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
/// What a map or a list consumed by an iterator gives.
pub trait VxList<T>: Sized { spec fn vx_gives(self, r: Seq<T>) -> bool; fn vx_list(self) -> (r: Vec<T>) ensures self.vx_gives(r@); }
impl<T> VxList<T> for Vec<T> { open spec fn vx_gives(self, r: Seq<T>) -> bool { r == self@ } fn vx_list(self) -> (r: Vec<T>) { self } }
impl<K, V> VxList<(K, V)> for HashMap<K, V> {
    open spec fn vx_gives(self, r: Seq<(K, V)>) -> bool { pairs(self@, r) }
    #[verifier::external_body] fn vx_list(self) -> (r: Vec<(K, V)>) { unimplemented!() }
}
pub fn vx_list<T, L: VxList<T>>(l: L) -> (r: Vec<T>) ensures l.vx_gives(r@) { l.vx_list() }
/// Each entry of the map once, in some order.
pub open spec fn pairs<K, V>(m: Map<K, V>, r: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0) && m[r[i].0] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
}
/// The same entries in another order: q undoes p.
pub open spec fn shuffled<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() && p.len() == a.len() && q.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]] && q[p[i]] == i
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] q[i] < a.len() && p[q[i]] == i
}
pub open spec fn reordered<T>(a: Seq<T>, b: Seq<T>) -> bool { exists|p: Seq<int>, q: Seq<int>| shuffled(a, b, p, q) }
pub open spec fn falling(s: Seq<(String, usize)>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).1 >= (#[trigger] s[j]).1 }
pub open spec fn rising(s: Seq<(String, usize)>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).1 }
#[verifier::external_body]
pub fn vx_sort_falling(v: &mut Vec<(String, usize)>)
    ensures falling(final(v)@), reordered(old(v)@, final(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_sort_rising(v: &mut Vec<(String, usize)>)
    ensures rising(final(v)@), reordered(old(v)@, final(v)@) { unimplemented!() }

// ---- what is counted
pub open spec fn init_of(p: PathBuf, n: int) -> Option<InitData> {
    match contents(p) { None => None, Some(b) => match archive(b) { None => None, Some(m) => match text(p) { None => None, Some(s) => lobby(s, n, m, b) } } }
}
/// The replays whose lobby data can be read.
pub open spec fn inits(p: Seq<PathBuf>) -> Seq<InitData>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { match init_of(p.last(), p.len() - 1) { Some(i) => inits(p.drop_last()).push(i), None => inits(p.drop_last()) } }
}
pub proof fn lemma_inits(p: Seq<PathBuf>) ensures inits(p).len() <= p.len() decreases p.len() { if p.len() > 0 { lemma_inits(p.drop_last()); } }
pub open spec fn covered(b: Bal, v: u32) -> bool { exists|n: String| #[trigger] b@.dom().contains((v, n)) }
pub open spec fn n_covered(s: Seq<InitData>, b: Bal) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { n_covered(s.drop_last(), b) + if covered(b, s.last().version) { 1nat } else { 0 } }
}
pub proof fn lemma_covered(s: Seq<InitData>, b: Bal) ensures n_covered(s, b) <= s.len() decreases s.len() { if s.len() > 0 { lemma_covered(s.drop_last(), b); } }
/// Every player entry and every map title of the replays whose details can be read.
pub open spec fn players(s: Seq<InitData>) -> Seq<String>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match details_of(s.last()) { Some(d) => players(s.drop_last()) + names(d), None => players(s.drop_last()) } }
}
pub open spec fn titles(s: Seq<InitData>) -> Seq<String>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match details_of(s.last()) { Some(d) => titles(s.drop_last()).push(d.title), None => titles(s.drop_last()) } }
}
pub open spec fn occ(s: Seq<String>, n: String) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { occ(s.drop_last(), n) + if s.last() == n { 1nat } else { 0 } }
}
pub proof fn lemma_occ(s: Seq<String>, n: String) ensures occ(s, n) <= s.len() decreases s.len() { if s.len() > 0 { lemma_occ(s.drop_last(), n); } }
pub proof fn lemma_push(s: Seq<String>, x: String) ensures forall|n: String| #[trigger] occ(s.push(x), n) == occ(s, n) + if x == n { 1nat } else { 0 } {
    assert(s.push(x).drop_last() =~= s);
}
pub open spec fn counts(m: Map<String, usize>, s: Seq<String>) -> bool {
    forall|n: String| (#[trigger] m.dom().contains(n) <==> occ(s, n) > 0) && (m.dom().contains(n) ==> m[n] == occ(s, n))
}
/// The ten most frequent of s: true counts, each once, most frequent first, and nothing left out counts more.
pub open spec fn top(s: Seq<String>, r: Seq<(String, usize)>) -> bool {
    &&& r.len() <= 10
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 == occ(s, r[i].0) && r[i].1 > 0
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& falling(r)
    &&& forall|n: String| #[trigger] occ(s, n) > 0 ==> (exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == n) || (r.len() == 10 && occ(s, n) <= r[9].1)
}
pub proof fn lemma_top(m: Map<String, usize>, s: Seq<String>, a: Seq<(String, usize)>, b: Seq<(String, usize)>)
    requires counts(m, s), pairs(m, a), falling(b), reordered(a, b),
    ensures top(s, first(b, 10)),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| shuffled(a, b, p, q);
    let r = first(b, 10);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 == occ(s, r[i].0) && r[i].1 > 0 by {
        assert(r[i] == a[p[i]]);
        assert(m.dom().contains(a[p[i]].0));
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by {
        assert(r[i] == a[p[i]] && r[j] == a[p[j]]);
        assert(q[p[i]] == i && q[p[j]] == j);
    }
    assert forall|n: String| #[trigger] occ(s, n) > 0 implies (exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == n) || (r.len() == 10 && occ(s, n) <= r[9].1) by {
        assert(m.dom().contains(n));
        let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == n;
        let i = q[k];
        assert(p[i] == k);
        assert(b[i] == a[k]);
        if i < r.len() { assert(r[i].0 == n); } else { assert(r.len() == 10); assert(b[9].1 >= b[i].1); assert(r[9] == b[9]); }
    }
}
/// What the statistics of a listing say.
pub open spec fn told(st: SC2ReplaysDirStats, p: Seq<PathBuf>, b: Bal) -> bool {
    &&& st.total_files == p.len()
    &&& st.total_supported_replays == inits(p).len()
    &&& st.ability_supported_replays == n_covered(inits(p), b)
    &&& top(players(inits(p)), st.top_10_players@)
    &&& top(titles(inits(p)), st.top_10_maps@)
}
/// A file that cannot be read changes nothing but the number of files.
pub proof fn c30_apart(p: Seq<PathBuf>, f: PathBuf)
    requires init_of(f, p.len() as int) is None,
    ensures inits(p.push(f)) == inits(p),
{
    assert(p.push(f).drop_last() =~= p);
}
/// Reading in the other mode, or again, gives the same numbers.
pub proof fn c30_same(x: SC2ReplaysDirStats, y: SC2ReplaysDirStats, p: Seq<PathBuf>, b: Bal)
    requires told(x, p, b), told(y, p, b),
    ensures
        x.total_files == y.total_files, x.total_supported_replays == y.total_supported_replays, x.ability_supported_replays == y.ability_supported_replays,
        forall|i: int, j: int| 0 <= i < x.top_10_players@.len() && 0 <= j < y.top_10_players@.len() && (#[trigger] x.top_10_players@[i]).0 == (#[trigger] y.top_10_players@[j]).0
            ==> x.top_10_players@[i].1 == y.top_10_players@[j].1,
{}
}
"""
SUBST = [(r"(\w+) \. entry \(([^()]*)\)\. or_insert \(", r"vx_or_insert (&mut \1 , \2 , "),
         (r"let (vx_v\d+) = (\w+) ;", r"let \1 = vx_list (\2 );"),
         (r"(\w+) \. contains \(& ", r"vx_has (& \1 , & "),
         (r"(\w+) \. sort(?:_unstable)?_by(?:_cached)?_key \(\| (\w+) \| (?:std :: cmp :: )?Reverse \(\2 \. 1\)\)", r"vx_sort_falling (&mut \1 )"),
         (r"(\w+) \. sort(?:_unstable)?_by(?:_cached)?_key \(\| (\w+) \| \2 \. 1\)", r"vx_sort_rising (&mut \1 )"),
         (r"(\w+) \. sort(?:_unstable)?_by \(\| (\w+) , (\w+) \| \3 \. 1 ?\. cmp \(& \2 \. 1\)\)", r"vx_sort_falling (&mut \1 )"),
         (r"(\w+) \. sort(?:_unstable)?_by \(\| (\w+) , (\w+) \| \2 \. 1 ?\. cmp \(& \3 \. 1\)\)", r"vx_sort_rising (&mut \1 )")]


def listing(j):
    return f"""        invariant
            vx_i{j} <= vx_n{j}, vx_n{j} == vx_v{j}@.len(), vx_k == vx_i{j}, vx_out@ == inits(vx_v{j}@.take(vx_i{j} as int)), vx_n{j} <= 1_000_000,
        decreases vx_n{j} - vx_i{j},"""


def copy(j):
    return f"""        invariant
            vx_i{j} <= vx_n{j}, vx_n{j} == vx_v{j}@.len(), vx_out@ =~= vx_v{j}@.take(vx_i{j} as int),
        decreases vx_n{j} - vx_i{j},"""


FNS = [
    Fn(F, "try_read_init_data", std="pipe", free=True, rettype="Result<InitData, IoError>",
       subst=[(r"crate :: read_file", "read_file"), (r"(\w+) \. to_str \(\)\. ok_or \((\"[^\"]*\")\)", r"vx_or_err (\1 . to_str (), \2)"),
              (r"(\w+) \. to_str \(\)\. ok_or_else \(\| \| (\"[^\"]*\")\)", r"vx_or_err (\1 . to_str (), \2)")],
       spec="""    ensures match res { Ok(i) => init_of(*source, file_number as int) == Some(i), Err(_) => init_of(*source, file_number as int) is None },"""),
    Fn(F, "scan_path", std="pipe", free=True, rettype="Result<SC2ReplaysDirStats, IoError>", subst=SUBST, attrs="#[verifier::loop_isolation(false)]\n",
       spec="""    ensures match found(crate::path(path@), 1_000_000, 10) {
        None => res is Err,
        Some(p) => res is Ok && told(res->Ok_0, p, *unit_abilities),
    },""",
       inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_out@.len() == vx_i0,
            forall|j: int| #![trigger vx_out@[j]] #![trigger vx_v0@[j]] 0 <= j < vx_i0 ==> vx_out@[j] == (*vx_v0@[j]).0 && covered(*unit_abilities, vx_out@[j]),
        decreases vx_n0 - vx_i0,""",
            1: listing(1), 2: listing(2),
            3: """        invariant
            vx_i3 <= vx_n3, vx_n3 == vx_v3@.len(), vx_v3@ == names(details), vx_n3 <= MANY(),
            counts(user_freq@, players(init_data_files@.take(vx_i4 - 1)) + vx_v3@.take(vx_i3 as int)),
        decreases vx_n3 - vx_i3,""",
            4: """        invariant
            vx_i4 <= vx_n4, vx_n4 == vx_v4@.len(), vx_v4@ == init_data_files@, vx_n4 <= 1_000_000,
            stats.total_files == sources@.len(), stats.total_supported_replays == vx_n4,
            stats.ability_supported_replays == n_covered(init_data_files@.take(vx_i4 as int), *unit_abilities),
            counts(user_freq@, players(init_data_files@.take(vx_i4 as int))), players(init_data_files@.take(vx_i4 as int)).len() <= vx_i4 * MANY(),
            counts(map_freq@, titles(init_data_files@.take(vx_i4 as int))), titles(init_data_files@.take(vx_i4 as int)).len() <= vx_i4,
        decreases vx_n4 - vx_i4,""",
            5: copy(5), 6: copy(6), 7: copy(7), 8: copy(8)},
       ls={0: "proof { let k = *vx_v0@[vx_i0 as int]; assert(unit_abilities@.dom().contains((k.0, k.1))); assert(covered(*unit_abilities, k.0)); }",
           **{j: f"""proof {{
            let s = vx_v{j}@.take(vx_i{j} + 1);
            assert(s.drop_last() =~= vx_v{j}@.take(vx_i{j} as int)); assert(s.last() == vx_v{j}@[vx_i{j} as int]); assert(vx_v{j}@.take(vx_n{j} as int) =~= vx_v{j}@);
        }}""" for j in (1, 2)},
           4: """proof {
            let s = init_data_files@.take(vx_i4 + 1);
            assert(s.drop_last() =~= init_data_files@.take(vx_i4 as int)); assert(s.last() == init_data_files@[vx_i4 as int]);
            lemma_covered(s.drop_last(), *unit_abilities);
            assert(versions_with_abilities@.contains(s.last().version) <==> covered(*unit_abilities, s.last().version));
            assert(players(s.drop_last()) + Seq::<String>::empty() =~= players(s.drop_last()));
            assert forall|n: String| occ(titles(s.drop_last()), n) <= vx_i4 by { lemma_occ(titles(s.drop_last()), n); }
            if details_of(s.last()) is Some { lemma_push(titles(s.drop_last()), (details_of(s.last())->0).title); let t = names(details_of(s.last())->0); assert(t.take(t.len() as int) =~= t); assert(t.take(0) =~= Seq::empty()); }
        }""",
           3: """proof {
            let a = players(init_data_files@.take(vx_i4 - 1)); let t = vx_v3@.take(vx_i3 as int);
            assert(a + vx_v3@.take(vx_i3 + 1) =~= (a + t).push(vx_v3@[vx_i3 as int]));
            lemma_push(a + t, vx_v3@[vx_i3 as int]);
            assert forall|n: String| occ(a + t, n) <= 1_000_001 * MANY() by { lemma_occ(a + t, n); }
        }"""},
       pre="""proof { assert forall|s: Seq<PathBuf>| (#[trigger] inits(s.take(s.len() as int))) == inits(s) by { assert(s.take(s.len() as int) =~= s); }
 assert forall|s: Seq<PathBuf>| (#[trigger] inits(s)).len() <= s.len() by { lemma_inits(s); }
    assert forall|s: Seq<InitData>| #[trigger] players(s.take(s.len() as int)) == players(s) by { assert(s.take(s.len() as int) =~= s); }
    assert forall|s: Seq<InitData>| #[trigger] titles(s.take(s.len() as int)) == titles(s) by { assert(s.take(s.len() as int) =~= s); }
    assert forall|s: Seq<InitData>| #[trigger] n_covered(s.take(s.len() as int), *unit_abilities) == n_covered(s, *unit_abilities) by { assert(s.take(s.len() as int) =~= s); }
    assert forall|s: Seq<(String, usize)>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
    assert forall|m: Map<String, usize>, s: Seq<String>, a: Seq<(String, usize)>, b: Seq<(String, usize)>| #![trigger counts(m, s), pairs(m, a), reordered(a, b)] counts(m, s) && pairs(m, a) && falling(b) && reordered(a, b)
        implies top(s, first(b, 10)) by { lemma_top(m, s, a, b); } }"""),
    Fn(F, "SC2ReplaysDirStats::from_directory", std="pipe", rettype="Result<Self, IoError>",
       spec="""    ensures match (included(), found(path(dir_path@), 1_000_000, 10)) {
        (Some(b), Some(p)) => res is Ok && told(res->Ok_0, p, b),
        _ => res is Err,
    },"""),
]


def units():
    return L.LIB, [Section(items=[(F, "SC2ReplaysDirStats")], spec=SPEC, fns=FNS)]
