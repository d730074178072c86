"""Contracts for C23: listing the replay files below a directory."""
from .core import Fn, Section
from . import libfns as L, mapdoc

LIBRS = "lib.rs"
SPEC = """
verus! {
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct DirEntry { x: u8 }
#[verifier::external_body] pub struct OsStr { x: u8 }
#[verifier::external_body] pub struct IoError { x: u8 }
/// The directory tree, which does not change during a listing.
pub uninterp spec fn dir(p: PathBuf) -> bool;
pub uninterp spec fn file(p: PathBuf) -> bool;
pub uninterp spec fn ext(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn os_text(s: OsStr) -> Seq<char>;
/// What reading a directory yields, entry by entry; none if it cannot be opened.
pub uninterp spec fn entries(p: PathBuf) -> Option<Seq<Result<DirEntry, IoError>>>;
pub uninterp spec fn path_of(e: DirEntry) -> PathBuf;
impl VxText for OsStr { open spec fn vx_text(&self) -> Seq<char> { os_text(*self) } }
impl PathBuf {
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == dir(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == file(*self) { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(e) => ext(*self) == Some(os_text(*e)), None => ext(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
impl DirEntry {
    #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r == path_of(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_read_dir(p: &PathBuf) -> (r: Result<Vec<Result<DirEntry, IoError>>, IoError>)
    ensures match r { Ok(v) => entries(*p) == Some(v@), Err(_) => entries(*p) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }

/// A replay file: a regular file with that extension.
pub open spec fn replay(p: PathBuf) -> bool { file(p) && ext(p) == Some("SC2Replay"@) }
/// Every replay file at most d levels below p, in listing order.
pub open spec fn below(p: PathBuf, d: nat) -> Seq<PathBuf>
    decreases d, 2nat, 0nat
{
    if d == 0 || !dir(p) || entries(p) is None { Seq::empty() } else { within(entries(p)->0, d) }
}
pub open spec fn within(es: Seq<Result<DirEntry, IoError>>, d: nat) -> Seq<PathBuf>
    decreases d, 1nat, es.len()
{
    if d == 0 || es.len() == 0 { Seq::empty() } else { within(es.drop_last(), d) + one(es.last(), d) }
}
pub open spec fn one(e: Result<DirEntry, IoError>, d: nat) -> Seq<PathBuf>
    decreases d, 0nat, 0nat
{
    if d == 0 { Seq::empty() } else {
        match e {
            Err(_) => Seq::empty(),
            Ok(x) => if dir(path_of(x)) { below(path_of(x), (d - 1) as nat) }
                else if replay(path_of(x)) { seq![path_of(x)] } else { Seq::empty() },
        }
    }
}
/// Something within reach cannot be read.
pub open spec fn broken(p: PathBuf, d: nat) -> bool
    decreases d, 1nat
{
    d > 0 && dir(p) && (entries(p) is None || exists|i: int| 0 <= i < (entries(p)->0).len() && spoiled(#[trigger] (entries(p)->0)[i], d))
}
pub open spec fn spoiled(e: Result<DirEntry, IoError>, d: nat) -> bool
    decreases d, 0nat
{
    d > 0 && match e { Err(_) => true, Ok(x) => broken(path_of(x), (d - 1) as nat) }
}
pub open spec fn first(s: Seq<PathBuf>, n: int) -> Seq<PathBuf> { if s.len() <= n { s } else { s.take(n) } }
pub proof fn within_grows(es: Seq<Result<DirEntry, IoError>>, d: nat, i: int, n: int)
    requires d > 0, 0 <= i <= n <= es.len(),
    ensures exists|t: Seq<PathBuf>| within(es.take(n), d) == within(es.take(i), d) + t,
    decreases n - i
{
    if i == n {
        assert(within(es.take(n), d) =~= within(es.take(i), d) + Seq::empty());
    } else {
        within_grows(es, d, i, n - 1);
        let t = choose|t: Seq<PathBuf>| within(es.take(n - 1), d) == within(es.take(i), d) + t;
        assert(es.take(n).drop_last() =~= es.take(n - 1));
        assert(within(es.take(n), d) =~= within(es.take(i), d) + (t + one(es[n - 1], d)));
    }
}
pub proof fn broken_at(p: PathBuf, i: int, d: nat)
    requires d > 0, dir(p), entries(p) is Some, 0 <= i < (entries(p)->0).len(), spoiled((entries(p)->0)[i], d),
    ensures broken(p, d),
{
    let e = (entries(p)->0)[i];
    assert(spoiled((entries(p)->0)[i], d));
}
/// Once the limit is reached nothing further changes the answer.
pub proof fn first_stays(es: Seq<Result<DirEntry, IoError>>, d: nat, i: int, n: int)
    requires d > 0, 0 <= i <= es.len(), 0 <= n,
    ensures first(within(es.take(i), d), n).len() == n ==> first(within(es, d), n) == first(within(es.take(i), d), n),
{
    within_grows(es, d, i, es.len() as int);
    assert(es.take(es.len() as int) =~= es);
    let a = within(es.take(i), d);
    let t = choose|t: Seq<PathBuf>| within(es, d) == a + t;
    if first(a, n).len() == n { assert(first(a + t, n) =~= first(a, n)); }
}
/// Only replay files are ever found.
pub proof fn c23_replays(p: PathBuf, d: nat)
    ensures forall|i: int| 0 <= i < below(p, d).len() ==> replay(#[trigger] below(p, d)[i]),
    decreases d, 2nat, 0nat
{
    if d > 0 && dir(p) && entries(p) is Some {
        c23_within(entries(p)->0, d);
        assert(below(p, d) == within(entries(p)->0, d));
    } else {
        assert(below(p, d) == Seq::<PathBuf>::empty());
    }
}
pub proof fn c23_within(es: Seq<Result<DirEntry, IoError>>, d: nat)
    ensures forall|i: int| 0 <= i < within(es, d).len() ==> replay(#[trigger] within(es, d)[i]),
    decreases d, 1nat, es.len()
{
    if d > 0 && es.len() > 0 {
        let (a, b) = (within(es.drop_last(), d), one(es.last(), d));
        c23_within(es.drop_last(), d);
        match es.last() {
            Err(_) => { assert(b == Seq::<PathBuf>::empty()); }
            Ok(x) => {
                c23_replays(path_of(x), (d - 1) as nat);
                if dir(path_of(x)) { assert(b == below(path_of(x), (d - 1) as nat)); }
            }
        }
        assert(within(es, d) == a + b);
        assert forall|i: int| 0 <= i < within(es, d).len() implies replay(#[trigger] within(es, d)[i]) by {
            if i < a.len() { assert(within(es, d)[i] == a[i]); } else { assert(within(es, d)[i] == b[i - a.len()]); }
        }
    } else {
        assert(within(es, d) == Seq::<PathBuf>::empty());
    }
}
/// A smaller file limit gives a prefix of what a larger one gives.
pub proof fn c23_limits(s: Seq<PathBuf>, m: int, n: int)
    requires 0 <= m <= n,
    ensures first(s, m) == first(first(s, n), m), first(s, n).len() <= n,
{
    assert(first(s, m) =~= first(first(s, n), m));
}
}
"""
FNS = [
    Fn(LIBRS, "get_matching_files", std=True, rettype="Result<Vec<PathBuf>, IoError>", free=True, attrs="#[verifier::loop_isolation(false)]\n",
       spec="""    ensures match res {
        Ok(v) => v@ == first(below(source, max_depth as nat), max_files as int),
        Err(_) => broken(source, max_depth as nat),
    },
    decreases max_depth,""",
       inv={0: """        invariant
            max_depth > 0, dir(source), entries(source) == Some(vx_v0@), vx_n0 == vx_v0@.len(), 0 <= vx_i0 <= vx_n0,
            sources@ == first(within(vx_v0@.take(vx_i0 as int), max_depth as nat), max_files as int),
            sources@.len() <= max_files,
        decreases vx_n0 - vx_i0,"""},
       ls={0: """let ghost k = vx_i0 as int; let ghost d = max_depth as nat;
        proof {
            assert(vx_v0@.take(k + 1).drop_last() =~= vx_v0@.take(k));
            assert(vx_v0@.take(k + 1).last() == vx_v0@[k]);
            assert(within(vx_v0@.take(k + 1), d) == within(vx_v0@.take(k), d) + one(vx_v0@[k], d));
            first_stays(vx_v0@, d, k, max_files as int);
            assert(vx_v0@.take(vx_n0 as int) =~= vx_v0@);
            if spoiled(vx_v0@[k], d) { broken_at(source, k, d); }
        }"""},
       pre="""proof {
        if entries(source) is Some {
            let es = entries(source)->0;
            assert(es.take(es.len() as int) =~= es && es.take(0) =~= Seq::empty());
            if max_depth > 0 { first_stays(es, max_depth as nat, es.len() as int, max_files as int); }
        }
    }"""),
]


def units():
    return L.LIB + mapdoc.TEXT, [Section(spec=SPEC, fns=FNS)]
