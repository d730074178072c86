"""Contracts for C24: which rows are exported to which Arrow file."""
from .core import Fn, Section
from . import libfns as L

AM, AW = "arrow_store/mod.rs", "arrow_store/ipc_writer.rs"
# kind of rows, its row type, its file, the function collecting it
KINDS = [("Stats", "PlayerStatsFlatRow", "stats", "player_stats"), ("Upgrades", "UpgradeEventFlatRow", "upgrades", "upgrades"),
         ("UnitBorn", "UnitBornEventFlatRow", "unit_born", "unit_born"), ("UnitDied", "UnitDiedEventFlatRow", "unit_died", "unit_died"),
         ("CmdTargetPoint", "CmdTargetPointEventFlatRow", "cmd_target_point", "game_cmd_target_points"),
         ("CmdTargetUnit", "CmdTargetUnitEventFlatRow", "cmd_target_unit", "game_cmd_target_units")]
EXTRA = [("UserInitData", "UserInitDataFlatRow"), ("Details", "PlayerLobbyDetailsFlatRow")]
ROWS = EXTRA + [(k, t) for k, t, _, _ in KINDS]


def opaque(n):
    return f"#[verifier::external_body] pub struct {n} {{ x: u8 }}\n"


SPEC = """
verus! {
""" + "".join(opaque(n) for n in ["PathBuf", "IoError", "VersionedBalanceUnit", "SC2EventIterator", "PlayerLobbyDetails", "InitRest", "Fields"] + [t for _, t in ROWS]) + """
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
pub struct InitData { pub version: u32, pub rest: InitRest }
impl<K, V> HashMap<K, V> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for InitData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Fields { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn dir(p: PathBuf) -> bool;
pub uninterp spec fn inside(p: PathBuf, n: Seq<char>) -> PathBuf;
impl PathBuf {
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == dir(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, s: &str) -> (r: PathBuf) ensures r == inside(*self, s@) { unimplemented!() }
}
pub type Bal = HashMap<(u32, String), VersionedBalanceUnit>;
#[verifier::external_body]
pub fn vx_unreachable() -> (r: !) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
pub fn vx_append<T>(v: &mut Vec<T>, r: Vec<T>) ensures final(v)@ == old(v)@ + r@ { let mut r = r; v.append(&mut r); }
pub open spec fn first<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() <= n { s } else { s.take(n) } }
#[verifier::external_body]
pub fn vx_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == first(v@, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vx_u64(n: usize) -> (r: u64) ensures r == n { unimplemented!() }
pub trait VxFrom<A>: Sized { spec fn vx_from(a: A) -> Self; }
#[verifier::external_body] pub fn vx_into<A, B: VxFrom<A>>(a: A) -> (r: B) ensures r == B::vx_from(a) { unimplemented!() }
pub trait VxTry<A>: Sized { spec fn vx_tr(a: A) -> Option<Self>; spec fn vx_same(a: Self, b: Self) -> bool; }
#[verifier::external_body] pub fn vx_try_into<A, B: VxTry<A>>(a: A) -> (r: Result<B, IoError>)
    ensures match r { Ok(b) => B::vx_tr(a) is Some && B::vx_same(b, B::vx_tr(a)->0), Err(_) => B::vx_tr(a) is None } { unimplemented!() }
pub uninterp spec fn any_error() -> IoError;
impl VxFrom<&'static str> for IoError { open spec fn vx_from(a: &'static str) -> IoError { any_error() } }

// ---- columnar data: rows turned into arrays and batches
pub enum Rows { """ + ", ".join(f"{k}(Seq<{t}>)" for k, t in ROWS) + """ }
pub open spec fn count(r: Rows) -> nat { match r { """ + ", ".join(f"Rows::{k}(s) => s.len()" for k, _ in ROWS) + """ } }
pub uninterp spec fn convertible(r: Rows) -> bool;
pub struct ArrayRef { pub rows: Ghost<Rows> }
pub struct RecordBatch { pub rows: Ghost<Rows> }
pub struct VxAny { pub rows: Ghost<Rows> }
pub trait VxArray: Sized { spec fn vx_rows(&self) -> Rows; }
impl ArrayRef { #[verifier::external_body] pub fn as_any(&self) -> (r: &VxAny) ensures r.rows == self.rows { unimplemented!() } }
impl VxAny { #[verifier::external_body] pub fn downcast_ref<T: VxArray>(&self) -> (r: Option<&T>) ensures r is Some, (r->0).vx_rows() == self.rows@ { unimplemented!() } }
impl<'a> VxFrom<&'a arrow::array::StructArray> for RecordBatch { open spec fn vx_from(a: &'a arrow::array::StructArray) -> RecordBatch { RecordBatch { rows: a.rows } } }
pub trait TryIntoArrow: Sized { spec fn vx_all(&self) -> Rows; fn try_into_arrow(&self) -> (r: Result<ArrayRef, IoError>)
    ensures match r { Ok(a) => convertible(self.vx_all()) && a.rows@ == self.vx_all(), Err(_) => !convertible(self.vx_all()) }; }
""" + "".join(f"impl TryIntoArrow for Vec<{t}> {{ open spec fn vx_all(&self) -> Rows {{ Rows::{k}(self@) }} #[verifier::external_body] fn try_into_arrow(&self) -> (r: Result<ArrayRef, IoError>) {{ unimplemented!() }} }}\n" for k, t in ROWS) + """
pub enum DataType { Struct(Fields), Other }
pub struct Schema { pub fields: Fields }
impl Schema { pub fn new(fields: Fields) -> (r: Schema) ensures r == (Schema { fields }) { Schema { fields } } }
""" + "".join(f"pub uninterp spec fn f_{k}() -> Fields;\nimpl {t} {{ #[verifier::external_body] pub fn data_type() -> (r: DataType) ensures r == DataType::Struct(f_{k}()) {{ unimplemented!() }} }}\n" for k, t in ROWS) + """
/// The columns of an exported kind.
pub open spec fn columns(k: ArrowIpcTypes) -> Schema { Schema { fields: match k { """ + ", ".join(f"ArrowIpcTypes::{k} => f_{k}()" for k, _ in ROWS) + """, _ => f_Stats() } } }

// ---- an Arrow file being written, and the outside world
pub uninterp spec fn can_create(p: PathBuf) -> bool;
pub uninterp spec fn can_start(p: PathBuf, s: Schema) -> bool;
pub uninterp spec fn can_write(p: PathBuf, s: Schema, log: Seq<Rows>, r: Rows) -> bool;
pub uninterp spec fn can_finish(p: PathBuf, s: Schema, log: Seq<Rows>) -> bool;
/// A complete file with these columns and these batches was written at p.
pub uninterp spec fn wrote(p: PathBuf, s: Schema, log: Seq<Rows>) -> bool;
pub struct File { pub path: Ghost<PathBuf> }
pub struct FileWriter { pub path: Ghost<PathBuf>, pub schema: Ghost<Schema>, pub log: Ghost<Seq<Rows>> }
impl File {
    #[verifier::external_body] pub fn create(p: PathBuf) -> (r: Result<File, IoError>)
        ensures match r { Ok(f) => can_create(p) && f.path@ == p, Err(_) => !can_create(p) } { unimplemented!() }
}
impl FileWriter {
    #[verifier::external_body] pub fn try_new(f: File, s: &Schema) -> (r: Result<FileWriter, IoError>)
        ensures match r { Ok(w) => can_start(f.path@, *s) && w.path@ == f.path@ && w.schema@ == *s && w.log@ == Seq::<Rows>::empty(), Err(_) => !can_start(f.path@, *s) } { unimplemented!() }
    #[verifier::external_body] pub fn write(&mut self, b: &RecordBatch) -> (r: Result<(), IoError>)
        ensures final(self).path == old(self).path, final(self).schema == old(self).schema,
            match r { Ok(_) => can_write(old(self).path@, old(self).schema@, old(self).log@, b.rows@) && final(self).log@ == old(self).log@.push(b.rows@),
                Err(_) => !can_write(old(self).path@, old(self).schema@, old(self).log@, b.rows@) && final(self).log == old(self).log } { unimplemented!() }
    #[verifier::external_body] pub fn finish(&mut self) -> (r: Result<(), IoError>)
        ensures match r { Ok(_) => can_finish(old(self).path@, old(self).schema@, old(self).log@) && wrote(old(self).path@, old(self).schema@, old(self).log@),
            Err(_) => !can_finish(old(self).path@, old(self).schema@, old(self).log@) } { unimplemented!() }
}
/// A lock around the writer; whoever takes it owns the writer until it lets go.
pub struct Mutex { pub w: FileWriter }
impl Mutex {
    pub fn new(w: FileWriter) -> (r: Mutex) ensures r.w == w { Mutex { w } }
    #[verifier::external_body] pub fn lock(&mut self) -> (r: Result<&mut FileWriter, IoError>)
        ensures r is Ok, *(r->Ok_0) == old(self).w, *final(r->Ok_0) == final(self).w { unimplemented!() }
    /// fails when another worker holds it
    #[verifier::external_body] pub fn try_lock(&mut self) -> (r: Result<&mut FileWriter, IoError>)
        ensures match r { Ok(w) => *w == old(self).w && *final(w) == final(self).w, Err(_) => final(self).w == old(self).w } { unimplemented!() }
}

// ---- what is read, by the contracts of the other checks
pub uninterp spec fn opened(s: InitData, b: Bal) -> Option<SC2EventIterator>;
pub uninterp spec fn found(p: PathBuf, n: int, d: int) -> Option<Seq<PathBuf>>;
pub uninterp spec fn init_of(p: PathBuf, n: int) -> Option<InitData>;
pub uninterp spec fn joined(s: InitData) -> Option<Seq<PlayerLobbyDetails>>;
pub uninterp spec fn player_row(p: PlayerLobbyDetails) -> PlayerLobbyDetailsFlatRow;
#[verifier::external_body] pub fn get_matching_files(p: PathBuf, n: usize, d: usize) -> (r: Result<Vec<PathBuf>, IoError>)
    ensures match r { Ok(v) => found(p, n as int, d as int) == Some(v@), Err(_) => found(p, n as int, d as int) is None } { unimplemented!() }
impl InitData { #[verifier::external_body] pub fn try_from(a: (PathBuf, u64)) -> (r: Result<InitData, IoError>)
    ensures match r { Ok(i) => init_of(a.0, a.1 as int) == Some(i), Err(_) => init_of(a.0, a.1 as int) is None } { unimplemented!() } }
impl<'a> VxTry<&'a InitData> for Vec<PlayerLobbyDetails> {
    open spec fn vx_tr(a: &'a InitData) -> Option<Self> { match joined(*a) { Some(s) => Some(listed(s)), None => None } }
    open spec fn vx_same(a: Self, b: Self) -> bool { a@ == b@ } }
pub uninterp spec fn listed(s: Seq<PlayerLobbyDetails>) -> Vec<PlayerLobbyDetails>;
pub broadcast axiom fn ax_listed(s: Seq<PlayerLobbyDetails>) ensures (#[trigger] listed(s))@ == s;
impl VxFrom<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow { open spec fn vx_from(a: PlayerLobbyDetails) -> Self { player_row(a) } }
impl SC2EventIterator { #[verifier::external_body] pub fn new(s: &InitData, b: Bal) -> (r: Result<SC2EventIterator, IoError>)
    ensures match r { Ok(i) => opened(*s, b) == Some(i), Err(_) => opened(*s, b) is None } { unimplemented!() } }
""" + "".join(f"pub uninterp spec fn rows_{k}(i: SC2EventIterator) -> Seq<{t}>;\nimpl SC2EventIterator {{ #[verifier::external_body] pub fn collect_into_{c}_flat_rows(self) -> (r: Vec<{t}>) ensures r@ == rows_{k}(self) {{ unimplemented!() }} }}\n" for k, t, _, c in KINDS) + """
/// The rows of one kind of one replay.
pub open spec fn rows_by(k: ArrowIpcTypes, i: SC2EventIterator) -> Rows { match k { """ + ", ".join(f"ArrowIpcTypes::{k} => Rows::{k}(rows_{k}(i))" for k, _, _, _ in KINDS) + """, _ => Rows::Stats(Seq::empty()) } }
/// What one replay adds to a file: the batch of its rows, unless it cannot be read or has none.
pub open spec fn batch(k: ArrowIpcTypes, s: InitData, b: Bal) -> Option<Rows> {
    match opened(s, b) { None => None, Some(i) => if count(rows_by(k, i)) == 0 || !convertible(rows_by(k, i)) { None } else { Some(rows_by(k, i)) } }
}
pub open spec fn put(p: PathBuf, c: Schema, log: Seq<Rows>, b: Option<Rows>) -> Seq<Rows> {
    match b { Some(r) => if can_write(p, c, log, r) { log.push(r) } else { log }, None => log }
}
/// The batches of a file: one per replay that has rows.
pub open spec fn exported(k: ArrowIpcTypes, s: Seq<InitData>, b: Bal, p: PathBuf, c: Schema) -> Seq<Rows>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { put(p, c, exported(k, s.drop_last(), b, p, c), batch(k, s.last(), b)) }
}
pub open spec fn done(k: ArrowIpcTypes, s: Seq<InitData>, b: Bal, p: PathBuf) -> bool { wrote(p, columns(k), exported(k, s, b, p, columns(k))) }
pub open spec fn doable(k: ArrowIpcTypes, s: Seq<InitData>, b: Bal, p: PathBuf) -> bool {
    can_create(p) && can_start(p, columns(k)) && can_finish(p, columns(k), exported(k, s, b, p, columns(k)))
}
/// The rows of the joined players, replay by replay.
pub open spec fn players(s: Seq<PlayerLobbyDetails>) -> Seq<PlayerLobbyDetailsFlatRow> { Seq::new(s.len(), |i: int| player_row(s[i])) }
pub open spec fn all_players(s: Seq<InitData>) -> Seq<PlayerLobbyDetailsFlatRow>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match joined(s.last()) { Some(j) => all_players(s.drop_last()) + players(j), None => all_players(s.drop_last()) } }
}
pub open spec fn details_done(s: Seq<InitData>, p: PathBuf) -> bool { wrote(p, columns(ArrowIpcTypes::Details), seq![Rows::Details(all_players(s))]) }
pub open spec fn details_doable(s: Seq<InitData>, p: PathBuf) -> bool {
    let c = columns(ArrowIpcTypes::Details); let r = Rows::Details(all_players(s));
    convertible(r) && can_create(p) && can_start(p, c) && can_write(p, c, Seq::empty(), r) && can_finish(p, c, seq![r])
}
pub open spec fn snapshot(s: Seq<InitData>, b: Bal, o: PathBuf) -> bool {
    &&& details_done(s, inside(o, "details.arrow"@))
""" + "".join(f'    &&& done(ArrowIpcTypes::{k}, s, b, inside(o, "{f}.arrow"@))\n' for k, _, f, _ in KINDS) + """}
pub open spec fn snapshot_doable(s: Seq<InitData>, b: Bal, o: PathBuf) -> bool {
    &&& details_doable(s, inside(o, "details.arrow"@))
""" + "".join(f'    &&& doable(ArrowIpcTypes::{k}, s, b, inside(o, "{f}.arrow"@))\n' for k, _, f, _ in KINDS) + """}
/// The replays chosen: those whose lobby data can be read, numbered by where they were found, in the wanted versions, up to the limit.
pub open spec fn inits(p: Seq<PathBuf>) -> Seq<InitData>
    decreases p.len()
{
    if p.len() == 0 { Seq::empty() } else { match init_of(p.last(), p.len() - 1) { Some(i) => inits(p.drop_last()).push(i), None => inits(p.drop_last()) } }
}
pub open spec fn suits(c: WriteArrowIpcProps, i: InitData) -> bool {
    (match c.min_version { Some(v) => v <= i.version, None => true }) && (match c.max_version { Some(v) => i.version <= v, None => true })
}
pub open spec fn suited(c: WriteArrowIpcProps, s: Seq<InitData>) -> Seq<InitData>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if suits(c, s.last()) { suited(c, s.drop_last()).push(s.last()) } else { suited(c, s.drop_last()) }
}
pub open spec fn chosen(c: WriteArrowIpcProps, p: Seq<PathBuf>) -> Seq<InitData> { first(suited(c, inits(p)), c.process_max_files as int) }

/// A replay that cannot be read, or has no rows of the kind, changes nothing about the others.
pub proof fn c24_apart(k: ArrowIpcTypes, s: Seq<InitData>, i: int, b: Bal, p: PathBuf, c: Schema)
    requires 0 <= i < s.len(), batch(k, s[i], b) is None,
    ensures exported(k, s, b, p, c) == exported(k, s.remove(i), b, p, c),
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        assert(s.drop_last()[i] == s[i]);
        c24_apart(k, s.drop_last(), i, b, p, c);
        assert(s.remove(i).drop_last() =~= s.drop_last().remove(i));
        assert(s.remove(i).last() == s.last());
    }
}
/// Every batch of a file is the whole of one replay's rows of that kind.
pub proof fn c24_whole(k: ArrowIpcTypes, s: Seq<InitData>, b: Bal, p: PathBuf, c: Schema)
    ensures forall|j: int| 0 <= j < exported(k, s, b, p, c).len() ==> exists|i: int| 0 <= i < s.len() && batch(k, #[trigger] s[i], b) == Some(#[trigger] exported(k, s, b, p, c)[j]),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        c24_whole(k, t, b, p, c);
        assert forall|j: int| 0 <= j < exported(k, s, b, p, c).len() implies exists|i: int| 0 <= i < s.len() && batch(k, #[trigger] s[i], b) == Some(#[trigger] exported(k, s, b, p, c)[j]) by {
            if j < exported(k, t, b, p, c).len() {
                assert(exported(k, s, b, p, c)[j] == exported(k, t, b, p, c)[j]);
                let i = choose|i: int| 0 <= i < t.len() && batch(k, #[trigger] t[i], b) == Some(exported(k, t, b, p, c)[j]);
                assert(s[i] == t[i]);
            } else {
                assert(batch(k, s[s.len() - 1], b) == Some(exported(k, s, b, p, c)[j]));
            }
        }
    }
}
/// When every batch can be written, the file has one for each replay with rows: nothing is lost, nothing doubled.
pub open spec fn batches(k: ArrowIpcTypes, s: Seq<InitData>, b: Bal) -> Seq<Rows>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { match batch(k, s.last(), b) { Some(r) => batches(k, s.drop_last(), b).push(r), None => batches(k, s.drop_last(), b) } }
}
pub proof fn c24_complete(k: ArrowIpcTypes, s: Seq<InitData>, b: Bal, p: PathBuf, c: Schema)
    requires forall|l: Seq<Rows>, r: Rows| #[trigger] can_write(p, c, l, r),
    ensures exported(k, s, b, p, c) == batches(k, s, b),
    decreases s.len()
{
    if s.len() > 0 { c24_complete(k, s.drop_last(), b, p, c); }
}
/// Whatever order the workers finish in, a file holds the same batches.
pub open spec fn one_batch(o: Option<Rows>) -> vstd::multiset::Multiset<Rows> { match o { Some(r) => vstd::multiset::Multiset::singleton(r), None => vstd::multiset::Multiset::empty() } }
pub proof fn c24_pull(k: ArrowIpcTypes, s: Seq<InitData>, i: int, b: Bal)
    requires 0 <= i < s.len(),
    ensures batches(k, s, b).to_multiset() == batches(k, s.remove(i), b).to_multiset().add(one_batch(batch(k, s[i], b))),
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let t = s.drop_last();
    let last = one_batch(batch(k, s.last(), b));
    assert(batches(k, s, b).to_multiset() =~= batches(k, t, b).to_multiset().add(last));
    if i == s.len() - 1 {
        assert(s.remove(i) =~= t);
    } else {
        assert(t[i] == s[i]);
        c24_pull(k, t, i, b);
        let u = s.remove(i);
        assert(u.drop_last() =~= t.remove(i));
        assert(u.last() == s.last());
        assert(batches(k, u, b).to_multiset() =~= batches(k, t.remove(i), b).to_multiset().add(last));
        assert(batches(k, s, b).to_multiset() =~= batches(k, u, b).to_multiset().add(one_batch(batch(k, s[i], b))));
    }
}
pub proof fn c24_any_order(k: ArrowIpcTypes, s: Seq<InitData>, t: Seq<InitData>, b: Bal)
    requires s.to_multiset() == t.to_multiset(),
    ensures batches(k, s, b).to_multiset() == batches(k, t, b).to_multiset(),
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len() && t.len() == t.to_multiset().len());
    if s.len() == 0 {
        assert(s =~= t);
    } else {
        let x = s.last();
        assert(s.contains(x));
        assert(t.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
        assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x));
        assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x));
        c24_any_order(k, s.drop_last(), t.remove(i), b);
        c24_pull(k, t, i, b);
        c24_pull(k, s, s.len() - 1, b);
    }
}
}
pub mod arrow { pub mod array { use super::super::*; use vstd::prelude::*; verus! { pub struct StructArray { pub rows: Ghost<Rows> } impl VxArray for StructArray { open spec fn vx_rows(&self) -> Rows { self.rows@ } } } } }
pub mod init_data { pub use super::*; }
pub mod details { pub use super::*; }
pub mod tracker_events { pub use super::*; }
pub mod game_events { pub use super::*; }
"""
ERR = "Result<(), IoError>"
PATHS = [(r"std :: fs :: File\b", "File"), (r"std :: sync :: Mutex\b", "Mutex")]
KIND = {"handle_tracker_events": KINDS[:4], "handle_game_events": KINDS[4:]}
UN64 = [(r"u64 :: try_from \((\w+) \)\. unwrap \(\)", r"vx_u64(\1)")]


def handler(name):
    inv = """        invariant
            {i} <= {n}, {n} == {v}@.len(), {v}@ == sources@, {k}, writer.w.path@ == output, writer.w.schema@ == columns(*self),
            writer.w.log@ == exported(*self, sources@.take({i} as int), *versioned_abilities, output, columns(*self)),
        decreases {n} - {i},"""
    kinds = " || ".join(f"self is {k}" for k, *_ in KIND[name])
    def at(j):
        return inv.format(i=f"vx_i{j}", n=f"vx_n{j}", v=f"vx_v{j}", k=f"({kinds})")
    def ls(j):
        return f"""proof {{
            let s = sources@.take(vx_i{j} + 1);
            assert(s.drop_last() =~= sources@.take(vx_i{j} as int)); assert(s.last() == sources@[vx_i{j} as int]);
        }}"""
    return Fn(AM, "ArrowIpcTypes::" + name, std="pipe", rettype=ERR, attrs="#[verifier::loop_isolation(false)]\n",
              spec=f"""    requires {kinds},
    ensures match res {{ Ok(_) => done(*self, sources@, *versioned_abilities, output), Err(_) => !doable(*self, sources@, *versioned_abilities, output) }},""",
              inv={0: at(0), 1: at(1)}, ls={0: ls(0), 1: ls(1)},
              pre="proof { assert(sources@.take(sources@.len() as int) =~= sources@); assert(sources@.take(0) =~= Seq::empty()); }",
              subst=[(r"let (\w+) = open_arrow_mutex_writer", r"let mut \1 = open_arrow_mutex_writer"), (r"write_to_arrow_mutex_writer \(& (\w+)", r"write_to_arrow_mutex_writer (&mut \1")])


def details(name):
    return Fn(AM, "ArrowIpcTypes::" + name, std="pipe", rettype=ERR, attrs="#[verifier::loop_isolation(false)]\n",
              spec="""    ensures match res { Ok(_) => details_done(sources@, output), Err(_) => !details_doable(sources@, output) },""",
              inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), joined(*source) == Some(vx_v0@), vx_out@ =~= players(vx_v0@.take(vx_i0 as int)),
        decreases vx_n0 - vx_i0,""", 1: """        invariant
            vx_i1 <= vx_n1, vx_n1 == vx_v1@.len(), vx_v1@ == sources@, vx_out@ == all_players(sources@.take(vx_i1 as int)),
        decreases vx_n1 - vx_i1,"""},
              ls={1: """broadcast use ax_listed;
        proof {
            let s = sources@.take(vx_i1 + 1);
            assert(s.drop_last() =~= sources@.take(vx_i1 as int)); assert(s.last() == sources@[vx_i1 as int]);
            if joined(s.last()) is Some { let j = joined(s.last())->0; assert(j.take(j.len() as int) =~= j); }
        }"""},
              pre="""broadcast use ax_listed; proof { assert(sources@.take(sources@.len() as int) =~= sources@); assert(sources@.take(0) =~= Seq::empty());
            assert(Seq::<Rows>::empty().push(Rows::Details(all_players(sources@))) =~= seq![Rows::Details(all_players(sources@))]); }""")


FNS = [
    Fn(AM, "ArrowIpcTypes::schema", std="pipe", spec="    requires !(self is MessageEvents), !(self is All),\n    ensures res == columns(*self),"),
    handler("handle_tracker_events"), handler("handle_game_events"), details("handle_details_ipc_cmd"), details("handle_read_once_write_all"),
    Fn(AM, "ArrowIpcTypes::handle_write_snapshot", std="pipe", rettype=ERR,
       spec="""    requires dir(output),
    ensures match res { Ok(_) => snapshot(sources@, *unit_abilities, output), Err(_) => !snapshot_doable(sources@, *unit_abilities, output) },"""),
    Fn(AM, "ArrowIpcTypes::handle_arrow_ipc_cmd", std="pipe", rettype=ERR, attrs="#[verifier::loop_isolation(false)]\n", subst=UN64,
       spec="""    requires
        dir(output),
        found(source, cmd.scan_max_files as int, cmd.traverse_max_depth as int) is Some ==> chosen(*cmd, found(source, cmd.scan_max_files as int, cmd.traverse_max_depth as int)->0).len() > 0,
    ensures match found(source, cmd.scan_max_files as int, cmd.traverse_max_depth as int) {
        None => res is Err,
        Some(p) => match res { Ok(_) => snapshot(chosen(*cmd, p), *unit_abilities, output), Err(_) => !snapshot_doable(chosen(*cmd, p), *unit_abilities, output) },
    },""",
       inv={**{j: f"""        invariant
            vx_i{j} <= vx_n{j}, vx_n{j} == vx_v{j}@.len(), vx_k == vx_i{j}, vx_out@ == inits(vx_v{j}@.take(vx_i{j} as int)),
        decreases vx_n{j} - vx_i{j},""" for j in (0, 1)}, 2: """        invariant
            vx_i2 <= vx_n2, vx_n2 == vx_v2@.len(), vx_out@ == suited(*cmd, vx_v2@.take(vx_i2 as int)),
        decreases vx_n2 - vx_i2,"""},
       ls={j: f"""proof {{
            let s = vx_v{j}@.take(vx_i{j} + 1);
            assert(s.drop_last() =~= vx_v{j}@.take(vx_i{j} as int)); assert(s.last() == vx_v{j}@[vx_i{j} as int]); assert(vx_v{j}@.take(vx_n{j} as int) =~= vx_v{j}@);
        }}""" for j in (0, 1, 2)},
       pre="proof { assert forall|s: Seq<PathBuf>| (#[trigger] inits(s.take(s.len() as int))) == inits(s) by { assert(s.take(s.len() as int) =~= s); }\n assert forall|s: Seq<InitData>| (#[trigger] suited(*cmd, s.take(s.len() as int))) == suited(*cmd, s) by { assert(s.take(s.len() as int) =~= s); } }"),
]
WRITER = [
    Fn(AW, "write_batches", std="pipe", free=True, rettype=ERR, subst=PATHS,
       spec="""    ensures match res {
        Ok(_) => wrote(path, schema, seq![chunk.rows@]),
        Err(_) => !(can_create(path) && can_start(path, schema) && can_write(path, schema, Seq::empty(), chunk.rows@) && can_finish(path, schema, seq![chunk.rows@])),
    },""", pre="proof { assert(Seq::<Rows>::empty().push(chunk.rows@) =~= seq![chunk.rows@]); }"),
    Fn(AW, "open_arrow_mutex_writer", std="pipe", free=True, rettype="Result<Mutex, IoError>", subst=PATHS,
       spec="""    ensures match res {
        Ok(m) => can_create(output) && can_start(output, schema) && m.w.path@ == output && m.w.schema@ == schema && m.w.log@ == Seq::<Rows>::empty(),
        Err(_) => !(can_create(output) && can_start(output, schema)),
    },"""),
    Fn(AW, "write_to_arrow_mutex_writer", std="pipe", free=True, params="writer: &mut Mutex, res: ArrayRef, batch_length: usize", ret="got",
       spec="""    requires batch_length == count(res.rows@),
    ensures final(writer).w.path == old(writer).w.path, final(writer).w.schema == old(writer).w.schema,
        final(writer).w.log@ == put(old(writer).w.path@, old(writer).w.schema@, old(writer).w.log@, if batch_length == 0 { None } else { Some(res.rows@) }),
        match got { Some(n) => n == batch_length, None => final(writer).w.log@ == old(writer).w.log@ },"""),
    Fn(AW, "close_arrow_mutex_writer", std="pipe", free=True, params="writer: Mutex", rettype=ERR,
       spec="""    ensures match res {
        Ok(_) => wrote(writer.w.path@, writer.w.schema@, writer.w.log@),
        Err(_) => !can_finish(writer.w.path@, writer.w.schema@, writer.w.log@),
    },""", pre="let mut vx_w = writer;", subst=[(r"writer \. (try_)?lock \(\)", r"vx_w . \1lock ()")]),
]


def units():
    return L.LIB, [Section(items=[(AM, "ArrowIpcTypes"), (AM, "WriteArrowIpcProps")], spec=SPEC, fns=WRITER + FNS)]
