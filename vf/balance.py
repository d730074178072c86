"""Contracts for C31: reading and writing the balance data of the units."""
from .core import Fn, Section
from . import libfns as L, mapdoc

D = "game_events/ability/balance_data/"
J, M = D + "json_handler.rs", D + "mod.rs"


def opaque(n):
    return f"#[verifier::external_body] pub struct {n} {{ x: u8 }}\n"


SPEC = """
verus! {
""" + "".join(opaque(n) for n in ["PathBuf", "DirEntry", "OsString", "OsStr", "Text", "FileType", "IoError", "UnitRest", "File", "Json", "IncludedDir", "NamedArchive", "Disk"]) + """
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
pub struct VersionedBalanceUnit { pub id: String, pub rest: UnitRest }
pub type Key = (u32, String);
pub type Bal = HashMap<Key, VersionedBalanceUnit>;
pub type Units = Map<Key, VersionedBalanceUnit>;
pub type Listing = Seq<Result<DirEntry, IoError>>;

// ---- texts
pub broadcast axiom fn ax_string(a: String, b: String) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub uninterp spec fn string(s: Seq<char>) -> String;
pub broadcast axiom fn ax_made(s: Seq<char>) ensures (#[trigger] string(s))@ == s;
/// The number a text spells, if it fits 32 bits.
pub uninterp spec fn number(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn trimmed(s: Seq<char>, end: Seq<char>) -> Seq<char>;
pub uninterp spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub uninterp spec fn lossy(s: OsString) -> Seq<char>;
pub uninterp spec fn utf8(s: OsStr) -> Option<Seq<char>>;
pub uninterp spec fn os_text(s: OsStr) -> Seq<char>;
pub uninterp spec fn text_of(s: Text) -> Seq<char>;
impl VxText for OsStr { open spec fn vx_text(&self) -> Seq<char> { os_text(*self) } }
impl VxText for Text { open spec fn vx_text(&self) -> Seq<char> { text_of(*self) } }
pub trait VxParse: VxText { fn vx_parse(&self) -> (r: Result<u32, IoError>)
    ensures match r { Ok(v) => number(self.vx_text()) == Some(v), Err(_) => number(self.vx_text()) is None }; }
impl VxParse for String { #[verifier::external_body] fn vx_parse(&self) -> (r: Result<u32, IoError>) { unimplemented!() } }
impl VxParse for str { #[verifier::external_body] fn vx_parse(&self) -> (r: Result<u32, IoError>) { unimplemented!() } }
impl VxParse for Text { #[verifier::external_body] fn vx_parse(&self) -> (r: Result<u32, IoError>) { unimplemented!() } }
pub trait VxTrim: VxText { fn vx_trim_end<'a>(&'a self, end: &str) -> (r: &'a str) ensures r@ == trimmed(self.vx_text(), end@); }
impl VxTrim for String { #[verifier::external_body] fn vx_trim_end<'a>(&'a self, end: &str) -> (r: &'a str) { unimplemented!() } }
impl VxTrim for str { #[verifier::external_body] fn vx_trim_end<'a>(&'a self, end: &str) -> (r: &'a str) { unimplemented!() } }
impl VxTrim for Text { #[verifier::external_body] fn vx_trim_end<'a>(&'a self, end: &str) -> (r: &'a str) { unimplemented!() } }
impl OsString { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: Text) ensures text_of(r) == lossy(*self) { unimplemented!() } }
impl Text {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == text_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == text_of(self) { unimplemented!() }
}
impl OsStr { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => utf8(*self) == Some(s@), None => utf8(*self) is None } { unimplemented!() } }
#[verifier::external_body]
pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, c)[i] { unimplemented!() }
#[verifier::external_body]
pub fn vx_ok<T, E>(r: Result<T, E>) -> (o: Option<T>) ensures match o { Some(t) => r == Ok::<T, E>(t), None => r is Err } { unimplemented!() }

// ---- the directory tree, which does not change while it is read
pub uninterp spec fn dir(p: PathBuf) -> bool;
pub uninterp spec fn file(p: PathBuf) -> bool;
pub uninterp spec fn ext(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn last_part(p: PathBuf) -> Option<OsStr>;
pub uninterp spec fn join(p: PathBuf, s: Seq<char>) -> PathBuf;
pub uninterp spec fn parent(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn entries(p: PathBuf) -> Option<Listing>;
pub uninterp spec fn path_of(e: DirEntry) -> PathBuf;
pub uninterp spec fn name_of(e: DirEntry) -> OsString;
pub uninterp spec fn type_of(e: DirEntry) -> Option<FileType>;
pub uninterp spec fn t_dir(t: FileType) -> bool;
pub uninterp spec fn t_file(t: FileType) -> bool;
pub uninterp spec fn contents(p: PathBuf) -> Option<Seq<u8>>;
pub uninterp spec fn text_file(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn json_unit(b: Seq<u8>) -> Option<VersionedBalanceUnit>;
pub uninterp spec fn xml_unit(s: Seq<char>) -> Option<VersionedBalanceUnit>;
impl PathBuf {
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == dir(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == file(*self) { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(e) => ext(*self) == Some(os_text(*e)), None => ext(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(e) => last_part(*self) == Some(*e), None => last_part(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn join<T: VxText>(&self, s: T) -> (r: PathBuf) ensures r == join(*self, s.vx_text()) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>)
        ensures match r { Some(p) => parent(*self) == Some(*p), None => parent(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    pub fn as_ref(&self) -> (r: &PathBuf) ensures r == self { self }
}
pub trait VxPath { spec fn vx_path(&self) -> PathBuf; }
impl VxPath for PathBuf { open spec fn vx_path(&self) -> PathBuf { *self } }
impl<T: VxPath> VxPath for &T { open spec fn vx_path(&self) -> PathBuf { (**self).vx_path() } }
impl DirEntry {
    #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r == path_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: OsString) ensures r == name_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn file_type(&self) -> (r: Result<FileType, IoError>)
        ensures match r { Ok(t) => type_of(*self) == Some(t), Err(_) => type_of(*self) is None } { unimplemented!() }
}
impl FileType {
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == t_dir(*self) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == t_file(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_read_dir(p: &PathBuf) -> (r: Result<Vec<Result<DirEntry, IoError>>, IoError>)
    ensures match r { Ok(v) => entries(*p) == Some(v@), Err(_) => entries(*p) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int] { unimplemented!() }
/// An open file: what it holds, and its path.
pub uninterp spec fn opened(f: File) -> Seq<u8>;
pub uninterp spec fn file_path(f: File) -> PathBuf;
#[verifier::external_body] pub fn vx_open<P: VxPath>(p: P) -> (r: Result<File, IoError>)
    ensures match r { Ok(f) => contents(p.vx_path()) == Some(opened(f)), Err(_) => contents(p.vx_path()) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_read_file<P: VxPath>(p: P) -> (r: Result<Vec<u8>, IoError>)
    ensures match r { Ok(v) => contents(p.vx_path()) == Some(v@), Err(_) => contents(p.vx_path()) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_read_text<P: VxPath>(p: P) -> (r: Result<String, IoError>)
    ensures match r { Ok(s) => text_file(p.vx_path()) == Some(s@), Err(_) => text_file(p.vx_path()) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_json_file(f: File) -> (r: Result<VersionedBalanceUnit, IoError>)
    ensures match r { Ok(u) => json_unit(opened(f)) == Some(u), Err(_) => json_unit(opened(f)) is None } { unimplemented!() }
pub trait VxBytes { spec fn vx_bytes(&self) -> Seq<u8>; }
impl VxBytes for Vec<u8> { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
impl VxBytes for [u8] { open spec fn vx_bytes(&self) -> Seq<u8> { self@ } }
impl<T: VxBytes + ?Sized> VxBytes for &T { open spec fn vx_bytes(&self) -> Seq<u8> { (**self).vx_bytes() } }
#[verifier::external_body] pub fn vx_json_bytes<B: VxBytes>(b: B) -> (r: Result<VersionedBalanceUnit, IoError>)
    ensures match r { Ok(u) => json_unit(b.vx_bytes()) == Some(u), Err(_) => json_unit(b.vx_bytes()) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_xml_text(s: &String) -> (r: Result<VersionedBalanceUnit, IoError>)
    ensures match r { Ok(u) => xml_unit(s@) == Some(u), Err(_) => xml_unit(s@) is None } { unimplemented!() }

// ---- what is packed into the library
pub uninterp spec fn packed(dir: Seq<char>) -> Seq<(&'static str, &'static [u8])>;
pub uninterp spec fn dir_of(d: IncludedDir) -> Seq<char>;
pub uninterp spec fn archived(a: NamedArchive) -> Seq<(&'static str, &'static [u8])>;
#[verifier::external_body] pub fn vx_included(d: &str) -> (r: IncludedDir) ensures dir_of(r) == d@ { unimplemented!() }
impl NamedArchive {
    #[verifier::external_body] pub fn load(d: IncludedDir) -> (r: NamedArchive) ensures archived(r) == packed(dir_of(d)) { unimplemented!() }
    #[verifier::external_body] pub fn assets(&self) -> (r: Vec<(&'static str, &'static [u8])>) ensures r@ == archived(*self) { unimplemented!() }
}

// ---- maps
pub uninterp spec fn held<K, V>(m: HashMap<K, V>) -> Map<K, V>;
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { held(*self) } }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
/// Each entry of the map once, in some order.
pub open spec fn pairs<K, V>(m: Map<K, V>, r: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0) && m[r[i].0] == r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k
}
#[verifier::external_body]
pub fn vx_entries<K, V>(m: &HashMap<K, V>) -> (r: Vec<(K, V)>) ensures pairs(m@, r@) { unimplemented!() }

// ---- writing
/// Which directories the disk has and what its JSON files hold.
pub uninterp spec fn dirs(d: Disk) -> Set<PathBuf>;
pub uninterp spec fn files(d: Disk) -> Map<PathBuf, Option<Json>>;
pub uninterp spec fn json_of(u: VersionedBalanceUnit) -> Json;
pub uninterp spec fn makeable(p: PathBuf) -> bool;
pub uninterp spec fn creatable(p: PathBuf) -> bool;
pub uninterp spec fn room(p: PathBuf) -> bool;
pub trait VxUnit { spec fn vx_unit(&self) -> Json; }
impl VxUnit for VersionedBalanceUnit { open spec fn vx_unit(&self) -> Json { json_of(*self) } }
impl VxUnit for Json { open spec fn vx_unit(&self) -> Json { *self } }
impl<T: VxUnit> VxUnit for &T { open spec fn vx_unit(&self) -> Json { (**self).vx_unit() } }
#[verifier::external_body] pub fn vx_json<U: VxUnit>(u: U) -> (r: Json) ensures r == u.vx_unit() { unimplemented!() }
pub fn vx_buf(f: File) -> (r: File) ensures r == f { f }
#[verifier::external_body] pub fn vx_make_dirs<P: VxPath>(vx_disk: &mut Disk, p: P) -> (r: Result<(), IoError>)
    ensures r is Ok <==> makeable(p.vx_path()), files(*final(vx_disk)) == files(*old(vx_disk)),
        r is Ok ==> dirs(*final(vx_disk)).contains(p.vx_path()) { unimplemented!() }
#[verifier::external_body] pub fn vx_create<P: VxPath>(vx_disk: &mut Disk, p: P) -> (r: Result<File, IoError>)
    requires parent(p.vx_path()) is Some ==> dirs(*old(vx_disk)).contains(parent(p.vx_path())->0),
    ensures match r {
        Ok(f) => creatable(p.vx_path()) && file_path(f) == p.vx_path() && files(*final(vx_disk)) == files(*old(vx_disk)).insert(p.vx_path(), None),
        Err(_) => !creatable(p.vx_path()) && files(*final(vx_disk)) == files(*old(vx_disk)),
    } { unimplemented!() }
#[verifier::external_body] pub fn vx_write_json<U: VxUnit>(vx_disk: &mut Disk, f: File, j: U) -> (r: Result<(), IoError>)
    ensures r is Ok <==> room(file_path(f)), r is Ok ==> files(*final(vx_disk)) == files(*old(vx_disk)).insert(file_path(f), Some(j.vx_unit())) { unimplemented!() }
pub fn vx_create_json<P: VxPath, U: VxUnit>(vx_disk: &mut Disk, p: P, j: U) -> (r: Result<(), IoError>)
    requires parent(p.vx_path()) is Some ==> dirs(*old(vx_disk)).contains(parent(p.vx_path())->0),
    ensures r is Ok <==> creatable(p.vx_path()) && room(p.vx_path()), r is Ok ==> files(*final(vx_disk)) == files(*old(vx_disk)).insert(p.vx_path(), Some(j.vx_unit())),
{
    match vx_create(vx_disk, p) {
        Ok(f) => { let r = vx_write_json(vx_disk, f, j); proof { if r is Ok { assert(files(*vx_disk) =~= files(*old(vx_disk)).insert(p.vx_path(), Some(j.vx_unit()))); } } r }
        Err(e) => Err(e),
    }
}
pub uninterp spec fn fmt_json(v: Seq<char>, n: Seq<char>) -> Seq<char>;
pub uninterp spec fn digits(v: u32) -> Seq<char>;
pub trait VxStr { spec fn vx_chars(&self) -> Seq<char>; }
impl VxStr for u32 { open spec fn vx_chars(&self) -> Seq<char> { digits(*self) } }
impl VxStr for String { open spec fn vx_chars(&self) -> Seq<char> { self@ } }
impl<T: VxStr> VxStr for &T { open spec fn vx_chars(&self) -> Seq<char> { (**self).vx_chars() } }
#[verifier::external_body] pub fn vx_str<T: VxStr>(t: &T) -> (r: String) ensures r@ == t.vx_chars() { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt__7b_7d_2f_7b_7d_2ejson(a: String, b: String) -> (r: String) ensures r@ == fmt_json(a@, b@) { unimplemented!() }

/// Where a unit goes: the version's directory, the unit's name.
pub open spec fn place(root: PathBuf, k: Key) -> PathBuf { join(root, fmt_json(digits(k.0), k.1@)) }
pub open spec fn writable(p: PathBuf) -> bool { (parent(p) is Some ==> makeable(parent(p)->0)) && creatable(p) && room(p) }
pub open spec fn put_all(m: Map<PathBuf, Option<Json>>, root: PathBuf, es: Seq<(Key, VersionedBalanceUnit)>) -> Map<PathBuf, Option<Json>>
    decreases es.len()
{
    if es.len() == 0 { m } else { put_all(m, root, es.drop_last()).insert(place(root, es.last().0), Some(json_of(es.last().1))) }
}
pub open spec fn elsewhere(root: PathBuf, es: Seq<(Key, VersionedBalanceUnit)>, p: PathBuf) -> bool { forall|i: int| 0 <= i < es.len() ==> place(root, (#[trigger] es[i]).0) != p }
pub proof fn untouched(m: Map<PathBuf, Option<Json>>, root: PathBuf, es: Seq<(Key, VersionedBalanceUnit)>, p: PathBuf)
    requires elsewhere(root, es, p),
    ensures put_all(m, root, es).dom().contains(p) == m.dom().contains(p), put_all(m, root, es)[p] == m[p],
    decreases es.len()
{
    if es.len() > 0 {
        let a = es.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies place(root, (#[trigger] a[i]).0) != p by { assert(a[i] == es[i]); }
        untouched(m, root, a, p);
        assert(place(root, es[es.len() - 1].0) != p);
    }
}
pub proof fn put_at(m: Map<PathBuf, Option<Json>>, root: PathBuf, es: Seq<(Key, VersionedBalanceUnit)>, i: int)
    requires 0 <= i < es.len(), forall|i: int, j: int| 0 <= i < j < es.len() ==> place(root, (#[trigger] es[i]).0) != place(root, (#[trigger] es[j]).0),
    ensures put_all(m, root, es).dom().contains(place(root, es[i].0)), put_all(m, root, es)[place(root, es[i].0)] == Some(json_of(es[i].1)),
    decreases es.len()
{
    let a = es.drop_last();
    if i < a.len() {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies place(root, (#[trigger] a[i]).0) != place(root, (#[trigger] a[j]).0) by { assert(a[i] == es[i] && a[j] == es[j]); }
        put_at(m, root, a, i);
        assert(a[i] == es[i]);
        assert(place(root, es[i].0) != place(root, es[es.len() - 1].0));
    }
}
/// Every unit is at its place and every other file is as it was.
pub proof fn c31_written(m: Map<PathBuf, Option<Json>>, root: PathBuf, es: Seq<(Key, VersionedBalanceUnit)>)
    requires forall|i: int, j: int| 0 <= i < j < es.len() ==> place(root, (#[trigger] es[i]).0) != place(root, (#[trigger] es[j]).0),
    ensures
        forall|i: int| 0 <= i < es.len() ==> put_all(m, root, es).dom().contains(place(root, (#[trigger] es[i]).0)) && put_all(m, root, es)[place(root, es[i].0)] == Some(json_of(es[i].1)),
        forall|p: PathBuf| #[trigger] elsewhere(root, es, p) ==> put_all(m, root, es).dom().contains(p) == m.dom().contains(p) && put_all(m, root, es)[p] == m[p],
{
    assert forall|i: int| 0 <= i < es.len() implies put_all(m, root, es).dom().contains(place(root, (#[trigger] es[i]).0)) && put_all(m, root, es)[place(root, es[i].0)] == Some(json_of(es[i].1)) by { put_at(m, root, es, i); }
    assert forall|p: PathBuf| #[trigger] elsewhere(root, es, p) implies put_all(m, root, es).dom().contains(p) == m.dom().contains(p) && put_all(m, root, es)[p] == m[p] by { untouched(m, root, es, p); }
}

// ---- reading
/// A unit file of a version's directory: its key and what it says.
pub open spec fn unit_key(v: u32, e: DirEntry) -> Key { (v, string(trimmed(lossy(name_of(e)), ".json"@))) }
pub open spec fn unit_json(p: PathBuf) -> Option<VersionedBalanceUnit> { match contents(p) { None => None, Some(b) => json_unit(b) } }
pub open spec fn j_unit(m: Units, v: u32, e: Result<DirEntry, IoError>) -> Option<Units> {
    match e {
        Err(_) => None,
        Ok(x) => match type_of(x) {
            None => None,
            Some(t) => if t_file(t) { match unit_json(path_of(x)) { None => None, Some(u) => Some(m.insert(unit_key(v, x), u)) } } else { Some(m) },
        },
    }
}
pub open spec fn j_inner(m: Units, v: u32, es: Listing) -> Option<Units>
    decreases es.len()
{
    if es.len() == 0 { Some(m) } else { match j_inner(m, v, es.drop_last()) { None => None, Some(a) => j_unit(a, v, es.last()) } }
}
pub open spec fn j_dir(m: Units, e: Result<DirEntry, IoError>) -> Option<Units> {
    match e {
        Err(_) => None,
        Ok(x) => match type_of(x) {
            None => None,
            Some(t) => if !t_dir(t) { Some(m) } else {
                match number(lossy(name_of(x))) { None => Some(m), Some(v) => match entries(path_of(x)) { None => None, Some(es) => j_inner(m, v, es) } }
            },
        },
    }
}
pub open spec fn j_outer(es: Listing) -> Option<Units>
    decreases es.len()
{
    if es.len() == 0 { Some(Map::empty()) } else { match j_outer(es.drop_last()) { None => None, Some(a) => j_dir(a, es.last()) } }
}
/// The game's own files: below VERSION/BalanceData, named by the unit inside; unreadable XML is passed over.
pub open spec fn x_unit(m: Units, v: u32, e: Result<DirEntry, IoError>) -> Option<Units> {
    match e {
        Err(_) => None,
        Ok(x) => if file(path_of(x)) && ext(path_of(x)) == Some("xml"@) {
            match text_file(path_of(x)) { None => None, Some(s) => match xml_unit(s) { None => Some(m), Some(u) => Some(m.insert((v, u.id), u)) } }
        } else { Some(m) },
    }
}
pub open spec fn x_inner(m: Units, v: u32, es: Listing) -> Option<Units>
    decreases es.len()
{
    if es.len() == 0 { Some(m) } else { match x_inner(m, v, es.drop_last()) { None => None, Some(a) => x_unit(a, v, es.last()) } }
}
pub open spec fn dir_number(p: PathBuf) -> Option<u32> {
    match last_part(p) { None => None, Some(o) => match utf8(o) { None => None, Some(s) => number(s) } }
}
pub open spec fn x_dir(m: Units, e: Result<DirEntry, IoError>) -> Option<Units> {
    match e {
        Err(_) => None,
        Ok(x) => { let p = path_of(x); let b = join(p, "BalanceData"@);
            if !dir(p) || !dir(b) || dir_number(p) is None { Some(m) } else { match entries(b) { None => None, Some(es) => x_inner(m, dir_number(p)->0, es) } } },
    }
}
pub open spec fn x_outer(es: Listing) -> Option<Units>
    decreases es.len()
{
    if es.len() == 0 { Some(Map::empty()) } else { match x_outer(es.drop_last()) { None => None, Some(a) => x_dir(a, es.last()) } }
}
/// The packed files: VERSION/NAME.json.
pub open spec fn p_key(n: Seq<char>) -> Option<Key> {
    if pieces(n, '/').len() != 2 { None } else { match number(pieces(n, '/')[0]) { None => None, Some(v) => Some((v, string(trimmed(pieces(n, '/')[1], ".json"@)))) } }
}
pub open spec fn p_all(es: Seq<(&'static str, &'static [u8])>) -> Option<Units>
    decreases es.len()
{
    if es.len() == 0 { Some(Map::empty()) } else {
        match p_all(es.drop_last()) { None => None, Some(m) => match p_key(es.last().0@) {
            None => Some(m),
            Some(k) => match json_unit(es.last().1@) { None => None, Some(u) => Some(m.insert(k, u)) },
        } }
    }
}
// ---- a failure on the way is a failure of the whole
pub proof fn j_inner_stuck(m: Units, v: u32, es: Listing, i: int)
    requires 0 <= i <= es.len(), j_inner(m, v, es.take(i)) is None, ensures j_inner(m, v, es) is None,
    decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); j_inner_stuck(m, v, es.drop_last(), i); }
}
pub proof fn j_outer_stuck(es: Listing, i: int)
    requires 0 <= i <= es.len(), j_outer(es.take(i)) is None, ensures j_outer(es) is None,
    decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); j_outer_stuck(es.drop_last(), i); }
}
pub proof fn x_inner_stuck(m: Units, v: u32, es: Listing, i: int)
    requires 0 <= i <= es.len(), x_inner(m, v, es.take(i)) is None, ensures x_inner(m, v, es) is None,
    decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); x_inner_stuck(m, v, es.drop_last(), i); }
}
pub proof fn x_outer_stuck(es: Listing, i: int)
    requires 0 <= i <= es.len(), x_outer(es.take(i)) is None, ensures x_outer(es) is None,
    decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); x_outer_stuck(es.drop_last(), i); }
}
pub proof fn p_all_stuck(es: Seq<(&'static str, &'static [u8])>, i: int)
    requires 0 <= i <= es.len(), p_all(es.take(i)) is None, ensures p_all(es) is None,
    decreases es.len()
{
    if i == es.len() { assert(es.take(i) =~= es); } else { assert(es.drop_last().take(i) =~= es.take(i)); p_all_stuck(es.drop_last(), i); }
}
// ---- what the folds come to
/// The i-th entry is the directory of version v, and entry j of it a unit's file.
pub open spec fn unit_at(es: Listing, i: int, j: int, v: u32, x: DirEntry) -> bool {
    &&& 0 <= i < es.len() && es[i] is Ok && type_of(es[i]->Ok_0) is Some && t_dir(type_of(es[i]->Ok_0)->0)
    &&& number(lossy(name_of(es[i]->Ok_0))) == Some(v)
    &&& entries(path_of(es[i]->Ok_0)) is Some && holds_unit(entries(path_of(es[i]->Ok_0))->0, j, x)
}
pub open spec fn holds_unit(es: Listing, j: int, x: DirEntry) -> bool {
    0 <= j < es.len() && es[j] == Ok::<DirEntry, IoError>(x) && type_of(x) is Some && t_file(type_of(x)->0)
}
pub open spec fn from_entry(v: u32, x: DirEntry, k: Key, u: VersionedBalanceUnit) -> bool { unit_key(v, x) == k && unit_json(path_of(x)) == Some(u) }
pub proof fn inner_says(m: Units, v: u32, es: Listing)
    requires j_inner(m, v, es) is Some,
    ensures
        forall|k: Key| #[trigger] m.dom().contains(k) ==> (j_inner(m, v, es)->0).dom().contains(k),
        forall|j: int, x: DirEntry| #[trigger] holds_unit(es, j, x) ==> (j_inner(m, v, es)->0).dom().contains(unit_key(v, x)),
        forall|k: Key| #[trigger] (j_inner(m, v, es)->0).dom().contains(k) ==>
            (m.dom().contains(k) && m[k] == (j_inner(m, v, es)->0)[k]) || exists|j: int, x: DirEntry| holds_unit(es, j, x) && from_entry(v, x, k, (j_inner(m, v, es)->0)[k]),
    decreases es.len()
{
    if es.len() > 0 {
        let a = es.drop_last();
        inner_says(m, v, a);
        let (r, q) = (j_inner(m, v, a)->0, j_inner(m, v, es)->0);
        assert forall|j: int, x: DirEntry| #[trigger] holds_unit(es, j, x) implies q.dom().contains(unit_key(v, x)) by {
            if j < a.len() { assert(holds_unit(a, j, x)); }
        }
        assert forall|k: Key| #[trigger] q.dom().contains(k) implies
            (m.dom().contains(k) && m[k] == q[k]) || exists|j: int, x: DirEntry| holds_unit(es, j, x) && from_entry(v, x, k, q[k]) by {
            let x = es.last()->Ok_0;
            if t_file(type_of(x)->0) && unit_key(v, x) == k {
                assert(holds_unit(es, es.len() - 1, x) && from_entry(v, x, k, q[k]));
            } else {
                assert(r.dom().contains(k) && r[k] == q[k]);
                if !(m.dom().contains(k) && m[k] == q[k]) {
                    let (j, x) = choose|j: int, x: DirEntry| holds_unit(a, j, x) && from_entry(v, x, k, r[k]);
                    assert(holds_unit(es, j, x) && from_entry(v, x, k, q[k]));
                }
            }
        }
    }
}
/// Every unit file of every numbered directory is in the map under its version and name, and nothing else is.
pub proof fn c31_read(es: Listing)
    requires j_outer(es) is Some,
    ensures
        forall|i: int, j: int, v: u32, x: DirEntry| #[trigger] unit_at(es, i, j, v, x) ==> (j_outer(es)->0).dom().contains(unit_key(v, x)),
        forall|k: Key| #[trigger] (j_outer(es)->0).dom().contains(k) ==> exists|i: int, j: int, v: u32, x: DirEntry| unit_at(es, i, j, v, x) && from_entry(v, x, k, (j_outer(es)->0)[k]),
    decreases es.len()
{
    if es.len() > 0 {
        let a = es.drop_last();
        c31_read(a);
        let (r, q) = (j_outer(a)->0, j_outer(es)->0);
        let d = es.last()->Ok_0;
        let n = number(lossy(name_of(d)));
        let used = t_dir(type_of(d)->0) && n is Some;
        if used { inner_says(r, n->0, entries(path_of(d))->0); }
        assert forall|i: int, j: int, v: u32, x: DirEntry| #[trigger] unit_at(es, i, j, v, x) implies q.dom().contains(unit_key(v, x)) by {
            if i < a.len() { assert(unit_at(a, i, j, v, x)); } else { assert(holds_unit(entries(path_of(d))->0, j, x)); }
        }
        assert forall|k: Key| #[trigger] q.dom().contains(k) implies exists|i: int, j: int, v: u32, x: DirEntry| unit_at(es, i, j, v, x) && from_entry(v, x, k, q[k]) by {
            if r.dom().contains(k) && r[k] == q[k] {
                let (i, j, v, x) = choose|i: int, j: int, v: u32, x: DirEntry| unit_at(a, i, j, v, x) && from_entry(v, x, k, r[k]);
                assert(unit_at(es, i, j, v, x) && from_entry(v, x, k, q[k]));
            } else {
                let (j, x) = choose|j: int, x: DirEntry| holds_unit(entries(path_of(d))->0, j, x) && from_entry(n->0, x, k, q[k]);
                assert(unit_at(es, es.len() - 1, j, n->0, x));
            }
        }
    }
}
/// Entry j is an XML file that says u.
pub open spec fn xml_at(es: Listing, j: int, u: VersionedBalanceUnit) -> bool {
    0 <= j < es.len() && es[j] is Ok && says(path_of(es[j]->Ok_0), u)
}
pub open spec fn says(p: PathBuf, u: VersionedBalanceUnit) -> bool {
    file(p) && ext(p) == Some("xml"@) && text_file(p) is Some && xml_unit(text_file(p)->0) == Some(u)
}
/// Entry i is a numbered directory with a BalanceData directory, whose entry j is such a file.
pub open spec fn game_at(es: Listing, i: int, j: int, v: u32, u: VersionedBalanceUnit) -> bool {
    &&& 0 <= i < es.len() && es[i] is Ok && dir(path_of(es[i]->Ok_0)) && dir(join(path_of(es[i]->Ok_0), "BalanceData"@))
    &&& dir_number(path_of(es[i]->Ok_0)) == Some(v)
    &&& entries(join(path_of(es[i]->Ok_0), "BalanceData"@)) is Some && xml_at(entries(join(path_of(es[i]->Ok_0), "BalanceData"@))->0, j, u)
}
pub proof fn x_inner_says(m: Units, v: u32, es: Listing)
    requires x_inner(m, v, es) is Some,
    ensures
        forall|k: Key| #[trigger] m.dom().contains(k) ==> (x_inner(m, v, es)->0).dom().contains(k),
        forall|j: int, u: VersionedBalanceUnit| #[trigger] xml_at(es, j, u) ==> (x_inner(m, v, es)->0).dom().contains((v, u.id)),
        forall|k: Key| #[trigger] (x_inner(m, v, es)->0).dom().contains(k) ==>
            (m.dom().contains(k) && m[k] == (x_inner(m, v, es)->0)[k]) || (k.0 == v && (x_inner(m, v, es)->0)[k].id == k.1 && exists|j: int| #[trigger] xml_at(es, j, (x_inner(m, v, es)->0)[k])),
    decreases es.len()
{
    if es.len() > 0 {
        let a = es.drop_last();
        x_inner_says(m, v, a);
        let (r, q) = (x_inner(m, v, a)->0, x_inner(m, v, es)->0);
        assert forall|j: int, u: VersionedBalanceUnit| #[trigger] xml_at(es, j, u) implies q.dom().contains((v, u.id)) by {
            if j < a.len() { assert(xml_at(a, j, u)); }
        }
        assert forall|k: Key| #[trigger] q.dom().contains(k) implies
            (m.dom().contains(k) && m[k] == q[k]) || (k.0 == v && q[k].id == k.1 && exists|j: int| #[trigger] xml_at(es, j, q[k])) by {
            let p = path_of(es.last()->Ok_0);
            if file(p) && ext(p) == Some("xml"@) && xml_unit(text_file(p)->0) is Some && k == (v, (xml_unit(text_file(p)->0)->0).id) {
                assert(xml_at(es, es.len() - 1, q[k]));
            } else {
                assert(r.dom().contains(k) && r[k] == q[k]);
                if !(m.dom().contains(k) && m[k] == q[k]) {
                    let j = choose|j: int| #[trigger] xml_at(a, j, r[k]);
                    assert(xml_at(es, j, q[k]));
                }
            }
        }
    }
}
/// The game's own files: every readable one of a numbered directory is in the map under its version and its own id, and nothing else is.
pub proof fn c31_xml(es: Listing)
    requires x_outer(es) is Some,
    ensures
        forall|i: int, j: int, v: u32, u: VersionedBalanceUnit| #[trigger] game_at(es, i, j, v, u) ==> (x_outer(es)->0).dom().contains((v, u.id)),
        forall|k: Key| #[trigger] (x_outer(es)->0).dom().contains(k) ==> (x_outer(es)->0)[k].id == k.1 && exists|i: int, j: int| #[trigger] game_at(es, i, j, k.0, (x_outer(es)->0)[k]),
    decreases es.len()
{
    if es.len() > 0 {
        let a = es.drop_last();
        c31_xml(a);
        let (r, q) = (x_outer(a)->0, x_outer(es)->0);
        let p = path_of(es.last()->Ok_0);
        let b = join(p, "BalanceData"@);
        let n = dir_number(p);
        let used = dir(p) && dir(b) && n is Some;
        if used { x_inner_says(r, n->0, entries(b)->0); }
        assert forall|i: int, j: int, v: u32, u: VersionedBalanceUnit| #[trigger] game_at(es, i, j, v, u) implies q.dom().contains((v, u.id)) by {
            if i < a.len() { assert(game_at(a, i, j, v, u)); } else { assert(xml_at(entries(b)->0, j, u)); }
        }
        assert forall|k: Key| #[trigger] q.dom().contains(k) implies q[k].id == k.1 && exists|i: int, j: int| #[trigger] game_at(es, i, j, k.0, q[k]) by {
            if r.dom().contains(k) && r[k] == q[k] {
                let (i, j) = choose|i: int, j: int| #[trigger] game_at(a, i, j, k.0, r[k]);
                assert(game_at(es, i, j, k.0, q[k]));
            } else {
                let j = choose|j: int| #[trigger] xml_at(entries(b)->0, j, q[k]);
                assert(game_at(es, es.len() - 1, j, k.0, q[k]));
            }
        }
    }
}
/// The packed files: every one that is named VERSION/NAME is in the map, and nothing else is.
pub open spec fn packed_at(es: Seq<(&'static str, &'static [u8])>, i: int, k: Key) -> bool { 0 <= i < es.len() && p_key(es[i].0@) == Some(k) }
pub proof fn c31_packed(es: Seq<(&'static str, &'static [u8])>)
    requires p_all(es) is Some,
    ensures
        forall|i: int, k: Key| #[trigger] packed_at(es, i, k) ==> (p_all(es)->0).dom().contains(k),
        forall|k: Key| #[trigger] (p_all(es)->0).dom().contains(k) ==> exists|i: int| #[trigger] packed_at(es, i, k) && json_unit(es[i].1@) == Some((p_all(es)->0)[k]),
    decreases es.len()
{
    if es.len() > 0 {
        let a = es.drop_last();
        c31_packed(a);
        let (r, q) = (p_all(a)->0, p_all(es)->0);
        assert forall|i: int, k: Key| #[trigger] packed_at(es, i, k) implies q.dom().contains(k) by {
            if i < a.len() { assert(packed_at(a, i, k)); }
        }
        assert forall|k: Key| #[trigger] q.dom().contains(k) implies exists|i: int| #[trigger] packed_at(es, i, k) && json_unit(es[i].1@) == Some(q[k]) by {
            if p_key(es.last().0@) == Some(k) { assert(packed_at(es, es.len() - 1, k)); } else {
                let i = choose|i: int| #[trigger] packed_at(a, i, k) && json_unit(a[i].1@) == Some(r[k]);
                assert(packed_at(es, i, k) && es[i] == a[i]);
            }
        }
    }
}
/// What was written is what is read: a tree whose unit files are exactly m's gives m back.
pub proof fn c31_round(es: Listing, m: Units)
    requires
        j_outer(es) is Some,
        forall|i: int, j: int, v: u32, x: DirEntry| #[trigger] unit_at(es, i, j, v, x) ==> m.dom().contains(unit_key(v, x)) && unit_json(path_of(x)) == Some(m[unit_key(v, x)]),
        forall|k: Key| #[trigger] m.dom().contains(k) ==> exists|i: int, j: int, v: u32, x: DirEntry| unit_at(es, i, j, v, x) && unit_key(v, x) == k,
    ensures j_outer(es)->0 =~= m,
{
    c31_read(es);
    let q = j_outer(es)->0;
    assert forall|k: Key| #[trigger] q.dom().contains(k) implies m.dom().contains(k) && m[k] == q[k] by {
        let (i, j, v, x) = choose|i: int, j: int, v: u32, x: DirEntry| unit_at(es, i, j, v, x) && from_entry(v, x, k, q[k]);
        assert(unit_at(es, i, j, v, x));
    }
    assert forall|k: Key| #[trigger] m.dom().contains(k) implies q.dom().contains(k) by {
        let (i, j, v, x) = choose|i: int, j: int, v: u32, x: DirEntry| unit_at(es, i, j, v, x) && unit_key(v, x) == k;
        assert(unit_at(es, i, j, v, x));
    }
}
}
"""
SUBST = [(r"dyn Error", "IoError"),
         (r"(?:std :: )?fs :: create_dir_all \(", "vx_make_dirs (vx_disk , "),
         (r"serde_json :: to_writer(?:_pretty)? \((?:std :: fs :: )?File :: create \(([^()]*)\)\? ,", r"vx_create_json (vx_disk , \1 ,"),
         (r"(?:std :: io :: )?BufReader :: new \(", "vx_buf ("),
         (r"(?:std :: fs :: )?File :: create \(", "vx_create (vx_disk , "),
         (r"(?:std :: fs :: )?File :: open \(", "vx_open ("),
         (r"(?:std :: )?fs :: read_to_string \(", "vx_read_text ("),
         (r"(?:std :: )?fs :: read \(", "vx_read_file ("),
         (r"serde_json :: to_writer(?:_pretty)? \(", "vx_write_json (vx_disk , "),
         (r"(?:serde_json :: )?json ! \((\w+) \)", r"vx_json (\1 )"),
         (r"serde_json :: to_value \((\w+) \)\?", r"vx_json (\1 )"),
         (r"serde_json :: from_reader (?::: < \w+ > )?\(", "vx_json_file ("),
         (r"serde_json :: from_slice (?::: < \w+ > )?\(", "vx_json_bytes ("),
         (r"serde_xml_rs :: from_str (?::: < \w+ > )?\(", "vx_xml_text ("),
         (r"\. parse (?::: < u32 > )?\(\)", ". vx_parse ()"),
         (r"\. trim_end_matches \(", ". vx_trim_end ("),
         (r"(\w+) \. vx_parse \(\)\. ok \(\)", r"vx_ok (\1 . vx_parse ())"),
         (r"(\w+) \. split \(('/')\)\. collect (?::: < Vec < [^>]*> > )?\(\)", r"vx_split (\1 , \2)"),
         (r"include_dir ! \(", "vx_included ("),
         (r"let (vx_v\d+) = (?:& ?)?balance_data ;", r"let \1 = vx_entries (& balance_data );"),
         (r"vx_into \(root_dir \)", "root_dir"),
         ]
B = "broadcast use {ax_string, ax_made, vstd::string::to_string_from_display_ensures_for_str};"


def nested(p, m, kind, root, inner_root, ver):
    """Loop clauses of the two nested listings of a reading function."""
    inv = {1: f"""        invariant
            vx_i1 <= vx_n1, vx_n1 == vx_v1@.len(), entries({root}) == Some(vx_v1@), {p}_outer(vx_v1@.take(vx_i1 as int)) == Some({m}@),
        decreases vx_n1 - vx_i1,""",
           0: f"""        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), k1 == vx_i1 - 1, 0 <= k1 < vx_v1@.len(), {p}_outer(vx_v1@.take(k1)) == Some(m1),
            {p}_inner(m1, {ver}, vx_v0@.take(vx_i0 as int)) == Some({m}@), {p}_dir(m1, vx_v1@[k1]) == {p}_inner(m1, {ver}, vx_v0@),
        decreases vx_n0 - vx_i0,"""}
    ls = {1: B + f""" let ghost k1 = vx_i1 as int; let ghost m1 = {m}@;
        proof {{
            let s = vx_v1@.take(k1 + 1);
            assert(s.drop_last() =~= vx_v1@.take(k1)); assert(s.last() == vx_v1@[k1]);
            if {p}_outer(s) is None {{ {p}_outer_stuck(vx_v1@, k1 + 1); }}
        }}""",
          0: B + f"""
        proof {{
            let s = vx_v0@.take(vx_i0 + 1);
            assert(s.drop_last() =~= vx_v0@.take(vx_i0 as int)); assert(s.last() == vx_v0@[vx_i0 as int]); assert(vx_v0@.take(vx_n0 as int) =~= vx_v0@);
            if {p}_inner(m1, {ver}, s) is None {{ {p}_inner_stuck(m1, {ver}, vx_v0@, vx_i0 + 1); }}
            let t = vx_v1@.take(k1 + 1);
            assert(t.drop_last() =~= vx_v1@.take(k1)); assert(t.last() == vx_v1@[k1]);
            if {p}_outer(t) is None {{ {p}_outer_stuck(vx_v1@, k1 + 1); }}
        }}"""}
    return dict(inv=inv, ls=ls)


ENDS = "proof { assert forall|s: Listing| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); } assert forall|s: Listing| #[trigger] s.take(0) == Listing::empty() by { assert(s.take(0) =~= Listing::empty()); } }"
WRITE = Fn(J, "write_balance_data_to_json", generics="", std="pipe", fmt=True, free=True, subst=SUBST, params="vx_disk: &mut Disk, root_path: PathBuf, balance_data: Bal", rettype="Result<(), IoError>",
           attrs="#[verifier::loop_isolation(false)]\n",
           spec="""    ensures
        res is Ok <==> forall|k: Key| #[trigger] balance_data@.dom().contains(k) ==> writable(place(root_path, k)),
        res is Ok ==> exists|es: Seq<(Key, VersionedBalanceUnit)>| pairs(balance_data@, es) && files(*final(vx_disk)) == put_all(files(*old(vx_disk)), root_path, es),""",
           inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), pairs(balance_data@, vx_v0@),
            files(*vx_disk) == put_all(files(*old(vx_disk)), root_path, vx_v0@.take(vx_i0 as int)),
            forall|j: int| 0 <= j < vx_i0 ==> writable(place(root_path, (#[trigger] vx_v0@[j]).0)),
        decreases vx_n0 - vx_i0,"""},
           ls={0: """proof {
            let s = vx_v0@.take(vx_i0 + 1);
            assert(s.drop_last() =~= vx_v0@.take(vx_i0 as int)); assert(s.last() == vx_v0@[vx_i0 as int]); assert(vx_v0@.take(vx_n0 as int) =~= vx_v0@);
            assert(balance_data@.dom().contains(vx_v0@[vx_i0 as int].0));
        }"""},
           pre="proof { assert forall|s: Seq<(Key, VersionedBalanceUnit)>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); } assert forall|s: Seq<(Key, VersionedBalanceUnit)>| #[trigger] s.take(0) == Seq::<(Key, VersionedBalanceUnit)>::empty() by { assert(s.take(0) =~= Seq::<(Key, VersionedBalanceUnit)>::empty()); } }")
READ = Fn(J, "read_balance_data_from_json_dir", generics="", std="pipe", free=True, subst=SUBST, params="root_path: PathBuf", rettype="Result<Bal, IoError>",
          spec="""    ensures match entries(root_path) {
        None => res is Err,
        Some(es) => match res { Ok(m) => j_outer(es) == Some(m@), Err(_) => j_outer(es) is None },
    },""", pre=ENDS + B, attrs="#[verifier::loop_isolation(false)]\n", **nested("j", "balance_data", None, "root_path", None, "version"))
XML = Fn(M, "traverse_versioned_balance_abilities", generics="", std="pipe", free=True, subst=SUBST, params="root_dir: PathBuf", rettype="Result<Bal, IoError>",
         spec="""    ensures match res {
        Ok(m) => if dir(root_dir) { entries(root_dir) is Some && x_outer(entries(root_dir)->0) == Some(m@) } else { m@ == Units::empty() },
        Err(_) => dir(root_dir) && (entries(root_dir) is None || x_outer(entries(root_dir)->0) is None),
    },""", pre=ENDS + B, attrs="#[verifier::loop_isolation(false)]\n", **nested("x", "res", None, "root_dir", None, "protocol_version"))
PACKED = Fn(J, "read_balance_data_from_included_assets", std="pipe", free=True, subst=SUBST, rettype="Result<Bal, IoError>",
            spec="""    ensures match res { Ok(m) => p_all(packed("assets/BalanceData"@)) == Some(m@), Err(_) => p_all(packed("assets/BalanceData"@)) is None },""",
            attrs="#[verifier::loop_isolation(false)]\n", pre=B + " proof { assert forall|s: Seq<(&'static str, &'static [u8])>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); } }",
            inv={0: """        invariant
            vx_i0 <= vx_n0, vx_n0 == vx_v0@.len(), vx_v0@ == packed("assets/BalanceData"@), p_all(vx_v0@.take(vx_i0 as int)) == Some(balance_data@),
        decreases vx_n0 - vx_i0,"""},
            ls={0: """proof {
            let s = vx_v0@.take(vx_i0 + 1);
            assert(s.drop_last() =~= vx_v0@.take(vx_i0 as int)); assert(s.last() == vx_v0@[vx_i0 as int]); assert(vx_v0@.take(vx_n0 as int) =~= vx_v0@);
            if p_all(s) is None { p_all_stuck(vx_v0@, vx_i0 + 1); }
        }"""})


def units():
    return L.LIB + mapdoc.TEXT, [Section(spec=SPEC, fns=[WRITE, READ, XML, PACKED])]
