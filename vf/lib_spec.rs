#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unreachable_code, unused_assignments)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::bits::*;
use std::num::TryFromIntError;

// ---------------------------------------------------------------------------------------------
// Stand-ins for the parts of nom and of error.rs the decoders use (see DESIGN.md, trusted base).
// ---------------------------------------------------------------------------------------------
pub mod nom {
    use vstd::prelude::*;
    verus! {
    pub enum Err<E> { Incomplete(usize), Error(E), Failure(E) }
    pub mod error {
        use vstd::prelude::*;
        verus! {
        pub enum ErrorKind { Tag, Eof, TooLarge, Alt, Verify, Digit, Many0, Count, Fail, LengthValue }
        pub struct Error<I> { pub input: I, pub code: ErrorKind }
        impl<I> Error<I> { pub fn new(input: I, code: ErrorKind) -> (r: Self) { Error { input, code } } }
        }
    }
    }
}

pub mod err_ax {
use super::*;
use vstd::prelude::*;
verus! {
pub broadcast axiom fn ax_err_int(e: TryFromIntError, r: S2ProtocolError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S2ProtocolError, TryFromIntError>(e, r) ==> !(r is UnsupportedEventType);
pub broadcast axiom fn ax_err_nom<I>(e: nom::Err<nom::error::Error<I>>, r: S2ProtocolError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S2ProtocolError, nom::Err<nom::error::Error<I>>>(e, r) ==> !(r is UnsupportedEventType);
}
}

verus! {
global size_of usize == 8;
pub type IResult<I, O> = Result<(I, O), nom::Err<nom::error::Error<I>>>;
pub type S2ProtoResult<I, O> = Result<(I, O), S2ProtocolError>;

// error.rs: the variants the decoders construct; the payload texts are not modelled.
#[verifier::external_body]
pub struct ExtErr { x: u8 }
pub enum S2ProtocolError {
    MPQ(ExtErr), UnsupportedProtocolVersion(u32), ByteAligned(String), BitPacked(String),
    UnknownTag(i64), DuplicateTag(String, i64), MissingField(String), ValueError(TryFromIntError),
    IoError(ExtErr), PathNotADir, UnsupportedEventType, Utf8Error(ExtErr),
    BitPackedMoreThan64Bits(usize), Map(ExtErr),
}
/// No decoder reports its failure as an event without a neutral form.
pub open spec fn parse_err(e: S2ProtocolError) -> bool { !(e is UnsupportedEventType) }
impl From<TryFromIntError> for S2ProtocolError {
    #[verifier::external_body]
    fn from(e: TryFromIntError) -> (r: S2ProtocolError) ensures parse_err(r) { unimplemented!() }
}
impl<I> From<nom::Err<nom::error::Error<I>>> for S2ProtocolError {
    #[verifier::external_body]
    fn from(e: nom::Err<nom::error::Error<I>>) -> (r: S2ProtocolError) ensures parse_err(r) { unimplemented!() }
}
// `?` converts errors with the two impls above
broadcast use {err_ax::ax_err_int, err_ax::ax_err_nom};
#[verifier::external_body]
pub fn vx_string() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_size_of() -> (r: usize) { unimplemented!() }

pub assume_specification<T: Clone>[<[T]>::to_vec](s: &[T]) -> (r: Vec<T>)
    ensures vx_plain::<T>() ==> r@ == s@;
/// Cloning an element of this type copies it.
pub uninterp spec fn vx_plain<T>() -> bool;
pub axiom fn axiom_plain_u8() ensures vx_plain::<u8>();
pub assume_specification[usize::div_ceil](a: usize, b: usize) -> (r: usize)
    requires b != 0, ensures r == (a + b - 1) / (b as int);

// ------------------------------------------------------------------ byte-aligned nom parsers
#[verifier::external_body]
pub fn nom_be_u8(input: &[u8]) -> (res: IResult<&[u8], u8>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 1 && v == input@[0] && t@ == input@.skip(1),
        Err(_) => input@.len() < 1,
    },
{ unimplemented!() }

pub open spec fn be4(s: Seq<u8>) -> u32 {
    ((s[0] as u32) << 24u32) | ((s[1] as u32) << 16u32) | ((s[2] as u32) << 8u32) | (s[3] as u32)
}
#[verifier::external_body]
pub fn nom_be_u32(input: &[u8]) -> (res: IResult<&[u8], u32>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 4 && v == be4(input@) && t@ == input@.skip(4),
        Err(_) => input@.len() < 4,
    },
{ unimplemented!() }

#[verifier::external_body]
pub fn nom_bytes_take(n: usize, input: &[u8]) -> (res: IResult<&[u8], &[u8]>)
    ensures match res {
        Ok((t, v)) => input@.len() >= n && v@ == input@.take(n as int) && t@ == input@.skip(n as int),
        Err(_) => input@.len() < n,
    },
{ unimplemented!() }

#[verifier::external_body]
pub fn nom_tag1(b: u8, input: &[u8]) -> (res: IResult<&[u8], &[u8]>)
    ensures match res {
        Ok((t, v)) => input@.len() >= 1 && input@[0] == b && v@ == input@.take(1) && t@ == input@.skip(1),
        Err(_) => input@.len() < 1 || input@[0] != b,
    },
{ unimplemented!() }

// ------------------------------------------------------------------ bit-packed nom parser
/// A position in a bit-packed input: the remaining bytes and the number of bits of the first of
/// them that are already consumed.
pub struct P { pub s: Seq<u8>, pub o: int }
pub open spec fn p(i: (&[u8], usize)) -> P { P { s: i.0@, o: i.1 as int } }
pub open spec fn wf(i: (&[u8], usize)) -> bool { i.1 < 8 }

pub open spec fn mask8(k: int) -> u8 { 0xffu8 >> ((8 - k) as u8) }
pub open spec fn enough(q: P, n: int) -> bool { n == 0 || q.s.len() * 8 >= q.o + n }
pub open spec fn rest(q: P, n: int) -> P {
    if n == 0 { q } else { P { s: q.s.skip((q.o + n) / 8), o: (q.o + n) % 8 } }
}

#[verifier::external_body]
pub fn nom_bits_take(count: usize, input: (&[u8], usize)) -> (res: Result<((&[u8], usize), u8), nom::Err<nom::error::Error<(&[u8], usize)>>>)
    requires count == 0 || input.1 < 8, count <= 8,
    ensures match res {
        Ok((t, v)) => enough(p(input), count as int) && p(t) == rest(p(input), count as int)
            && (count == 0 ==> t == input && v == 0)
            && (0 < count && input.1 + count <= 8 ==> v == (input.0@[0] >> ((8 - input.1 - count) as u8)) & mask8(count as int)),
        Err(_) => !enough(p(input), count as int),
    },
{ unimplemented!() }

// ---------------------------------------------------------------------------------------------
// C01: variable-length integers
// ---------------------------------------------------------------------------------------------
/// Sum of the seven-bit groups from byte i on and the index behind the last of them.
/// Group i starts at bit 6 + 7 * (i - 1).
pub open spec fn vlq_groups(s: Seq<u8>, i: int) -> Option<(int, int)>
    decreases 10 - i
{
    if i < 1 || i >= 10 || i >= s.len() { None }
    else {
        let v = (s[i] % 128) as int * pow2((6 + 7 * (i - 1)) as nat) as int;
        if s[i] < 128 { Some((v, i + 1)) }
        else { match vlq_groups(s, i + 1) { None => None, Some((w, e)) => Some((v + w, e)) } }
    }
}
pub open spec fn vlq_raw(s: Seq<u8>) -> Option<(int, int)> {
    if s.len() == 0 { None } else {
        let low = ((s[0] / 2) % 64) as int;
        if s[0] < 128 { Some((low, 1)) }
        else { match vlq_groups(s, 1) { None => None, Some((w, e)) => Some((low + w, e)) } }
    }
}
pub open spec fn s_vlq(s: Seq<u8>) -> Option<(i64, Seq<u8>)> {
    match vlq_raw(s) {
        None => None,
        Some((mag, used)) => if mag >= pow2(63) { None }
            else { Some(((if s[0] % 2 == 1 { -mag } else { mag }) as i64, s.skip(used))) },
    }
}

// ---------------------------------------------------------------------------------------------
// C02: tagged scalars
// ---------------------------------------------------------------------------------------------
pub open spec fn s_tag(s: Seq<u8>, b: u8) -> Option<Seq<u8>> {
    if s.len() >= 1 && s[0] == b { Some(s.skip(1)) } else { None }
}
pub open spec fn s_tagged_vlq(s: Seq<u8>) -> Option<(i64, Seq<u8>)> {
    match s_tag(s, 9) { None => None, Some(t) => s_vlq(t) }
}
pub open spec fn s_blob(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match s_tag(s, 2) { None => None, Some(t) => match s_vlq(t) { None => None, Some((n, u)) =>
        if 0 <= n <= u.len() { Some((u.take(n as int), u.skip(n as int))) } else { None } } }
}
pub open spec fn s_bitarray(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match s_tag(s, 1) { None => None, Some(t) => match s_vlq(t) { None => None, Some((n, u)) => {
        let b = (n as int + 7) / 8;
        if 0 <= n && b <= u.len() { Some((u.take(b), u.skip(b))) } else { None } } } }
}
pub open spec fn s_bool(s: Seq<u8>) -> Option<(bool, Seq<u8>)> {
    match s_tag(s, 6) { None => None, Some(t) => if t.len() >= 1 { Some((t[0] != 0, t.skip(1))) } else { None } }
}
pub open spec fn s_fourcc(s: Seq<u8>) -> Option<(u32, Seq<u8>)> {
    match s_tag(s, 7) { None => None, Some(t) => if t.len() >= 4 { Some((be4(t), t.skip(4))) } else { None } }
}

// ---------------------------------------------------------------------------------------------
// C03, C04: bits in protocol order
// ---------------------------------------------------------------------------------------------
/// The value of the next n bits: from each byte the least significant unread bits; bits of earlier
/// bytes are more significant.
pub open spec fn val(q: P, n: int) -> u64
    decreases n
{
    if n <= 0 || q.s.len() == 0 || q.o < 0 || q.o > 7 { 0u64 } else {
        let k = if n < 8 - q.o { n } else { 8 - q.o };
        let c = ((q.s[0] >> (q.o as u8)) & mask8(k)) as u64;
        if k == n { c } else { (c << ((n - k) as u64)) | val(rest(q, k), n - k) }
    }
}
pub open spec fn s_bits(q: P, n: int) -> Option<(i64, P)> {
    if 0 <= n <= 64 && enough(q, n) { Some((val(q, n) as i64, rest(q, n))) } else { None }
}
/// A biased integer; the bias is added in two's complement.
pub open spec fn wrap64(x: int) -> i64 {
    (if x > i64::MAX { x - 0x1_0000_0000_0000_0000 } else if x < i64::MIN { x + 0x1_0000_0000_0000_0000 } else { x }) as i64
}
pub open spec fn s_int(q: P, off: i64, n: int) -> Option<(i64, P)> {
    match s_bits(q, n) { None => None, Some((v, t)) => Some((wrap64(off + v), t)) }
}
pub open spec fn s_bit(q: P) -> Option<(bool, P)> {
    if enough(q, 1) { Some((val(q, 1) != 0, rest(q, 1))) } else { None }
}
/// One byte per started group of eight bits (one zero byte for n = 0).
pub open spec fn bits_arr(q: P, n: int) -> Seq<u8>
    decreases n
{
    if n <= 8 { seq![val(q, n) as u8] } else { seq![val(q, 8) as u8] + bits_arr(rest(q, 8), n - 8) }
}
pub open spec fn s_bit_array(q: P, n: int) -> Option<(Seq<u8>, P)> {
    if enough(q, n) { Some((bits_arr(q, n), rest(q, n))) } else { None }
}
pub open spec fn s_align(q: P) -> Option<P> {
    if q.o == 0 { Some(q) } else if enough(q, 8 - q.o) { Some(rest(q, 8 - q.o)) } else { None }
}
pub open spec fn s_byte(q: P) -> Option<(u8, P)> {
    match s_bit_array(q, 8) { None => None, Some((a, t)) => Some((a[0], t)) }
}

// --------------------------------------------------------------------------------- lemmas
pub proof fn lemma_rest(q: P, a: int, b: int)
    requires 0 <= q.o < 8, a >= 0, b >= 0,
    ensures
        enough(q, a + b) ==> enough(q, a),
        enough(q, a + b) ==> enough(rest(q, a), b),
        enough(q, a) && enough(rest(q, a), b) ==> enough(q, a + b),
        enough(q, a) && enough(rest(q, a), b) ==> rest(rest(q, a), b) == rest(q, a + b),
        0 <= rest(q, a).o < 8,
{
    if a == 0 || b == 0 {
    } else if enough(q, a) {
        let x = (q.o + a) / 8;
        let y = (q.o + a) % 8;
        assert(q.o + a == 8 * x + y);
        assert(x <= q.s.len());
        let r = rest(q, a);
        assert((r.o + b) / 8 + x == (q.o + a + b) / 8);
        assert((r.o + b) % 8 == (q.o + a + b) % 8);
        if enough(r, b) {
            assert(q.s.skip(x).skip((r.o + b) / 8) =~= q.s.skip((q.o + a + b) / 8));
        }
    }
}

/// Values of at most eight bits fit a byte; a one-bit value is 0 or 1.
pub proof fn lemma_val_small(q: P, n: int)
    requires 0 <= q.o < 8, 0 <= n <= 8,
    ensures val(q, n) < 256, n >= 1 ==> val(q, n) <= mask8(n), n == 0 ==> val(q, n) == 0
    decreases n
{
    if n > 0 && q.s.len() > 0 {
        let k = if n < 8 - q.o { n } else { 8 - q.o };
        let b = q.s[0]; let o = q.o as u8; let k8 = k as u8;
        let c = ((b >> o) & mask8(k)) as u64;
        assert(((b >> o) & (0xffu8 >> ((8 - k8) as u8))) <= (0xffu8 >> ((8 - k8) as u8))) by (bit_vector) requires 1 <= k8 <= 8;
        if k < n {
            let r = rest(q, k);
            let m = (n - k) as u8;
            lemma_val_small(r, n - k);
            let w = val(r, n - k);
            let n8 = n as u8;
            let c8 = ((b >> o) & mask8(k));
            assert(((c8 as u64) << (m as u64)) | w <= (0xffu8 >> ((8 - n8) as u8)) as u64) by (bit_vector)
                requires c8 <= (0xffu8 >> ((8 - k8) as u8)), w <= (0xffu8 >> ((8 - m) as u8)) as u64, 1 <= k8, 1 <= m, n8 == k8 + m, n8 <= 8;
            assert((0xffu8 >> ((8 - n8) as u8)) <= 0xff) by (bit_vector) requires 1 <= n8 <= 8;
        } else {
            assert((0xffu8 >> ((8 - k8) as u8)) <= 0xff) by (bit_vector) requires 1 <= k8 <= 8;
        }
    } else if n > 0 {
        assert(0 <= mask8(n));
    }
}

pub proof fn lemma_vlq_step(r: u64, b: u8, k: u64)
    requires 6 <= k <= 62, r < (1u64 << k), k == 62 ==> b & 0x7eu8 == 0, k <= 55 || k == 62,
    ensures
        ((r as i64) | ((b as i64 & 0x7fi64) << k)) as int == r as int + (b % 128) as int * pow2(k as nat) as int,
        ((r as i64) | ((b as i64 & 0x7fi64) << k)) >= 0,
        k <= 55 ==> (((r as i64) | ((b as i64 & 0x7fi64) << k)) as u64) < (1u64 << ((k + 7) as u64)),
        r as int + (b % 128) as int * pow2(k as nat) as int <= i64::MAX,
        // the same group joined by an addition, or widened after the mask
        0 <= ((b as i64 & 0x7fi64) << k) <= i64::MAX - r,
        r as i64 == r,
        (b & 0x7f) as i64 == (b as i64 & 0x7fi64),
        ((b as i64 & 0x7fi64) << k) as int == (b % 128) as int * pow2(k as nat) as int,
{
    assert(0 <= ((b as i64 & 0x7fi64) << k) && (((b as i64 & 0x7fi64) << k) as u64) == ((b & 0x7f) as u64) << k
        && (b & 0x7f) as i64 == (b as i64 & 0x7fi64)
        && r as i64 >= 0 && (r as i64) as u64 == r) by (bit_vector)
        requires 6 <= k <= 62, r < (1u64 << k), k == 62 ==> b & 0x7eu8 == 0, k <= 55 || k == 62;
    assert(r <= 0x7fff_ffff_ffff_ffffu64 - (((b & 0x7f) as u64) << k)) by (bit_vector)
        requires 6 <= k <= 62, r < (1u64 << k), k == 62 ==> b & 0x7eu8 == 0, k <= 55 || k == 62;
    assert(((r as i64) | ((b as i64 & 0x7fi64) << k)) as u64 == add(r, ((b & 0x7f) as u64) << k)
        && ((r as i64) | ((b as i64 & 0x7fi64) << k)) >= 0
        && add(r, ((b & 0x7f) as u64) << k) <= 0x7fff_ffff_ffff_ffffu64
        && r <= 0x3fff_ffff_ffff_ffffu64 && (((b & 0x7f) as u64) << k) <= 0x7fff_ffff_ffff_ffffu64
        && (k <= 55 ==> add(r, ((b & 0x7f) as u64) << k) < (1u64 << add(k, 7)))) by (bit_vector)
        requires 6 <= k <= 62, r < (1u64 << k), k == 62 ==> b & 0x7eu8 == 0, k <= 55 || k == 62;
    let x = (b & 0x7f) as u64;
    assert(b & 0x7f == b % 128) by (bit_vector);
    assert(x <= 127 && (k == 62 ==> x <= 1)) by (bit_vector) requires x == (b & 0x7f) as u64, k == 62 ==> b & 0x7eu8 == 0;
    lemma_pow2_bound(k as nat);
    assert(x * pow2(k as nat) <= u64::MAX) by (nonlinear_arith)
        requires 0 <= x <= 127, k == 62 ==> x <= 1, k <= 62, k <= 55 || k == 62, k <= 55 ==> pow2(k as nat) <= 36028797018963968, k == 62 ==> pow2(k as nat) == 4611686018427387904;
    lemma_u64_shl_is_mul(x, k);
}
pub proof fn lemma_pow2_bound(k: nat)
    ensures k <= 55 ==> pow2(k) <= 36028797018963968, k == 62 ==> pow2(k) == 4611686018427387904, k == 63 ==> pow2(k) == 9223372036854775808
{
    lemma2_to64(); lemma2_to64_rest();
    if k < 55 { lemma_pow2_strictly_increases(k, 55); }
}
}
