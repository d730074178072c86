"""Contracts of the decoder library: lib.rs::parse_vlq_int, versioned_decoder.rs, bit_packed_decoder.rs."""
import os
from .core import Fn, Unit

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = open(os.path.join(HERE, "lib_spec.rs")).read()


def okres(spec, view="v", inp="input@"):
    return f"""    ensures match res {{
        Ok((t, v)) => {spec} == Some(({view}, t@)),
        Err(_) => {spec} is None,
    }},"""


VLQ = Fn("lib.rs", "parse_vlq_int", spec=okres("s_vlq(input@)"),
    pre="proof { lemma_pow2_bound(63); lemma2_to64(); lemma2_to64_rest(); }",
    std=True, lets={("bits", 0): """proof {
            let v = input@[0];
            assert(((v >> 1) & 0x3f) == (v / 2) % 64) by (bit_vector);
            assert((((v >> 1) & 0x3f) as i64 as u64) < (1u64 << 6)) by (bit_vector);
            assert((v & 1 != 0) == (v % 2 == 1)) by (bit_vector);
            assert((v & 0x80 != 0) == (v >= 128)) by (bit_vector);
        }""",
        ("new_v_int_value", 0): """proof {
            let b = new_v_int_value;
            let i = input@.len() - tail@.len();
            assert(b == input@[i]);
            assert((b & 0x80 != 0) == (b >= 128)) by (bit_vector);
            assert(input@.skip(i).skip(1) =~= input@.skip(i + 1));
            lemma_pow2_bound(62);
            if bits == 62 && b & 0x7e != 0 {
                assert(b % 128 >= 2) by (bit_vector) requires b & 0x7e != 0;
                assert((b % 128) as int * pow2(62) as int >= pow2(63)) by (nonlinear_arith)
                    requires b % 128 >= 2, pow2(62) == 4611686018427387904, pow2(63) == 9223372036854775808;
            } else if bits <= 62 {
                lemma_vlq_step(result as u64, b, bits as u64);
                assert(result as u64 as i64 == result);
            }
        }"""},
    inv={0: """        invariant
            1 <= input@.len() - tail@.len() <= 10,
            tail@ == input@.skip(input@.len() - tail@.len()),
            v_int_value == input@[input@.len() - tail@.len() - 1],
            bits == 6 + 7 * (input@.len() - tail@.len() - 1),
            (v_int_value & 0x80 != 0) == (v_int_value >= 128),
            0 <= result,
            bits <= 62 ==> (result as u64) < (1u64 << (bits as u64)),
            pow2(63) == 9223372036854775808,
            is_negative == (input@[0] % 2 == 1),
            vlq_raw(input@) == (if v_int_value < 128 { Some((result as int, input@.len() - tail@.len())) }
                else { match vlq_groups(input@, input@.len() - tail@.len()) {
                    None => None, Some((w, e)) => Some((result + w, e)) } }),
        decreases tail@.len(),"""})

TAGS = {"array": 0, "bitarray": 1, "blob": 2, "choice": 3, "opt": 4, "struct": 5, "bool": 6, "fourcc": 7, "int": 9}


def tag_fn(k, n):
    return Fn("versioned_decoder.rs", f"validate_{k}_tag", spec=f"""    ensures match res {{
        Ok((t, v)) => s_tag(input@, {n}) == Some(t@),
        Err(_) => s_tag(input@, {n}) is None,
    }},""")


TAG_FNS = [tag_fn(k, n) for k, n in TAGS.items()]

LEN = """proof { assert(forall|x: i64| x >= 0 ==> #[trigger] (x as usize) == x); 
        assert(forall|x: i64| x < 0 ==> #[trigger] (x as usize) == x + 0x1_0000_0000_0000_0000); }"""

SCALARS = [
    Fn("versioned_decoder.rs", "tagged_blob", spec=okres("s_blob(input@)", "v@"),
       post="", lets={("blob_length", 0): "proof { axiom_plain_u8(); assume_slice_len(tail); neg_usize(blob_length); }"}),
    Fn("versioned_decoder.rs", "tagged_bitarray", spec=okres("s_bitarray(input@)", "v@"),
       lets={("array_length", 0): "proof { axiom_plain_u8(); assume_slice_len(tail); neg_usize(array_length); }"}),
    Fn("versioned_decoder.rs", "tagged_vlq_int", spec=okres("s_tagged_vlq(input@)")),
    Fn("versioned_decoder.rs", "tagged_bool", spec=okres("s_bool(input@)")),
    Fn("versioned_decoder.rs", "tagged_fourcc", spec=okres("s_fourcc(input@)")),
]

BA_LEMMAS = """
verus! {
/// Assumption: no input has 2^59 bytes or more (no machine can hold one).
#[verifier::external_body]
pub proof fn assume_slice_len(s: &[u8]) ensures s@.len() < 0x800_0000_0000_0000 { }
pub proof fn neg_usize(x: i64)
    ensures x >= 0 ==> x as usize == x, x < 0 ==> x as usize >= 0x8000_0000_0000_0000usize
{
    assert(x < 0 ==> x as usize >= 0x8000_0000_0000_0000usize) by (bit_vector);
}
}
"""


def bitres(spec, view="v", req="        wf(input),\n"):
    return f"""    requires
{req}    ensures match res {{
        Ok((t, v)) => {spec} == Some(({view}, p(t))) && wf(t),
        Err(e) => ({spec} is None) && parse_err(e),
    }},"""


RTAKE = Fn("bit_packed_decoder.rs", "rtake_n_bits", std=True, spec="""    requires
        wf(input), count <= 8,
    ensures match res {
        Ok((t, v)) => enough(p(input), count as int) && v as u64 == val(p(input), count as int),
        Err(e) => !enough(p(input), count as int) && parse_err(e),
    },""",
    pre="""proof {
        lemma_rtake(p(input), count as int);
        if input.1 + count > 8 {
            let q = p(input); let n = count as int;
            lemma_rest(q, 8 - q.o, n - (8 - q.o));
            if q.s.len() > 0 {
                let b = q.s[0]; let o = q.o as u8;
                assert(p((input.0, 0usize)) == (P { s: q.s, o: 0 }));
                assert(rest(P { s: q.s, o: 0 }, 8).s == q.s.skip(1));
                assert(rest(q, 8 - q.o).s == q.s.skip(1));
            }
        }
    }""")

TAKE_N = Fn("bit_packed_decoder.rs", "take_n_bits_into_i64", std=True, spec=bitres("s_bits(p(input), total_bits as int)"),
    pre="proof { lemma_or0(val(p(input), total_bits as int)); lemma_rest(p(input), 0, total_bits as int); }",
    inv={0: """        invariant_except_break
            remaining_bits == 0 ==> total_bits == 0,
            remaining_bits <= total_bits,
            enough(p(input), total_bits as int) == enough(p(tail), remaining_bits as int),
            rest(p(input), total_bits as int) == rest(p(tail), remaining_bits as int) || !enough(p(input), total_bits as int),
            val(p(input), total_bits as int) == (res as u64) | val(p(tail), remaining_bits as int),
        invariant
            wf(input), wf(tail), total_bits <= 64,
        ensures
            enough(p(input), total_bits as int),
            rest(p(input), total_bits as int) == p(tail),
            res as u64 == val(p(input), total_bits as int),
            res == val(p(input), total_bits as int) as i64,
        decreases remaining_bits,"""},
    lets={("count", 0): "let ghost tail0 = tail; proof { lemma_rest(p(tail), count as int, remaining_bits - count); lemma_val_split(p(tail), count as int, remaining_bits as int); lemma_val_small(p(tail), count as int); }",
          ("new_tail", 0): """proof {
            let k = (remaining_bits - count) as u64;
            lemma_or_i64(res, bits, k, val(p(new_tail), remaining_bits - count));
            lemma_rest(p(new_tail), 0, remaining_bits - count);
            if remaining_bits == count { lemma_or0((res | ((bits as i64) << (k as usize))) as u64); lemma_or0(res as u64); assert((bits as i64) << 0usize == bits as i64) by (bit_vector); }
            assert(forall|x: i64| #[trigger] (x as u64) as i64 == x) by (bit_vector);
        }"""},
    post="")

TAKE_ARR = Fn("bit_packed_decoder.rs", "take_bit_array", spec=bitres("s_bit_array(p(input), total_bits as int)", "v@"),
    pre="proof { lemma_rest(p(input), 0, total_bits as int); }",
    inv={0: """        invariant_except_break
            bits_arr(p(input), total_bits as int) == res@ + bits_arr(p(tail), remaining_bits as int),
            remaining_bits == 0 ==> total_bits == 0,
        invariant
            wf(input), wf(tail), remaining_bits <= total_bits,
            enough(p(input), total_bits as int) == enough(p(tail), remaining_bits as int),
            rest(p(input), total_bits as int) == rest(p(tail), remaining_bits as int) || !enough(p(input), total_bits as int),
        ensures
            remaining_bits == 0,
            bits_arr(p(input), total_bits as int) == res@,
        decreases remaining_bits,"""},
    ls={0: "let ghost res0 = res@;"},
    lets={("remaining_bits", 0): "proof { assert(res@ + bits_arr(p(input), total_bits as int) =~= bits_arr(p(input), total_bits as int)); }",
          ("count", 0): "proof { lemma_rest(p(tail), count as int, remaining_bits - count); lemma_val_small(p(tail), count as int); }",
          ("new_tail", 0): """proof {
            let v = val(p(tail), count as int) as u8;
            assert(bits == v);
            assert(bits_arr(p(tail), remaining_bits as int) == if remaining_bits > 8 { seq![v] + bits_arr(p(new_tail), remaining_bits - 8) } else { seq![v] });
            assert(res0.push(v) =~= res0 + seq![v]);
            assert((res0 + seq![v]) + bits_arr(p(new_tail), remaining_bits - 8) =~= res0 + (seq![v] + bits_arr(p(new_tail), remaining_bits - 8)));
        }"""})

ALIGN = Fn("bit_packed_decoder.rs", "byte_align", spec="""    requires
        wf(input),
    ensures match res {
        Ok((t, v)) => s_align(p(input)) == Some(p(t)) && wf(t),
        Err(e) => (s_align(p(input)) is None) && parse_err(e),
    },""")
UBYTE = Fn("bit_packed_decoder.rs", "take_unaligned_byte", spec=bitres("s_byte(p(input))"))
FOURCC = Fn("bit_packed_decoder.rs", "take_fourcc", spec=bitres("s_bit_array(p(input), 32)", "v@"))
NULL = Fn("bit_packed_decoder.rs", "take_null", spec="""    requires
        wf(input),
    ensures match res { Ok((t, v)) => t == input, Err(_) => false },""")
PINT = Fn("bit_packed_decoder.rs", "parse_packed_int", spec=bitres("s_int(p(input), offset, num_bits as int)"))
PBOOL = Fn("bit_packed_decoder.rs", "parse_bool", spec=bitres("s_bit(p(input))"))
BITS3 = [RTAKE, TAKE_N, PINT, PBOOL]
BITS4 = [TAKE_ARR, ALIGN, UBYTE, FOURCC, NULL]

BIT_LEMMAS = """
verus! {
pub proof fn lemma_or0(x: u64) ensures x == 0u64 | x, x == x | 0u64 { assert(x == 0u64 | x && x == x | 0u64) by (bit_vector); }

/// rtake_n_bits reads either inside one byte or across two.
pub proof fn lemma_rtake(q: P, n: int)
    requires 0 <= q.o < 8, 0 <= n <= 8,
    ensures
        enough(q, n) && n == 0 ==> val(q, n) == 0,
        enough(q, n) && n > 0 && q.o + n <= 8 ==> val(q, n) == ((q.s[0] >> (q.o as u8)) & mask8(n)) as u64,
        enough(q, n) && q.o + n > 8 ==> ({
            let l = n - (8 - q.o);
            let r0 = (q.s[0] >> (q.o as u8)) & mask8(8 - q.o);
            let r1 = (q.s.skip(1)[0] >> 0u8) & mask8(l);
            &&& q.s.skip(1).len() >= 1
            &&& (r0 << (l as u8)) + r1 <= 255
            &&& (r0 << (l as u8)) + r1 == (r0 << (l as u8)) | r1
            &&& val(q, n) == (((r0 << (l as u8)) + r1) as u8) as u64
        }),
        q.o + n > 8 ==> (enough(q, n) <==> q.s.len() >= 2),
{
    if enough(q, n) && q.o + n > 8 {
        let k = 8 - q.o;
        let l = n - k;
        lemma_rest(q, k, l);
        let r = rest(q, k);
        assert(r.s == q.s.skip(1));
        assert(r.o == 0);
        assert(r.s.len() >= 1);
        let r0 = (q.s[0] >> (q.o as u8)) & mask8(k);
        let r1 = (r.s[0] >> 0u8) & mask8(l);
        assert(val(r, l) == r1 as u64);
        let l8 = l as u8; let k8 = k as u8; let b = q.s[0]; let o = q.o as u8; let b1 = r.s[0];
        assert(r0 <= (0xffu8 >> ((8 - k8) as u8))) by (bit_vector) requires r0 == (b >> o) & (0xffu8 >> ((8 - k8) as u8)), 1 <= k8 <= 8;
        assert(r1 <= (0xffu8 >> ((8 - l8) as u8))) by (bit_vector) requires r1 == (b1 >> 0u8) & (0xffu8 >> ((8 - l8) as u8)), 1 <= l8 <= 8;
        assert(add(r0 << l8, r1) as u64 == ((r0 as u64) << (l8 as u64)) | (r1 as u64) && add(r0 << l8, r1) >= r1) by (bit_vector)
            requires r0 <= (0xffu8 >> ((8 - k8) as u8)), r1 <= (0xffu8 >> ((8 - l8) as u8)), 1 <= k8, 1 <= l8, k8 + l8 <= 8;
        assert(add(r0 << l8, r1) == (r0 << l8) | r1) by (bit_vector)
            requires r0 <= (0xffu8 >> ((8 - k8) as u8)), r1 <= (0xffu8 >> ((8 - l8) as u8)), 1 <= k8, 1 <= l8, k8 + l8 <= 8;
        assert((r0 << l8) <= 0xffu8 - r1) by (bit_vector)
            requires r0 <= (0xffu8 >> ((8 - k8) as u8)), r1 <= (0xffu8 >> ((8 - l8) as u8)), 1 <= k8, 1 <= l8, k8 + l8 <= 8;
        assert(val(q, n) == ((r0 as u64) << (l as u64)) | val(r, l));
    }
}

/// Splitting off the chunk the loop takes: all unread bits of the byte, or everything left.
pub proof fn lemma_val_split(q: P, c: int, n: int)
    requires 0 <= q.o < 8, 0 <= c <= n <= 64, c == n || c == 8 - q.o,
    ensures enough(q, n) ==> val(q, n) == (val(q, c) << ((n - c) as u64)) | val(rest(q, c), n - c),
{
    if enough(q, n) {
        let x = val(q, c);
        if c == n { assert(x == (x << 0u64) | 0u64) by (bit_vector); }
    }
}

pub proof fn lemma_or_i64(res: i64, bits: u8, k: u64, w: u64)
    ensures ((res | ((bits as i64) << (k as usize))) as u64) | w == (res as u64) | (((bits as u64) << k) | w)
{
    let kk = k as usize;
    assert(((res | ((bits as i64) << kk)) as u64) | w == (res as u64) | (((bits as u64) << k) | w)) by (bit_vector) requires kk == k;
}
}
"""

BIT_BOUNDS = """
verus! {
/// The value of n bits is below 2^n.
pub proof fn lemma_val_lt(q: P, n: int)
    requires 0 <= q.o < 8, 1 <= n <= 64,
    ensures val(q, n) <= 0xffff_ffff_ffff_ffffu64 >> ((64 - n) as u64)
    decreases n
{
    if q.s.len() > 0 {
        let k = if n < 8 - q.o { n } else { 8 - q.o };
        let b = q.s[0]; let o = q.o as u8; let k8 = k as u8; let n8 = n as u64; let m = (n - k) as u64;
        let c = ((b >> o) & mask8(k)) as u64;
        assert((((b >> o) & (0xffu8 >> ((8 - k8) as u8))) as u64) <= 0xffff_ffff_ffff_ffffu64 >> ((64 - k8 as u64) as u64)) by (bit_vector) requires 1 <= k8 <= 8;
        if k < n {
            lemma_val_lt(rest(q, k), n - k);
            let w = val(rest(q, k), n - k);
            assert((c << m) | w <= 0xffff_ffff_ffff_ffffu64 >> ((64 - n8) as u64)) by (bit_vector)
                requires c <= 0xffff_ffff_ffff_ffffu64 >> ((64 - k8 as u64) as u64), w <= 0xffff_ffff_ffff_ffffu64 >> ((64 - m) as u64),
                    1 <= k8 <= 8, 1 <= m <= 63, n8 == k8 as u64 + m, n8 <= 64;
        }
    }
}
/// A length read from at most 32 bits is a small non-negative number.
pub proof fn lemma_bits_lt(q: P, n: int)
    requires 0 <= q.o < 8, 1 <= n <= 32,
    ensures s_bits(q, n) is Some ==> 0 <= (s_bits(q, n)->0).0 <= 0xffff_ffff
{
    lemma_val_lt(q, n);
    let v = val(q, n); let m = n as u64;
    assert(v <= 0xffff_ffffu64 && v as i64 >= 0 && v as i64 <= 0xffff_ffffi64) by (bit_vector) requires v <= 0xffff_ffff_ffff_ffffu64 >> ((64 - m) as u64), 1 <= m <= 32;
}
pub proof fn lemma_int_lt(q: P, n: int)
    requires 0 <= q.o < 8, 1 <= n <= 32,
    ensures s_int(q, 0i64, n) is Some ==> 0 <= (s_int(q, 0i64, n)->0).0 <= 0xffff_ffff
{
    lemma_bits_lt(q, n);
}
}
"""

EXTRA = """
verus! {
pub const MAX_INITIAL_CAPACITY_BYTES: usize = 65536;
#[verifier::external_body]
pub fn vx_empty_bytes() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
"""
