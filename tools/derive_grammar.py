#!/usr/bin/env python3
"""One-off provenance tool: derives spec/grammar.json (the protocol layout the checks use as
oracle) from the base commit's generated decoders.  No check runs it: the committed
spec/grammar.json is the specification, so a change to the decoders cannot change the spec."""
import re, json, sys
root = sys.argv[1] if len(sys.argv) > 1 else '/repo'
out = {}
NARROW = r'(u8|u16|u32|u64|i8|i16|i32|i64)'
def strip(b):
    b = re.sub(r'//[^\n]*', '', b)
    b = re.sub(r'tracing::\w+!\((?:[^()]|\([^()]*\))*\);', '', b, flags=re.S)
    return re.sub(r'\s+', ' ', b).strip()
def elem(t):
    m = re.match(r'(Option|Vec)<(.*)>$', t)
    return m.group(2) if m else t
def ba_expr(b, ty):
    """b: normalised body, ty: rust type"""
    if 'validate_opt_tag(input)' in b:
        inner = re.search(r'if is_provided != 0 \{ (.*) \} else \{ \(tail, None\) \}', b).group(1)
        return {"k": "opt", "e": ba_expr(inner, elem(ty))}
    if 'validate_array_tag' in b:
        inner = re.search(r'for _ in 0\.\.array_length \{ (.*?) \}', b).group(1)
        return {"k": "arr", "e": ba_expr(inner, elem(ty))}
    m = re.search(r'\b([A-Z]\w+)::parse\(', b)
    if m: return {"k": "type", "t": m.group(1)}
    for f, k in (('tagged_vlq_int(', 'vlq'), ('tagged_blob(', 'blob'), ('tagged_bool(', 'bool'), ('tagged_fourcc(', 'fourcc')):
        if f in b:
            e = {"k": k}
            if k == 'vlq':
                e['n'] = ty if 'try_from' in b or 'try_into' in b else 'i64'
                assert re.fullmatch(NARROW, e['n']), (b, ty)
                m = re.search(NARROW + r'::try_from', b)
                if m: assert m.group(1) == ty, (b, ty)
            return e
    raise Exception(b)
def bp_expr(b, ty):
    if 'parse_bool(input)' in b and 'is_provided' in b:
        inner = re.search(r'if is_provided \{ (.*) \} else \{ \(tail, None\) \}', b).group(1)
        return {"k": "opt", "e": bp_expr(inner, elem(ty))}
    if 'array_length' in b:
        bits = int(re.search(r'take_n_bits_into_i64\(\w+, (\d+)(?:usize)?\)', b).group(1))
        inner = re.search(r'for _ in 0\.\.array_length \{ (.*?) \}', b).group(1)
        return {"k": "arr", "bits": bits, "e": bp_expr(inner, elem(ty))}
    m = re.search(r'\b([A-Z]\w+)::parse\(', b)
    if m: return {"k": "type", "t": m.group(1)}
    m = re.search(r'parse_packed_int\(\w+, (-?\d+), (\d+)usize\)', b)
    if m: return {"k": "int", "off": int(m.group(1)), "bits": int(m.group(2))}
    if 'parse_bool(' in b: return {"k": "bool"}
    if 'take_unaligned_byte(' in b: return {"k": "byte"}
    if 'take_fourcc(' in b: return {"k": "fourcc"}
    if 'take_null(' in b: return {"k": "null"}
    raise Exception(b)
def variants(arms, mode, byte):
    res = []
    for m in re.finditer(r'(\d+) => \{ (.*?) \}(?= \d+ =>| _ =>|$)', arms):
        tag, b = int(m.group(1)), m.group(2)
        n = re.search(r'Self::(\w+)', b).group(1)
        v = {"tag": tag, "n": n}
        if re.search(r'Self::\w+\(', b):
            if byte:
                mm = re.search(NARROW + r'::try_from', b)
                v["e"] = ba_expr(b, mm.group(1) if mm else None)
            else:
                v["e"] = bp_expr(b, None)
                if 'if is_provided {' in b and v["e"]["k"] == "type": v["e"] = {"k": "opt", "e": v["e"]}
        else: v["e"] = None
        res.append(v)
    return res
for ver in ('87702', '75689'):
    src = open(f'{root}/src/versions/protocol{ver}/mod.rs').read()
    out[ver] = {}
    for mod in ('byte_aligned', 'bit_packed'):
        byte = mod == 'byte_aligned'
        st = src.index(f'pub mod {mod} {{'); nx = src.find('\npub mod', st + 5)
        body = src[st:nx if nx > 0 else None]
        types = {}
        decls = {}
        for m in re.finditer(r'    pub struct (\w+) \{(.*?)\n?    ?\}', body, re.S):
            d = re.sub(r'//[^\n]*', '', m.group(2))
            decls[m.group(1)] = re.findall(r'pub (\w+): ([^\n]*?),?\s*(?:,|$|\n)', d + '\n')
        for m in re.finditer(r'    impl (\w+) \{\n(.*?)\n    \}\n', body, re.S):
            name, ib = m.group(1), m.group(2)
            fns = {f.group(1): (f.group(2), strip(f.group(3))) for f in re.finditer(r'pub fn (\w+)\([^)]*\)?,?\s*\)? -> (.*?) \{\n(.*?)\n        \}(?=\n|$)', ib + '\n', re.S)}
            # robust re-parse of signatures
            fns = {}
            for f in re.finditer(r'pub fn (\w+)\((.*?)\)\s*->\s*(.*?)\s*\{\n(.*?)\n        \}(?=\n|$)', ib + '\n', re.S):
                fns[f.group(1)] = (re.sub(r'\s+', ' ', f.group(3)), strip(f.group(4)))
            if 'parse' not in fns: continue
            b = fns['parse'][1]
            if 'variant_tag' in b:
                arms = re.search(r'match variant_tag \{ (.*) _ =>', b).group(1)
                d = {"k": "choice", "variants": variants(arms, mod, byte)}
                if byte: d["via"] = 'choice' if 'validate_choice_tag' in b else 'int'; assert ('validate_int_tag' in b) != ('validate_choice_tag' in b)
                else:
                    d["bits"] = int(re.search(r'let num_bits: usize = (\d+)', b).group(1))
                    mm = re.search(r'parse_packed_int\(input, (-?\d+|offset)', b).group(1)
                    d["off"] = 0 if mm == 'offset' else int(mm)
                    if mm == 'offset': assert re.search(r'let offset = 0i64;', b)
            elif name in decls and decls[name] and decls[name][0][0] != 'value':
                order = re.findall(r'if (?:let Some\(None\) = (\w+)|(\w+)\.is_none\(\)) \{', b)
                order = [a or c for a, c in order]
                opts = set(re.findall(r'if let Some\(None\) = (\w+)', b))
                tags = {}
                if byte:
                    for mm in re.finditer(r'(\d+) => \{ (?:if let Some\(None\) = (\w+)|if (\w+)\.is_none\(\))', b):
                        tags[mm.group(2) or mm.group(3)] = int(mm.group(1))
                types_by = dict(decls[name])
                fields = []
                assert set(order) == set(types_by), (name, order, types_by)
                for fn in order:
                    ty = types_by[fn]
                    bb = fns['parse_' + fn][1]
                    e = ba_expr(bb, ty) if byte else bp_expr(bb, ty)
                    fd = {"n": fn, "ty": ty, "opt": fn in opts, "e": e}
                    if byte: fd["tag"] = tags[fn]
                    if byte and f'{fn}: {fn}.unwrap_or(b""[..].to_vec())' in b: fd["empty_if_missing"] = True
                    fields.append(fd)
                d = {"k": "struct", "fields": fields, "decl": [x for x, _ in decls[name]]}
            elif name in decls and not decls[name]:
                d = {"k": "struct", "fields": [], "decl": []}
            else:
                ty = decls[name][0][1]
                if 'str_size' in b:
                    e = {"k": "str", "bits": int(re.search(r'str_size_num_bits: usize = (\d+)', b).group(1)), "off": int(re.search(r'parse_packed_int\(input, (-?\d+)', b).group(1))}
                elif 'bitarray_length' in b:
                    e = {"k": "bits64" if re.search(r'let \(tail, value\) = take_n_bits', b) else "bitarr", "lenbits": int(re.search(r'bitarray_length_bits: usize = (\d+)', b).group(1))}
                elif 'byte_align(input)' in b:
                    mm = re.search(r'num_bits: usize = (\d+) \* (\d+)', b)
                    e = {"k": "ablob", "bits": int(mm.group(1)) * int(mm.group(2))}
                elif 'array_length' in b:
                    inner = re.search(r'for _ in 0\.\.array_length \{ (.*?) \}', b).group(1)
                    if byte: e = {"k": "arr", "e": ba_expr(inner, None)}
                    else: e = {"k": "arr", "bits": int(re.search(r'array_length_num_bits: usize = (\d+)', b).group(1)), "off": int(re.search(r'parse_packed_int\(input, (-?\d+)', b).group(1)), "e": bp_expr(inner, None)}
                elif 'num_bits' in b:
                    e = {"k": "int", "off": int(re.search(r'offset: i64 = (-?\d+)', b).group(1)), "bits": int(re.search(r'num_bits: usize = (\d+)', b).group(1))}
                else: e = {"k": "type", "t": re.search(r'(\w+)::parse\(', b).group(1)}
                d = {"k": "wrap", "ty": ty, "e": e}
            types[name] = d
        rx = re.findall(r'pub use crate::versions::protocol(\d+)::' + mod + r'::(\w+);', body)
        rx += [(a, y.strip()) for a, l in re.findall(r'pub use crate::versions::protocol(\d+)::' + mod + r'::\{(.*?)\};', body, re.S) for y in l.split(',') if y.strip()]
        out[ver][mod] = {"types": types, "reexports": sorted(y for _, y in rx)}
json.dump(out, open('/verif/spec/grammar.json', 'w'), indent=1, sort_keys=True)
for v in out:
    for m in out[v]: print(v, m, len(out[v][m]["types"]), len(out[v][m]["reexports"]))
