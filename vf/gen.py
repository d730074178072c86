"""Generates specification functions and contracts for the record decoders (C05, C06) from
spec/grammar.json, the protocol description the properties refer to."""
import json, os, re
from .core import Fn, Section, VERIF

G = json.load(open(os.path.join(VERIF, "spec", "grammar.json")))
FILES = {"87702": "versions/protocol87702/mod.rs", "75689": "versions/protocol75689/mod.rs"}
PRIM = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "()", "String"}
RNG = {"u8": (0, 255), "u32": (0, 2**32 - 1), "u64": (0, 2**63 - 1), "i32": (-2**31, 2**31 - 1),
       "u16": (0, 65535), "i16": (-32768, 32767), "i8": (-128, 127), "i64": None}


class Gen:
    def __init__(self, ver, fmt, types, extern):
        """types: name -> def of the types of this module; extern: name -> def of re-exported types."""
        self.ver, self.ba = ver, fmt == "byte_aligned"
        self.fmt, self.types, self.extern = fmt, types, extern
        self.all = dict(extern); self.all.update(types)
        self.file = FILES[ver]
        self.S = "Seq<u8>" if self.ba else "P"
        self.inp = "input@" if self.ba else "p(input)"
        self.t = "t@" if self.ba else "p(t)"
        self.tail = "tail@" if self.ba else "p(tail)"
        self.wf = "" if self.ba else "    requires\n        wf(input),\n"
        self.wft = "" if self.ba else " && wf(t)"
        self.spec = []
        self.fns = []
        self.viewfns = set()
        self._pure = {}

    # ------------------------------------------------------------------ views
    def pure_ty(self, ty):
        ty = ty.strip()
        if ty in PRIM:
            return True
        if ty.startswith("Vec<"):
            return False
        m = re.match(r"Option<(.*)>$", ty)
        if m:
            return self.pure_ty(m.group(1))
        return self.pure(ty)

    def pure(self, name):
        if name not in self._pure:
            d = self.all[name]
            if d["k"] == "struct":
                r = all(self.pure_ty(f["ty"]) for f in d["fields"])
            elif d["k"] == "wrap":
                r = self.pure_ty(d["ty"])
            else:
                r = all(self.pure_payload(v["e"]) for v in d["variants"])
            self._pure[name] = r
        return self._pure[name]

    def payload_ty(self, e):
        """Rust type of a choice payload, derived from the expression."""
        if e is None:
            return None
        k = e["k"]
        return {"vlq": lambda: e["n"], "bool": lambda: "bool", "null": lambda: "()", "blob": lambda: "Vec<u8>",
                "type": lambda: e["t"], "fourcc": lambda: "u32",
                "opt": lambda: f"Option<{self.payload_ty(e['e'])}>"}[k]()

    def pure_payload(self, e):
        return e is None or self.pure_ty(self.payload_ty(e))

    def gty(self, ty):
        ty = ty.strip()
        if self.pure_ty(ty):
            return ty
        m = re.match(r"(Vec|Option)<(.*)>$", ty)
        if m:
            return ("Seq<" if m.group(1) == "Vec" else "Option<") + self.gty(m.group(2)) + ">"
        return "G_" + ty

    def gv(self, ty, x):
        ty = ty.strip()
        if self.pure_ty(ty):
            return x
        m = re.match(r"Vec<(.*)>$", ty)
        if m:
            e = m.group(1)
            if self.pure_ty(e):
                return f"{x}@"
            return f"{self.vecview(e)}({x}@)"
        m = re.match(r"Option<(.*)>$", ty)
        if m:
            return f"{self.optview(m.group(1))}({x})"
        return f"v_{ty}({x})"

    def optview(self, e):
        n = "ov_" + re.sub(r"\W+", "_", e)
        if n not in self.viewfns:
            self.viewfns.add(n)
            self.spec.append(f"pub open spec fn {n}(x: Option<{e}>) -> Option<{self.gty(e)}> {{ match x {{ None => None, Some(y) => Some({self.gv(e, 'y')}) }} }}")
        return n

    def vecview(self, e):
        n = "vv_" + re.sub(r"\W+", "_", e)
        if n not in self.viewfns:
            self.viewfns.add(n)
            self.spec.append(f"pub open spec fn {n}(s: Seq<{e}>) -> Seq<{self.gty(e)}> {{ Seq::new(s.len(), |i: int| {self.gv(e, 's[i]')}) }}")
        return n

    # ------------------------------------------------------------------ expressions
    def ex(self, e, ty, name):
        """Emits `spec fn name(s) -> Option<(view of ty, rest)>`; returns nothing."""
        S, k, g = self.S, e["k"], self.gty(ty)
        head = f"pub open spec fn {name}(s: {S}) -> Option<({g}, {S})>"
        if k == "vlq":
            r = RNG[e["n"]]
            if r is None:
                b = "s_tagged_vlq(s)"
            else:
                b = f"match s_tagged_vlq(s) {{ None => None, Some((v, t)) => if {r[0]} <= v <= {r[1]} {{ Some((v as {e['n']}, t)) }} else {{ None }} }}"
        elif k == "blob":
            b = "s_blob(s)"
        elif k == "bool":
            b = "s_bool(s)" if self.ba else "s_bit(s)"
        elif k == "fourcc":
            b = "s_fourcc(s)" if self.ba else "s_bit_array(s, 32)"
        elif k == "byte":
            b = "s_byte(s)"
        elif k == "null":
            b = "Some(((), s))"
        elif k == "type":
            b = f"s_{e['t']}(s)"
        elif k == "int":
            b = f"s_int(s, {e['off']}i64, {e['bits']})"
        elif k == "opt":
            ity = re.match(r"Option<(.*)>$", ty.strip()).group(1)
            self.ex(e["e"], ity, name + "_o")
            if self.ba:
                b = (f"match s_tag(s, 4) {{ None => None, Some(t) => if t.len() < 1 {{ None }} else if t[0] == 0 {{ Some((None, t.skip(1))) }} "
                     f"else {{ match {name}_o(t.skip(1)) {{ None => None, Some((v, u)) => Some((Some(v), u)) }} }} }}")
            else:
                b = (f"match s_bit(s) {{ None => None, Some((b, t)) => if !b {{ Some((None, t)) }} "
                     f"else {{ match {name}_o(t) {{ None => None, Some((v, u)) => Some((Some(v), u)) }} }} }}")
        elif k == "arr":
            ity = re.match(r"Vec<(.*)>$", ty.strip()).group(1)
            self.ex(e["e"], ity, name + "_e")
            self.spec.append(f"""pub open spec fn {name}_n(s: {S}, n: int, acc: {g}) -> Option<({g}, {S})>
    decreases n
{{
    if n <= 0 {{ Some((acc, s)) }} else {{ match {name}_e(s) {{ None => None, Some((v, t)) => {name}_n(t, n - 1, acc.push(v)) }} }}
}}""")
            if self.ba:
                b = f"match s_tag(s, 0) {{ None => None, Some(t) => match s_vlq(t) {{ None => None, Some((n, u)) => {name}_n(u, (n as usize) as int, Seq::empty()) }} }}"
            else:
                ln = f"s_int(s, {e['off']}i64, {e['bits']})" if "off" in e else f"s_bits(s, {e['bits']})"
                b = f"match {ln} {{ None => None, Some((n, u)) => {name}_n(u, (n as usize) as int, Seq::empty()) }}"
        elif k == "str":
            b = (f"match s_int(s, {e['off']}i64, {e['bits']}) {{ None => None, Some((n, t)) => match s_align(t) {{ None => None, "
                 f"Some(u) => s_bit_array(u, (n as usize) * 8) }} }}")
        elif k == "bits64":
            b = f"match s_bits(s, {e['lenbits']}) {{ None => None, Some((n, t)) => s_bits(t, (n as usize) as int) }}"
        elif k == "bitarr":
            b = f"match s_bits(s, {e['lenbits']}) {{ None => None, Some((n, t)) => s_bit_array(t, (n as usize) as int) }}"
        elif k == "ablob":
            b = f"match s_align(s) {{ None => None, Some(t) => s_bit_array(t, {e['bits']}) }}"
        else:
            raise Exception(k)
        self.spec.append(head + " { " + b + " }")

    # ------------------------------------------------------------------ loops of arrays
    def arr_inv(self, e, ty, name, wrap=None, spec=None):
        """Loop annotations for the array loop inside the decoder of expression e (arr or opt(arr))."""
        opt = e["k"] == "opt"
        a = e["e"] if opt else e
        aty = re.match(r"Option<(.*)>$", ty.strip()).group(1) if opt else ty
        nm = name + ("_o" if opt else "")
        ity = re.match(r"Vec<(.*)>$", aty.strip()).group(1)
        V = "array@" if self.pure_ty(ity) else f"{self.vecview(ity)}(array@)"
        fin = "Some((r, u))"
        if opt:
            fin = "Some((Some(r), u))"
        if wrap:
            fin = f"Some(({wrap.replace('$', 'r')}, u))"
        inv = f"""        invariant
            {'wf(tail),' if not self.ba else ''}
            0 <= vx_i0 <= vx_n0,
            {spec}({self.inp}) == (match {nm}_n({self.tail}, vx_n0 - vx_i0, {V}) {{ None => None, Some((r, u)) => {fin} }}),
        decreases vx_n0 - vx_i0,"""
        ls = "let ghost a0 = array@;"
        le = ""
        if not self.pure_ty(ity):
            vv = self.vecview(ity)
            le = f"proof {{ assert({vv}(array@) =~= {vv}(a0).push({self.gv(ity, 'array@.last()')})); }}"
            # before the loop: the view of an empty vector is empty
        pre = {}
        return {0: inv}, {0: ls}, {0: le}

    def has_arr(self, e):
        return e and (e["k"] == "arr" or e["k"] == "opt" and e["e"]["k"] == "arr")

    def attrs(self):
        return "#[verifier::loop_isolation(false)]\n#[verifier::spinoff_prover]\n"

    def contract(self, spec, view):
        return f"""{self.wf}    ensures match res {{
        Ok((t, v)) => {spec}({self.inp}) == Some(({view}, {self.t})){self.wft},
        Err(e) => {spec}({self.inp}) is None && parse_err(e),
    }},"""

    def empty_view(self, e, ty):
        a = e["e"] if e["k"] == "opt" else e
        aty = re.match(r"Option<(.*)>$", ty.strip()).group(1) if e["k"] == "opt" else ty
        ity = re.match(r"Vec<(.*)>$", aty.strip()).group(1)
        if self.pure_ty(ity):
            return "proof { assert(array@ =~= Seq::empty()); }"
        return f"proof {{ assert({self.vecview(ity)}(array@) =~= Seq::empty()); }}"

    def bound_lemmas(self, e):
        """length-prefix bounds the decoder's own arithmetic needs"""
        if e["k"] == "opt":
            return ""
        if e["k"] == "str":
            return f"lemma_int_lt({self.inp}, {e['bits']}); "
        if e["k"] in ("bitarr", "bits64"):
            return f"lemma_bits_lt({self.inp}, {e['lenbits']}); "
        return ""

    # ------------------------------------------------------------------ types
    def emit_type(self, T, trusted=False):
        d = self.types[T]
        P = f"{self.fmt}::{T}"
        pure = self.pure(T)
        S = self.S
        if d["k"] == "struct":
            fs = d["fields"]
            if not pure:
                self.spec.append(f"pub struct G_{T} {{ " + ", ".join(f"pub {f['n']}: {self.gty(f['ty'])}" for f in fs) + " }")
                self.spec.append(f"pub open spec fn v_{T}(x: {T}) -> G_{T} {{ G_{T} {{ " + ", ".join(
                    f"{f['n']}: {self.gv(f['ty'], 'x.' + f['n'])}" for f in fs) + " } }")
            GT = T if pure else "G_" + T
            for f in fs:
                nm = f"s_{T}__{f['n']}"
                self.ex(f["e"], f["ty"], nm)
                kw = {}
                if self.has_arr(f["e"]):
                    inv, ls, le = self.arr_inv(f["e"], f["ty"], nm, spec=nm)
                    kw = dict(inv=inv, ls=ls, le=le, lets={("array", 0): self.empty_view(f["e"], f["ty"])})
                self.fns.append(Fn(self.file, f"{P}::parse_{f['n']}", spec=self.contract(nm, self.gv(f["ty"], "v")),
                                   attrs=self.attrs(), trusted=trusted, impl=f"impl {T}",
                                   pre="proof { " + self.bound_lemmas(f["e"]) + "}", **kw))
            if self.ba:
                self.ba_struct(T, fs, GT, trusted)
            else:
                lines = []
                cur = "s"
                for i, f in enumerate(fs):
                    lines.append(f"    match s_{T}__{f['n']}({cur}) {{ None => None, Some((x{i}, s{i})) =>")
                    cur = f"s{i}"
                lines.append(f"    Some(({GT} {{ " + ", ".join(f"{f['n']}: x{i}" for i, f in enumerate(fs)) + f" }}, {cur}))")
                lines.append("    " + "}" * len(fs))
                self.spec.append(f"pub open spec fn s_{T}(s: {S}) -> Option<({GT}, {S})> {{\n" + "\n".join(lines) + "\n}")
                self.fns.append(Fn(self.file, f"{P}::parse", spec=self.contract(f"s_{T}", "v" if pure else f"v_{T}(v)"),
                                   attrs=self.attrs(), trusted=trusted, impl=f"impl {T}"))
        elif d["k"] == "wrap":
            GT = T if pure else "G_" + T
            if not pure:
                self.spec.append(f"pub struct G_{T} {{ pub value: {self.gty(d['ty'])} }}")
                self.spec.append(f"pub open spec fn v_{T}(x: {T}) -> G_{T} {{ G_{T} {{ value: {self.gv(d['ty'], 'x.value')} }} }}")
            self.ex(d["e"], d["ty"], f"s_{T}__value")
            self.spec.append(f"pub open spec fn s_{T}(s: {S}) -> Option<({GT}, {S})> {{ match s_{T}__value(s) {{ None => None, Some((v, t)) => Some(({GT} {{ value: v }}, t)) }} }}")
            kw = {}
            if self.has_arr(d["e"]):
                inv, ls, le = self.arr_inv(d["e"], d["ty"], f"s_{T}__value", wrap=GT + " { value: $ }", spec=f"s_{T}")
                kw = dict(inv=inv, ls=ls, le=le, lets={("array", 0): self.empty_view(d["e"], d["ty"])})
            self.fns.append(Fn(self.file, f"{P}::parse", spec=self.contract(f"s_{T}", "v" if pure else f"v_{T}(v)"),
                               attrs=self.attrs(), trusted=trusted, impl=f"impl {T}",
                               pre="proof { " + self.bound_lemmas(d["e"]) + "}", **kw))
        else:
            GT = T if pure else "G_" + T
            vs = d["variants"]
            if not pure:
                self.spec.append(f"pub enum G_{T} {{ " + ", ".join(
                    v["n"] + ("" if v["e"] is None else f"({self.gty(self.payload_ty(v['e']))})") for v in vs) + " }")
                self.spec.append(f"pub open spec fn v_{T}(x: {T}) -> G_{T} {{ match x {{ " + ", ".join(
                    f"{T}::{v['n']} => G_{T}::{v['n']}" if v["e"] is None else
                    f"{T}::{v['n']}(z) => G_{T}::{v['n']}({self.gv(self.payload_ty(v['e']), 'z')})" for v in vs) + " } }")
            arms = []
            for v in vs:
                if v["e"] is None:
                    arms.append((v["tag"], f"Some(({GT}::{v['n']}, t))"))
                else:
                    nm = f"s_{T}__{v['n']}"
                    self.ex(v["e"], self.payload_ty(v["e"]), nm)
                    arms.append((v["tag"], f"(match {nm}(t) {{ None => None, Some((z, u)) => Some(({GT}::{v['n']}(z), u)) }})"))
            big = len(arms) > 16
            chain = ""
            for tag, b in arms:
                chain += f"if n == {tag} {{ {b} }} else "
            chain += "{ None }"
            use = ""
            if big:
                # a many-way choice: one lemma per variant instead of one long case distinction
                self.spec.append(f"#[verifier::opaque]\npub open spec fn arm_{T}(n: i64, t: {S}) -> Option<({GT}, {S})> {{ {chain} }}")
                names = [f"arm_{T}__none"]
                self.spec.append(f"""pub broadcast proof fn arm_{T}__none(n: i64, t: {S})
    requires {' && '.join('n != ' + str(t) for t, _ in arms)},
    ensures #[trigger] arm_{T}(n, t) is None {{ reveal(arm_{T}); }}""")
                for (tag, b), v in zip(arms, vs):
                    self.spec.append(f"pub broadcast proof fn arm_{T}__{v['n']}(t: {S}) ensures #[trigger] arm_{T}({tag}, t) == {b} {{ reveal(arm_{T}); }}")
                    names.append(f"arm_{T}__{v['n']}")
                if not pure:
                    self.spec = [x.replace(f"pub open spec fn v_{T}(", f"#[verifier::opaque]\npub open spec fn v_{T}(") for x in self.spec]
                    for v in vs:
                        if v["e"] is not None:
                            ty = self.payload_ty(v["e"])
                            self.spec.append(f"pub broadcast proof fn v_{T}__{v['n']}(z: {ty}) ensures #[trigger] v_{T}({T}::{v['n']}(z)) == G_{T}::{v['n']}({self.gv(ty, 'z')}) {{ reveal(v_{T}); }}")
                        else:
                            self.spec.append(f"pub broadcast proof fn v_{T}__{v['n']}() ensures #[trigger] v_{T}({T}::{v['n']}) == G_{T}::{v['n']} {{ reveal(v_{T}); }}")
                        names.append(f"v_{T}__{v['n']}")
                self.spec.append(f"broadcast group arms_{T} {{ {', '.join(names)} }}")
                chain = f"arm_{T}(n, t)"
                use = f"broadcast use arms_{T};\n"
            if self.ba:
                src = f"match s_tag(s, {3 if d['via'] == 'choice' else 9}) {{ None => None, Some(t0) => match s_vlq(t0) {{ None => None, Some((n, t)) => {chain} }} }}"
            else:
                src = f"match s_int(s, {d.get('off', 0)}i64, {d['bits']}) {{ None => None, Some((n, t)) => {chain} }}"
            self.spec.append(f"pub open spec fn s_{T}(s: {S}) -> Option<({GT}, {S})> {{ {src} }}")
            self.fns.append(Fn(self.file, f"{P}::parse", spec=self.contract(f"s_{T}", "v" if pure else f"v_{T}(v)"),
                               attrs=self.attrs(), trusted=trusted, impl=f"impl {T}", pre=use))

    def ba_struct(self, T, fs, GT, trusted):
        S = self.S
        A = f"A_{T}"

        def oty(f):
            return f"Option<{self.gty(f['ty'])}>"
        self.spec.append(f"pub struct {A} {{ " + ", ".join(f"pub {f['n']}: {oty(f)}" for f in fs) + " }")
        chain = ""
        for f in fs:
            free = f"(a.{f['n']} == Some::<{self.gty(f['ty'])}>(None))" if f["opt"] else f"a.{f['n']} is None"
            chain += (f"if tag == {f['tag']} {{ if {free} {{ match s_{T}__{f['n']}(s) {{ None => None, Some((v, t)) => "
                      f"Some(({A} {{ {f['n']}: Some(v), ..a }}, t)) }} }} else {{ None }} }}\n    else ")
        chain += "{ None }"
        self.spec.append(f"/// One tagged entry of {T}\n#[verifier::opaque]\npub open spec fn step_{T}(tag: i64, s: {S}, a: {A}) -> Option<({A}, {S})> {{\n    {chain}\n}}")
        self.spec.append(f"""pub open spec fn acc_{T}(s: {S}, n: int, a: {A}) -> Option<({A}, {S})>
    decreases n
{{
    if n <= 0 {{ Some((a, s)) }} else {{ match s_vlq(s) {{ None => None, Some((tag, t)) =>
        match step_{T}(tag, t, a) {{ None => None, Some((a2, t2)) => acc_{T}(t2, n - 1, a2) }} }} }}
}}""")
        req = [f for f in fs if not f.get("empty_if_missing")]
        cond = " && ".join(f"a.{f['n']} is Some" for f in req) or "true"
        vals = ", ".join(f"{f['n']}: (match a.{f['n']} {{ Some(v) => v, None => Seq::empty() }})" if f.get("empty_if_missing")
                         else f"{f['n']}: a.{f['n']}->0" for f in fs)
        self.spec.append(f"pub open spec fn fin_{T}(a: {A}, s: {S}) -> Option<({GT}, {S})> {{ if {cond} {{ Some(({GT} {{ {vals} }}, s)) }} else {{ None }} }}")
        init = f"{A} {{ " + ", ".join(f"{f['n']}: {'Some(None)' if f['opt'] else 'None'}" for f in fs) + " }"
        self.spec.append(f"""pub open spec fn s_{T}(s: {S}) -> Option<({GT}, {S})> {{
    match s_tag(s, 5) {{ None => None, Some(t) => match s_vlq(t) {{ None => None, Some((n, u)) =>
        match acc_{T}(u, (n as usize) as int, {init}) {{ None => None, Some((a, w)) => fin_{T}(a, w) }} }} }}
}}""")
        cur = f"{A} {{ " + ", ".join(
            f"{f['n']}: {f['n'] if self.pure_ty(f['ty']) else self.gv('Option<' + f['ty'] + '>', f['n'])}" for f in fs) + " }"
        inv = f"""        invariant
            0 <= vx_i0 <= vx_n0,
            s_{T}(input@) == (match acc_{T}(tail@, vx_n0 - vx_i0, {cur}) {{ None => None, Some((a, w)) => fin_{T}(a, w) }}),
        decreases vx_n0 - vx_i0,"""
        subst = [(r'b""\s*\[\s*\.\.\s*\]\s*\.\s*to_vec\s*\(\)', "vx_empty_bytes()")]
        self.fns.append(Fn(self.file, f"{self.fmt}::{T}::parse", spec=self.contract(f"s_{T}", "v" if self.pure(T) else f"v_{T}(v)"),
                           attrs=self.attrs(), inv={0: inv}, trusted=trusted, impl=f"impl {T}", subst=subst))
        for f in fs:
            free = f"(a.{f['n']} == Some::<{self.gty(f['ty'])}>(None))" if f["opt"] else f"a.{f['n']} is None"
            self.spec.append(f"""pub broadcast proof fn step_{T}__{f['n']}(s: {S}, a: {A})
    ensures #[trigger] step_{T}({f['tag']}, s, a) == (if {free} {{ match s_{T}__{f['n']}(s) {{ None => None, Some((v, t)) => Some(({A} {{ {f['n']}: Some(v), ..a }}, t)) }} }} else {{ None }})
{{ reveal(step_{T}); }}""")
        self.spec.append(f"""pub broadcast proof fn step_{T}__none(t: i64, s: {S}, a: {A})
    requires {' && '.join('t != ' + str(f['tag']) for f in fs)},
    ensures #[trigger] step_{T}(t, s, a) is None,
{{ reveal(step_{T}); }}
broadcast group steps_{T} {{ step_{T}__none, {', '.join('step_' + T + '__' + f['n'] for f in fs)} }}""")
        self.fns[-1].pre = f"broadcast use steps_{T};\n" + self.fns[-1].pre
        # order independence: entries with different tags commute
        def claim(t1):
            x, y = f"step_{T}({t1}, s1, a)", f"step_{T}(t2, s2, a)"
            xy, yx = f"step_{T}(t2, s2, ({x}->0).0)", f"step_{T}({t1}, s1, ({y}->0).0)"
            return f"""({x} is Some && {xy} is Some) == ({y} is Some && {yx} is Some),
        {x} is Some && {y} is Some ==> {xy} is Some && {yx} is Some
            && ({xy}->0).0 == ({yx}->0).0 && ({xy}->0).1 == ({y}->0).1 && ({yx}->0).1 == ({x}->0).1,"""
        cases = ""
        for f in fs:
            split = "".join(f"if t2 == {g['tag']} {{ }} else " for g in fs if g is not f) + "{ }"
            self.spec.append(f"""#[verifier::spinoff_prover]
proof fn commute_{T}__{f['n']}(a: {A}, s1: {S}, t2: i64, s2: {S})
    requires t2 != {f['tag']},
    ensures
        {claim(f['tag'])}
{{ broadcast use steps_{T}; {split} }}""")
            cases += f"if t1 == {f['tag']} {{ commute_{T}__{f['n']}(a, s1, t2, s2); }} else "
        self.spec.append(f"""/// Two neighbouring entries with different tags may be swapped: the same fields result.
pub proof fn commute_{T}(a: {A}, t1: i64, s1: {S}, t2: i64, s2: {S})
    requires t1 != t2,
    ensures
        {claim('t1')}
{{ {cases} {{ broadcast use step_{T}__none; }} }}""")

    def section(self, mod, uses="", trusted=()):
        for T in self.types:
            self.emit_type(T, T in trusted)
        # every s_T and s_T__field is opaque outside the function it specifies
        self.spec = [re.sub(r"(^|\n)pub open spec fn (s_[A-Z]\w*?)(\(s:)", lambda m: m.group(0) if m.group(2).endswith("_n") and "acc:" in x
                            else m.group(1) + "#[verifier::opaque]\npub open spec fn " + m.group(2) + m.group(3), x) for x in self.spec]
        names = set(re.findall(r"#\[verifier::opaque\]\npub open spec fn (\w+)", "\n".join(self.spec)))
        for f in self.fns:
            top = re.search(r"=> (s_\w+)\(", f.spec).group(1)
            rv = [top] + [n for n in (top + "_o", top + "_e", top + "_o_e", top + "__value", top + "__value_e") if n in names and f.key.count("::parse")]
            if top.count("__") == 0 and f.path.endswith("::parse"):
                rv += sorted(n for n in names if n.startswith(top + "__") and self.all[top[2:]]["k"] == "choice")
            f.pre = "proof { " + " ".join(f"reveal({n});" for n in dict.fromkeys(rv)) + " }\n" + f.pre
        items = [(self.file, f"{self.fmt}::{T}") for T in self.types]
        return Section(mod, uses, items, "verus! {\n" + "\n".join(self.spec) + "\n}", self.fns, "\nbroadcast use {err_ax::ax_err_int, err_ax::ax_err_nom};")


def ba_section(trusted=()):
    g = Gen("87702", "byte_aligned", G["87702"]["byte_aligned"]["types"], {})
    return g.section("byte_aligned", trusted=trusted)


def bp_sections():
    a = G["87702"]["bit_packed"]["types"]
    g = Gen("87702", "bit_packed", a, {})
    s1 = g.section("p87702")
    o = G["75689"]["bit_packed"]
    ext = {n: a[n] for n in o["reexports"]}
    h = Gen("75689", "bit_packed", o["types"], ext)
    uses = "\n".join(f"use super::p87702::{n};\nuse super::p87702::s_{n};" + ("" if h.pure(n) else f"\nuse super::p87702::G_{n};\nuse super::p87702::v_{n};") for n in ext)
    s2 = h.section("p75689", uses)
    return s1, s2
