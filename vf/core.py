"""Extraction, composition and discharge of contracts with Verus.

A Unit is one Verus file.  It consists of
  * fixed specification text (spec functions, lemmas, stand-ins for dependencies),
  * items (structs, enums, constants) copied from /repo by vx on every run,
  * functions whose bodies are copied from /repo by vx on every run and to which a
    contract (requires/ensures, loop invariants, proof hints) is attached.
"""
import json, os, re, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, "build"))
VX = os.path.join(VERIF, "target", "vx", "debug", "vx")


class Fn:
    """One function under contract."""

    def __init__(self, file, path, spec="", inv=None, ls=None, le=None, lets=None, pre="", post="",
                 ret="res", fmt=False, impl=None, self_ty=None, trusted=False, name=None, attrs="",
                 subst=None, params=None, rettype=None, generics=None, optional=False, prop=None,
                 nloops=None, ensures_default=True, free=False, std=False, nopub=False, inner=""):
        self.file, self.path = file, path
        self.spec, self.inv, self.ls, self.le, self.lets = spec, inv or {}, ls or {}, le or {}, lets or {}
        self.pre, self.post, self.ret, self.fmt, self.trusted = pre, post, ret, fmt, trusted
        self.name, self.attrs, self.subst = name, attrs, subst or []
        self.params, self.rettype, self.generics = params, rettype, generics
        self.optional, self.nloops = optional, nloops
        # std: second rule set of vx; nopub/inner: the function is printed in a trait impl, after `inner`
        self.std, self.nopub, self.inner = std, nopub, inner
        # impl: header text such as "impl Foo" under which the function is printed (None: free fn)
        if impl is None and not free:
            m = re.match(r"(?:[a-z_0-9]+::)*([A-Z]\w*)(?:as[A-Z].*)?::\w+$", path)
            if m:
                impl = "impl " + m.group(1)
        self.impl = impl
        self.key = file + "::" + path
        self.status = None      # proved | failed | undecided | absent
        self.why = ""
        self.obligations = 0

    @property
    def id(self):
        return self.key


class Section:
    """Part of a unit: an optional module with items, specification text and functions."""

    def __init__(self, mod=None, uses="", items=(), spec="", fns=(), use=""):
        self.use = use      # module-level `broadcast use` text
        self.mod, self.uses, self.items, self.spec, self.fns = mod, uses, list(items), spec, list(fns)


class Unit:
    def __init__(self, name, header="", footer="", items=(), fns=(), rlimit=30,
                 extra_args=(), item_subst=None, sections=None):
        self.name, self.header, self.footer = name, header, footer
        self.sections = sections if sections is not None else [Section(items=items, fns=fns)]
        self.rlimit, self.extra_args = rlimit, list(extra_args)
        self.item_subst = item_subst or {}
        self.result = None
        self.item_errors = []
        self.stray = []

    @property
    def items(self):
        return [i for s in self.sections for i in s.items]

    @property
    def fns(self):
        return [f for s in self.sections for f in s.fns]


def ensure_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, "target", "vx"))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "vx"), env=env,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("vx does not build: " + r.stderr[-2000:])


def extract(reqs):
    """reqs: iterable of (file, path, fmt, std) -> dict key -> extraction."""
    items = [{"file": f, "path": p, **({"fmt": True} if m else {}), **({"std": True} if st else {}), **({"pipe": True} if st == "pipe" else {}),
              **({"inline": list(i[0])} if i else {})} for f, p, m, st, *i in dict.fromkeys(reqs)]
    r = subprocess.run([VX], input=json.dumps({"root": os.path.join(REPO, "src"), "items": items}),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("vx failed: " + r.stderr[-2000:])
    return json.loads(r.stdout)


# names Verus does not know in a function under contract: helpers and constants without a contract
UNKNOWN = re.compile(r"(?:cannot find (?:function|value)(?:, tuple struct or tuple variant)?|no (?:method|function or associated item|associated item|function, method or associated item)"
                     r"(?: named)?) `(\w+)`")

PH = re.compile(r"__vx_(let_\w+?|inv|ls|le)_(\d+) ! \(\);")


def weave(fn, ex):
    """Attach the contract of fn to the extracted text ex.  Returns (text, error)."""
    if "error" in ex:
        return None, "not extractable: " + ex["error"]
    body = ex["body"]
    want = set(fn.inv)
    n = ex["loops"]
    if not fn.trusted and (fn.nloops is not None and n != fn.nloops or want != set(range(n))):
        return None, f"loop structure changed: {n} loop(s), contract annotates {sorted(want)}"
    missing = []
    seen = set()

    def inv(m):
        return "\n" + fn.inv.get(int(m.group(1)), "") + "\n{\n"
    body = re.sub(r"\{\s*__vx_inv_(\d+) ! \(\);", inv, body)

    def rep(m):
        k, i = m.group(1), int(m.group(2))
        if k == "ls":
            return fn.ls.get(i, "")
        if k == "le":
            return fn.le.get(i, "")
        nm = k[4:]
        seen.add((nm, i))
        return fn.lets.get((nm, i), "")
    body = PH.sub(rep, body)
    for k in fn.lets:
        if k not in seen:
            missing.append(k)
    if missing:
        return None, f"anchor(s) not found: {missing}"
    if "__vx_" in body:
        return None, "unplaced annotation: " + re.search(r"__vx_\w+", body).group(0)
    for a, b in fn.subst:
        body = re.sub(a, b, body)
    if fn.pre:
        body = re.sub(r"^\s*\{", lambda m: "{\n" + fn.pre + "\n", body, count=1)
    if fn.post:     # proof after the body's evaluation (unit-returning functions)
        body = re.sub(r"\}\s*$", lambda m: "\n" + fn.post + "\n}", body, count=1)
    params = fn.params if fn.params is not None else ex["params"]
    ret = fn.rettype if fn.rettype is not None else ex["ret"]
    gen = fn.generics if fn.generics is not None else ex.get("generics", "")
    name = fn.name or ex["name"]
    head = f"{'' if fn.nopub else 'pub '}fn {name}{gen}({params})"
    if ret.strip() and ret.strip() != "()":
        head += f" -> ({fn.ret}: {ret})"
    return (head, body), None


def clean_item(t):
    t = re.sub(r"#\s*\[[^\]]*\]", "", t)
    return t


def compose(unit, ex, force_trusted=(), guard=None):
    """Returns (text, linemap).  linemap: list of (first,last,fn).
    guard: key of a fn whose body gets `assert(false)` at its start (vacuity check)."""
    out = [unit.header]
    line = unit.header.count("\n") + 1
    lm = []

    def emit(t):
        nonlocal line
        out.append(t)
        line += t.count("\n") + 1
    for sec in unit.sections:
        if sec.mod:
            emit(f"pub mod {sec.mod} {{\nuse super::*;\nuse vstd::prelude::*;\n{sec.uses}")
        emit("verus! {" + sec.use)
        for f, p in sec.items:
            k = f + "::" + p
            e = ex.get(k, {"error": "missing"})
            if "error" in e:
                unit.item_errors.append((k, e["error"]))
                continue
            t = clean_item(e["item"])
            if k in unit.item_subst:
                t = unit.item_subst[k](t)
            lo = line
            emit(t)
            lm.append((lo, line - 1, ("item", k)))
        emit("}")
        emit(sec.spec)
        emit("verus! {")
        for fn in sec.fns:
            emit_fn(fn, ex, force_trusted, guard, emit, lm, lambda: line)
        emit("}")
        if sec.mod:
            emit("}")
    emit(unit.footer)
    emit("fn main() {}")
    return "\n".join(out), lm


def emit_fn(fn, ex, force_trusted, guard, emit, lm, cur):
    woven, err = weave(fn, ex[fn.key])
    trusted = fn.trusted or fn.key in force_trusted or err
    if err:
        fn.status, fn.why = "undecided", err
        e = ex[fn.key]
        if "error" in e:
            if fn.params is None:
                fn.status = "absent"
                return
            head = f"{'' if fn.nopub else 'pub '}fn {fn.name or fn.path.split('::')[-1]}{fn.generics or ''}({fn.params})"
            if fn.rettype:
                head += f" -> ({fn.ret}: {fn.rettype})"
        else:
            f2 = Fn(fn.file, fn.path, ret=fn.ret, name=fn.name, params=fn.params, rettype=fn.rettype, nopub=fn.nopub,
                    generics=fn.generics, inv={i: "" for i in range(e["loops"])})
            (head, _), _ = weave(f2, e)
        body = "{ unimplemented!() }"
    else:
        head, body = woven
        if trusted:
            body = "{ unimplemented!() }"
        elif guard == fn.key:
            body = re.sub(r"^\s*\{", "{ proof { assert(false); }\n", body, count=1)
    lo = cur()
    t = ("#[verifier::external_body]\n" if trusted else "") + fn.attrs + head + "\n" + fn.spec + "\n" + body
    if fn.impl:
        t = fn.impl + " {\n" + fn.inner + "\n" + t + "\n}"
    emit(t)
    lm.append((lo, cur() - 1, ("fn", fn)))


def run_verus(path, rlimit, extra=(), timeout=600, threads=8):
    cmd = ["verus", path, "--edition=2024", "--output-json", "--time-expanded", f"--rlimit={rlimit}",
           f"--num-threads={threads}", "--multiple-errors=4", *extra, "--", "--error-format=json"]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"cmd": cmd, "timeout": True, "wall": time.time() - t, "diags": [], "json": None, "stderr": ""}
    try:
        js = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception:
        js = None
    diags = []
    other = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
                if d.get("level") in ("error",):
                    diags.append(d)
                continue
            except Exception:
                pass
        other.append(l)
    return {"cmd": cmd, "wall": time.time() - t, "diags": diags, "json": js, "rc": r.returncode,
            "stderr": "\n".join(other), "stdout": r.stdout if js is None else ""}


OBL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
       "assertion failed", "possible arithmetic", "possible division", "decreases not satisfied",
       "possible bit shift", "recommendation not met", "could not prove termination",
       "unreachable", "loop invariant", "bitvector assertion", "failed this")


def classify(msg):
    m = msg.lower()
    if "resource limit" in m or "rlimit" in m or "timed out" in m:
        return "rlimit"
    if any(o in m for o in OBL) or "not satisfied" in m or "assertion" in m or "possible " in m or "invariant" in m:
        return "obligation"
    return "compile"


def diag_lines(d):
    spans = list(d.get("spans", []))
    prim = [s for s in spans if s.get("is_primary")] or spans
    res = [s["line_start"] for s in prim] + [s["line_start"] for s in spans if s not in prim]
    return res


def discharge(unit, guards=True, log=None):
    """Run Verus on the unit built from the current tree.  Sets fn.status for every fn."""
    os.makedirs(BUILD, exist_ok=True)
    unit.item_errors = []
    ex = extract([(f, p, False, False) for f, p in unit.items] + [(f.file, f.path, f.fmt, f.std) for f in unit.fns])
    # one extraction mode per key is enough: fmt is a property of the Fn
    force = set()
    path = os.path.join(BUILD, unit.name + ".rs")
    t0 = time.time()
    runs = []
    failures = []
    fatal = None
    reasons = {}
    helpers = {}
    # a contract whose anchors are gone: perhaps they moved into a helper
    own = {f.path.split("::")[-1] for f in unit.fns} | {f.name for f in unit.fns if f.name}
    for f in unit.fns:
        k = f.file + "::" + f.path
        if f.trusted or k not in ex or "error" in ex[k] or weave(f, ex[k])[1] is None:
            continue
        names = {c.lstrip(".").split("::")[-1] for c in ex[k].get("calls", [])} - own | {"&mut"}
        if names:
            e = extract([(f.file, f.path, f.fmt, f.std, tuple(sorted(names)))])[k]
            if "error" not in e and e != ex[k] and weave(f, e)[1] is None:
                ex[k], helpers[f.key] = e, names
    for attempt in range(12):
        unit.item_errors = []
        text, lm = compose(unit, ex, force)
        open(path, "w").write(text)
        r = run_verus(path, unit.rlimit, unit.extra_args)
        runs.append(r)
        if r.get("timeout"):
            fatal = "verus timed out"
            break
        bad = {}
        fails = []
        stray = []
        for d in r["diags"]:
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            # an error with a rustc code (E0277, ...) is about typing, never a proof obligation
            kind = "compile" if (d.get("code") or {}).get("code") else classify(msg)
            owner = None
            for ln in diag_lines(d):
                for lo, hi, o in lm:
                    if lo <= ln <= hi and o[0] == "fn":
                        owner = o[1]
                        break
                if owner:
                    break
            if kind == "compile" or owner is None:
                if owner is not None and owner.key not in force:
                    bad[owner.key] = msg + " | " + d.get("rendered", "")[:700]
                else:
                    stray.append((kind, msg, d.get("rendered", "")[:600]))
            else:
                fails.append((kind, msg, owner, d.get("rendered", "")))
        vr = (r["json"] or {}).get("verification-results", {})
        compile_failed = vr.get("encountered-vir-error") or r["json"] is None or (not vr.get("success") and vr.get("verified") is None) \
            or (bad and not fails) or (stray and not fails and not vr.get("verified"))
        if bad:
            # a name without a contract: put the body of the helper in its place, once
            again = False
            for f in unit.fns:
                new = {m.group(1) for d in r["diags"] for m in [UNKNOWN.search(d["message"])] if m
                       and any(lo <= ln <= hi and o[0] == "fn" and o[1] is f for ln in diag_lines(d)[:1] for lo, hi, o in lm)}
                if f.key in bad and not new and f.key not in helpers:
                    new = {c.lstrip(".").split("::")[-1] for c in ex[f.file + "::" + f.path].get("calls", [])} - own | {"&mut"}
                if f.key in bad and not f.trusted and new - helpers.get(f.key, set()) and len(helpers.get(f.key, ())) < 12:
                    helpers[f.key] = helpers.get(f.key, set()) | new
                    e = extract([(f.file, f.path, f.fmt, f.std, tuple(sorted(helpers[f.key])))])[f.file + "::" + f.path]
                    if "error" not in e and e != ex.get(f.file + "::" + f.path):
                        ex[f.file + "::" + f.path] = e
                        del bad[f.key]
                        again = True
            if again and not bad:
                continue
            force |= set(bad)
            reasons.update(bad)
            continue
        if stray and compile_failed:
            fatal = "specification does not fit the current source: " + stray[0][1]
            unit.stray = stray
            break
        failures = fails
        unit.stray = stray
        if stray and not fails:
            fatal = "unattributed: " + stray[0][1] + "\n" + stray[0][2]
        if r["json"] is None and not fails:
            fatal = "verus gave no result: " + (r["stderr"] or r["stdout"])[-800:]
        break
    else:
        fatal = "the composed unit does not compile"
    res = {"unit": unit.name, "wall": time.time() - t0, "fatal": fatal, "file": path,
           "cmd": " ".join(runs[-1]["cmd"]) if runs else "", "verified": 0, "errors": 0, "smt_ms": 0,
           "stderr": runs[-1].get("stderr", "")[-2000:] if runs else ""}
    js = runs[-1].get("json") if runs else None
    if js:
        vr = js.get("verification-results", {})
        res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        tm = js.get("times-ms", {})
        res["smt_ms"] = (tm.get("smt") or {}).get("total", 0) if isinstance(tm.get("smt"), dict) else tm.get("total", 0)
    for fn in unit.fns:
        if fn.trusted or fn.status in ("absent",):
            continue
        if fn.key in reasons:
            fn.status, fn.why = "undecided", "outside the verifier's reach: " + reasons[fn.key]
        elif fn.status == "undecided":
            pass
        elif fatal:
            fn.status, fn.why = "undecided", fatal
        else:
            fn.status = "proved"
    res["failures"] = []
    for kind, msg, fn, rendered in failures:
        if kind == "rlimit":
            if fn.status != "failed":
                fn.status, fn.why = "undecided", "solver resource limit"
        else:
            fn.status, fn.why = "failed", msg
            res["failures"].append({"fn": fn.key, "obligation": msg, "detail": rendered})
    unit.result = res
    unit.ex = ex
    return res


def vacuity(unit, keys=None):
    """Every function must fail when `assert(false)` is put at its start: otherwise its
    precondition (or the axioms) would be contradictory.  Returns list of vacuous fns."""
    out = []
    text_path = os.path.join(BUILD, unit.name + "_vac.rs")
    # all guards at once: each function must report at least one failing assertion
    unit.item_errors = []
    fns = [f for f in unit.fns if f.status == "proved" and (keys is None or f.key in keys)]
    saved = {f.key: f.pre for f in fns}
    for f in fns:
        f.pre = "proof { assert(false); }\n" + f.pre
    force = {f.key for f in unit.fns if f.status != "proved" and not f.trusted}
    text, lm = compose(unit, unit.ex, force)
    for f in fns:
        f.pre = saved[f.key]
    open(text_path, "w").write(text)
    r = run_verus(text_path, unit.rlimit, unit.extra_args)
    hit = set()
    for d in r["diags"]:
        for ln in diag_lines(d):
            for lo, hi, o in lm:
                if lo <= ln <= hi and o[0] == "fn":
                    hit.add(o[1].key)
    return [f.key for f in fns if f.key not in hit]
