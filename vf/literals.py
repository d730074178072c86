"""Literals of the source that the tree the contracts were written for did not have: a fuzzing dictionary for the
bounded search (a change that acts on one particular number, length or name mentions it somewhere).
spec/literals.json holds the literals of that tree; it is an optimisation only and decides nothing."""
import collections, json, os, re
from .core import REPO, VERIF

BASE = os.path.join(VERIF, "spec", "literals.json")
TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|b?"((?:[^"\\]|\\.)*)"|b?'(?:[^'\\]|\\.)'|(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)|\b([iu](?:8|16|32|64|size)::(?:MAX|MIN|BITS))\b""", re.S)


def of(text):
    ints, strs = collections.Counter(), collections.Counter()
    for m in TOK.finditer(text):
        if m.group(2):
            try:
                ints[int(m.group(2).replace("_", ""), 0)] += 1
            except ValueError:
                try:
                    ints[int(m.group(2).replace("_", ""))] += 1
                except ValueError:
                    pass
        elif m.group(3):
            t, w = m.group(3).split("::")
            bits = 64 if t[1:] == "size" else int(t[1:])
            ints[bits if w == "BITS" else 0 if (t[0], w) == ("u", "MIN") else (1 << bits - (t[0] == "i")) - (w == "MAX")] += 1
        elif m.group(1) is not None and len(m.group(1)) < 60:
            strs[m.group(1)] += 1
    return ints, strs


def scan():
    out = {}
    root = os.path.join(REPO, "src")
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                try:
                    i, s = of(open(p, encoding="utf-8", errors="replace").read())
                except OSError:
                    continue
                out[os.path.relpath(p, root)] = {"ints": {str(k): v for k, v in sorted(i.items())}, "strs": dict(sorted(s.items()))}
    return out


def novel():
    try:
        base = json.load(open(BASE))
    except (OSError, ValueError):
        return {"ints": [], "strs": []}
    ints, strs = set(), set()
    for f, now in scan().items():
        old = base.get(f, {"ints": {}, "strs": {}})
        ints |= {int(k) for k, n in now["ints"].items() if n > old["ints"].get(k, 0)}
        strs |= {k for k, n in now["strs"].items() if n > old["strs"].get(k, 0)}
    ints |= {1 << k for k in list(ints) if 6 < k < 64} | {a * b for a in ints for b in ints if 1 < a <= b < 1 << 16}
    return {"ints": sorted(x for x in ints if x < 1 << 64)[:60], "strs": sorted(strs)[:40]}


if __name__ == "__main__":
    json.dump(scan(), open(BASE, "w"), sort_keys=True, separators=(",", ":"))
