"""Reads the MIR of a crate and knows which impl belongs to which type."""
import re, sys, os
import parse as P

sys.setrecursionlimit(100000)


def short(t):
    """The names of std's common types without their paths (rustc writes them only where a name is ambiguous)."""
    t = re.sub(r"\b(?:std|alloc|core)::(?:string|option|result|vec|boxed|borrow)::(String|Option|Result|Vec|Box|Cow)\b", r"\1", t)
    return t


class Crate:
    def __init__(self, src_text, mir, mirv):
        mir, mirv = short(mir), short(mirv)
        self.fns, self.consts = P.parse_mir(mir, mirv)
        self.lines = src_text.split("\n")
        self.impls = {}
        self.statics = {}
        for a, n in re.findall(r'^(alloc\d+) \(static: ([\w:]+)', mir, re.M): self.statics.setdefault(a, set()).add(n)
        self.visit = {}
        for k, f in self.fns.items():
            m = re.match(r"^<impl at src/lib\.rs:(\d+):\d+: \d+:\d+>::(\w+)$", k)
            if m:
                t = self.type_at(int(m.group(1)))
                if t: self.impls[(t, m.group(2))] = k
                continue
            m = re.match(r"^(.*)::deserialize::<impl at src/lib\.rs:(\d+):\d+: \d+:\d+>::(\w+)$", k)
            if m:
                t = self.type_at(int(m.group(2)))
                if t: self.visit[(t, m.group(3))] = k

    def type_at(self, l):
        for i in range(l - 1, min(l + 6, len(self.lines))):
            m = re.match(r"^pub (?:struct|enum) (\w+)", self.lines[i])
            if m: return m.group(1)
        return None

    def text_of(self, key):
        """Fingerprint of a function and what is nested in it."""
        f = self.fns[key]
        return str([(b, [s for s, _ in ss]) for b, ss in f.blocks.items()]) + str(f.args) + str(f.types)
