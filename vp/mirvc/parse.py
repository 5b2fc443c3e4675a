"""Reads rustc's textual MIR (-Zunpretty=mir) into a small AST. Nothing is dropped: a construct that is not
understood stays as ('raw', text) and makes the executor give up on that function."""
import re


def split_top(s, sep=","):
    """Split at top-level separators, knowing brackets, '->' and string/char literals."""
    out, depth, cur, i = [], 0, [], 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"' or (c == "b" and i + 1 < n and s[i + 1] == '"'):
            j = i + (2 if c == "b" else 1)
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1]); i = j + 1
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
            if m:
                cur.append(m.group(0)); i += len(m.group(0))
                continue
        if s.startswith("->", i) or s.startswith("=>", i):
            cur.append(s[i:i + 2]); i += 2
            continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        if c == sep and depth == 0:
            out.append("".join(cur).strip()); cur = []
        else:
            cur.append(c)
        i += 1
    last = "".join(cur).strip()
    if last or out:
        out.append(last)
    return [x for x in out if x != ""]


def match_close(s, i):
    """s[i] is an opening bracket: index of its partner."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
            i += 1
            continue
        if c == "'":
            m = re.match(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
            if m:
                i += len(m.group(0))
                continue
        if s.startswith("->", i) or s.startswith("=>", i):
            i += 2
            continue
        if c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError("unbalanced: " + s[:80])


# ---- places: (local, [proj...]); proj: ('deref',) ('field',k,ty) ('variant',name) ('index',local) ('cindex',k,fromend) ('sub',a,b,fromend)
def place(s):
    s = s.strip()
    m = re.match(r"^_(\d+)$", s)
    if m:
        return (int(m.group(1)), ())
    # trailing index
    if s.endswith("]"):
        # find the matching '[' of the last bracket
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == "]":
                d += 1
            elif s[i] == "[":
                d -= 1
                if d == 0:
                    break
        b, p = place(s[:i])
        x = s[i + 1:-1]
        m = re.match(r"^_(\d+)$", x)
        if m:
            return (b, p + (("index", int(m.group(1))),))
        m = re.match(r"^(-?)(\d+) of (\d+)$", x)
        if m:
            return (b, p + (("cindex", int(m.group(2)), m.group(1) == "-"),))
        m = re.match(r"^(\d+):(-?)(\d*)$", x)
        if m:
            return (b, p + (("sub", int(m.group(1)), int(m.group(3) or 0), m.group(2) == "-" or m.group(3) == ""),))
        raise ValueError("place " + s)
    if s.startswith("(") and match_close(s, 0) == len(s) - 1:
        x = s[1:-1].strip()
        if x.startswith("*"):
            b, p = place(x[1:])
            return (b, p + (("deref",),))
        # "P.k: T" or "P as Variant"
        m = re.match(r"^(.*) as ([\w]+)$", x)
        if m and not re.search(r"\.\d+: ", x[len(m.group(1)):]):
            try:
                b, p = place(m.group(1))
                return (b, p + (("variant", m.group(2)),))
            except ValueError:
                pass
        # field: find ".k: " at top level after the inner place
        if x.startswith("("):
            e = match_close(x, 0) + 1
        else:
            e = re.match(r"^_\d+", x).end()
        while e < len(x) and x[e] == "[":
            e = match_close(x, e) + 1
        m = re.match(r"^\.(\d+): (.*)$", x[e:], re.S)
        if m:
            b, p = place(x[:e])
            return (b, p + (("field", int(m.group(1)), m.group(2)),))
    raise ValueError("place " + s)


INT_T = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "u128": (0, 128), "usize": (0, 64),
         "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "i128": (1, 128), "isize": (1, 64)}


def unescape(t, byte=False):
    out = bytearray()
    i = 0
    while i < len(t):
        c = t[i]
        if c == "\\":
            d = t[i + 1]
            if d == "x":
                out.append(int(t[i + 2:i + 4], 16)); i += 4
            elif d == "u":
                e = t.index("}", i)
                out += chr(int(t[i + 3:e], 16)).encode(); i = e + 1
            else:
                out += {"n": b"\n", "t": b"\t", "r": b"\r", "0": b"\0", "\\": b"\\", '"': b'"', "'": b"'"}[d]; i += 2
        else:
            out += c.encode(); i += 1
    return bytes(out)


def const(s):
    s = s.strip()
    m = re.match(r"^(-?\d+)_(\w+)$", s)
    if m and m.group(2) in INT_T:
        return ("int", int(m.group(1)), m.group(2))
    m = re.match(r"^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)::(MIN|MAX)$", s) or \
        re.match(r"^core::num::<impl (\w+)>::(MIN|MAX)$", s)
    if m and m.group(1) in INT_T:
        sg, w = INT_T[m.group(1)]
        v = {(0, "MIN"): 0, (0, "MAX"): 2 ** w - 1, (1, "MIN"): -2 ** (w - 1), (1, "MAX"): 2 ** (w - 1) - 1}[(sg, m.group(2))]
        return ("int", v, m.group(1))
    if s in ("true", "false"):
        return ("bool", s == "true")
    if s == "()":
        return ("unit",)
    m = re.match(r"^'(.*)'$", s, re.S)
    if m:
        return ("char", ord(unescape(m.group(1)).decode()))
    m = re.match(r'^"(.*)"$', s, re.S)
    if m:
        return ("str", unescape(m.group(1)))
    m = re.match(r'^b"(.*)"$', s, re.S)
    if m:
        return ("bytes", unescape(m.group(1)))
    return ("path", s)


def operand(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    if s.startswith("copy "):
        return ("copy", place(s[5:]))
    if s.startswith("move "):
        return ("move", place(s[5:]))
    if s.startswith("const "):
        return ("const", const(s[6:]))
    if re.match(r"^[\w:<>{}#@ ,&'\[\].()-]+$", s) and not s.startswith("_"):
        return ("const", const(s))
    raise ValueError("operand " + s)


BIN = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr",
       "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked", "ShlUnchecked", "ShrUnchecked", "Cmp", "Offset"}


def rvalue(s):
    s = s.strip()
    if s.startswith("&raw "):
        return ("raw", s)
    if s.startswith("&mut "):
        return ("refmut", place(s[5:]))
    if s.startswith("&fake "):
        return ("nop",)
    if s.startswith("&"):
        return ("ref", place(s[1:]))
    m = re.match(r"^(\w+)\((.*)\)$", s, re.S)
    if m:
        f, a = m.group(1), m.group(2)
        if f in BIN:
            x, y = split_top(a)
            return ("bin", f, operand(x), operand(y))
        if f in ("Not", "Neg"):
            return ("un", f, operand(a))
        if f == "PtrMetadata":
            return ("meta", operand(a))
        if f == "Len":
            return ("len", place(a))
        if f == "discriminant":
            return ("discr", place(a))
        if f == "deref_copy":
            return ("use", ("copy", place(a)))
    if s.startswith("deref_copy "):
        return ("use", ("copy", place(s[11:])))
    m = re.match(r"^(.*) as (.*) \((\w+(?:\(.*\))?)\)$", s, re.S)
    if m and (s.startswith(("copy ", "move ", "const ")) or True):
        try:
            return ("cast", operand(m.group(1)), m.group(2), m.group(3))
        except ValueError:
            pass
    if s.startswith(("copy ", "move ", "const ", "no_retag ")):
        return ("use", operand(s))
    if s.startswith("["):
        x = s[1:-1]
        m = re.match(r"^(.*); (\w+|const .*)$", x, re.S)
        if m and len(split_top(x, ";")) == 2:
            return ("repeat", operand(m.group(1)), m.group(2))
        return ("array", [operand(y) for y in split_top(x)])
    if s.startswith("("):
        return ("tuple", [operand(y) for y in split_top(s[1:-1])])
    if s.startswith("{closure@"):
        e = match_close(s, 0) + 1
        rest = s[e:].strip()
        ops = []
        if rest.startswith("{"):
            ops = [(y.split(":", 1)[0].strip(), operand(y.split(":", 1)[1])) for y in split_top(rest[1:-1])]
        return ("closure", s[:e], ops)
    # aggregates: Path { f: op } | Path(op..) | Path
    if s.endswith("}"):
        i = top_brace(s)
        if i is not None:
            fs = []
            for y in split_top(s[i + 1:-1]):
                k, v = y.split(":", 1)
                fs.append((k.strip(), operand(v)))
            return ("struct", s[:i].strip(), fs)
    if s.endswith(")"):
        i = last_open(s)
        return ("ctor", s[:i].strip(), [operand(y) for y in split_top(s[i + 1:-1])])
    if re.match(r"^[\w:<>&' ,\[\]();@#{}.-]+$", s):
        return ("ctor", s, [])
    raise ValueError("rvalue " + s)


def top_brace(s):
    """Index of the '{' that matches the final '}'."""
    d = 0
    for i in range(len(s)):
        pass
    i = 0
    n = len(s)
    while i < n:
        if s[i] in "([<":
            i = match_close(s, i) + 1
            continue
        if s[i] == "{":
            j = match_close(s, i)
            if j == n - 1:
                return i
            i = j + 1
            continue
        i += 1
    return None


def last_open(s):
    """Index of the '(' that matches the final ')'."""
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("->", i):
            i += 2
            continue
        if c in "([{<":
            j = match_close(s, i)
            if j == n - 1 and c == "(":
                return i
            i = j + 1
            continue
        i += 1
    raise ValueError("no call: " + s[:100])


class Fn:
    def __init__(self, name, args, ret):
        self.name, self.args, self.ret = name, args, ret
        self.types = {}
        self.names = {}
        self.blocks = {}
        self.closure_of = {}   # local -> closure path
        self.cleanup = set()
        self.raw = []


def parse_mir(text, verbose=None):
    lines = text.split("\n")
    vl = verbose.split("\n") if verbose else None
    if vl is not None and len(vl) != len(lines):
        vl = None
    fns, consts = {}, {}
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        m = re.match(r"^(?:const |static )?(fn )?(.*) (?:=|->.*) ?\{$", l) if (l and not l.startswith((" ", "}", "//"))) else None
        if l.startswith("fn ") or re.match(r"^(pub )?(unsafe )?(const )?fn ", l):
            h = l[l.index("fn ") + 3:]
            # NAME(args) -> RET {   where NAME may contain brackets
            h = h.rstrip(" {")
            k = 0
            while h[k] != "(":
                if h[k] in "<[{":
                    k = match_close(h, k) + 1
                else:
                    k += 1
            e = match_close(h, k)
            name = h[:k]
            args = [a.split(": ", 1) for a in split_top(h[k + 1:e])]
            ret = h[e + 1:].replace("->", "", 1).strip()
            f = Fn(name, [(int(a[0][1:]), a[1]) for a in args], ret)
            for a in f.args:
                f.types[a[0]] = a[1]
            i = body(lines, vl, i + 1, f)
            k2 = f.name
            c = 2
            while k2 in fns:
                k2 = f"{f.name}#{c}"; c += 1
            fns[k2] = f
            continue
        m = re.match(r"^(?:const|static|promoted\[\d+\] in)\b(.*?): (.*) = \{$", l) or re.match(r"^const (.*): (.*) = \{$", l) or \
            re.match(r"^(promoted\[\d+\] in .*): (.*) = \{$", l)
        if m:
            f = Fn(l.split(": ")[0] if not l.startswith("const ") else m.group(1).strip(), [], m.group(2))
            name = re.sub(r"^(const|static) ", "", l[:l.rindex(" = {")])
            name = name[:_type_colon(name)].strip()
            f.name = name
            i = body(lines, vl, i + 1, f)
            consts[name] = f
            continue
        i += 1
    return fns, consts


def _type_colon(s):
    i = 0
    while i < len(s):
        if s[i] in "<([{":
            i = match_close(s, i) + 1
            continue
        if s[i] == ":" and s[i:i + 2] == ": ":
            return i
        if s.startswith("::", i):
            i += 2
            continue
        i += 1
    return len(s)


def body(lines, vl, i, f):
    cur = None
    while i < len(lines):
        l = lines[i]
        if l.startswith("}"):
            return i + 1
        t = l.strip()
        m = re.match(r"^let (?:mut )?_(\d+): (.*);$", t)
        if m:
            f.types[int(m.group(1))] = m.group(2)
            if vl is not None and "{closure@" in m.group(2) and m.group(2).startswith("{closure@"):
                mm = re.match(r"^\s*let (?:mut )?_\d+: \{(.*?\{closure#\d+\})[ }]", vl[i])
                if mm:
                    f.closure_of[int(m.group(1))] = mm.group(1)
            i += 1
            continue
        m = re.match(r"^debug (.*) => (.*);$", t)
        if m:
            f.names.setdefault(m.group(2), m.group(1))
            i += 1
            continue
        m = re.match(r"^bb(\d+)( \(cleanup\))?: \{$", t)
        if m:
            cur = int(m.group(1))
            f.blocks[cur] = []
            if m.group(2):
                f.cleanup.add(cur)
            i += 1
            continue
        if t == "}" or t == "" or t.startswith("scope ") or t.startswith("//"):
            i += 1
            continue
        if cur is not None:
            st = t
            # statements can span lines only inside string constants with newlines (escaped by rustc), so one line = one statement
            f.blocks[cur].append((st, vl[i].strip() if vl is not None else None))
        i += 1
    return i


TGT = re.compile(r" -> \[return: bb(\d+), unwind.*\];$|-> \[return: bb(\d+)\];$")


def stmt(st):
    """One statement or terminator."""
    t = st
    m = re.match(r"^Storage(Dead|Live)\(_(\d+)\);$", t)
    if m:
        return ("dead", int(m.group(2)))
    if t.startswith(("nop;", "PlaceMention", "FakeRead", "AscribeUserType", "ConstEvalCounter", "Coverage")):
        return ("nop",)
    m = re.match(r"^goto -> bb(\d+);$", t)
    if m:
        return ("goto", int(m.group(1)))
    if t == "return;":
        return ("return",)
    if t.startswith("unreachable"):
        return ("unreachable",)
    if t.startswith(("resume", "terminate", "abort")):
        return ("resume",)
    m = re.match(r"^switchInt\((.*)\) -> \[(.*)\];$", t)
    if m:
        arms, other = [], None
        for x in m.group(2).split(", "):
            k, b = x.rsplit(": bb", 1)
            if k == "otherwise":
                other = int(b)
            else:
                arms.append((int(re.sub(r"_.*", "", k)) if not k.startswith("'") else ord(k[1]), int(b)))
        return ("switch", operand(m.group(1)), arms, other)
    m = re.match(r"^drop\((.*)\) -> \[return: bb(\d+).*\];$", t)
    if m:
        return ("goto", int(m.group(2)))
    m = re.match(r"^assert\((.*)\) -> \[success: bb(\d+).*\];$", t)
    if m:
        a = split_top(m.group(1))
        neg = a[0].startswith("!")
        return ("assert", operand(a[0].lstrip("!")), neg, a[1], int(m.group(2)))
    m = re.match(r"^discriminant\((.*)\) = (\d+);$", t)
    if m:
        return ("setdiscr", place(m.group(1)), int(m.group(2)))
    m = re.match(r"^(.*?) = (.*) -> (\[return: bb(\d+), unwind.*\]|\[return: bb(\d+)\]|unwind.*|bb\d+);$", t)
    if m and not t.startswith("assert"):
        dst = place(m.group(1))
        call = m.group(2)
        i = last_open(call)
        ret = m.group(4) or m.group(5)
        return ("call", dst, call[:i].strip(), [operand(x) for x in split_top(call[i + 1:-1])], int(ret) if ret else None)
    m = re.match(r"^(\(?.*?\)?) = (.*);$", t)
    if m:
        # the place is everything up to the first top-level " = "
        k = eq_index(t)
        return ("assign", place(t[:k]), rvalue(t[k + 3:-1]))
    return ("unknown", t)


def eq_index(t):
    i = 0
    while i < len(t):
        if t[i] in "([":
            i = match_close(t, i) + 1
            continue
        if t.startswith(" = ", i):
            return i
        i += 1
    raise ValueError(t)
