"""Forward dataflow analysis over the dumped MIR.

The abstract state at a program point is a finite set of partitions; each maps
memory locations to value terms (terms.py) and carries the linear/literal facts
known there.  Blocks are visited in reverse post-order, partitions that agree
are joined, loops are widened to a fixpoint (every location the body changes
becomes a loop variable) and then summarised in closed form.  No execution, no
path search: every block of a function is visited once per incoming partition.
"""
import re, sys, time
from terms import *
import terms as T

sys.setrecursionlimit(20000)


UNTUPLED = {}


KEYS = {}


def map_key(k):
    """the key as it was stored: maps are searched by what their keys stand for"""
    if k in KEYS:
        return KEYS[k]
    return mk("vec", k) if isT(k) and k.op == "seq" else k


class OutOfTime(Exception):
    pass


class Lim(Exception):
    """construct outside the domain"""


UNDEF = mk("undef")
UNIT = mk("agg", 0)
PV = mk("pv")
PB = mk("pb")


def pf(v, i, ty):
    return mk("pf", v, i, ty)


def pi(i, ety):
    return mk("pi", i, ety)


def agg(v, *a):
    return mk("agg", v, *a)


NONE = agg(0)


def some(x):
    return agg(1, x)


def ok(x):
    return agg(0, x)


def err(x):
    return agg(1, x)


QUIET = ("ureq::Response::", "ureq::Error", "ureq::Transport", "ureq::Request::set", "ureq::Request::query", "ureq::Request::timeout",
         "ureq::Agent::new", "ureq::AgentBuilder", "ureq::agent", "ureq::builder", "ureq::serde_json", "ureq::json", "ureq::Request::url",
         "ureq::Request::method", "ureq::Request::header", "ureq::Request::has", "ureq::request")


def maysend(name):
    """a call into the HTTP library that is not known to be only a builder or a reader"""
    name = name[name.index("ureq::"):]
    return not name.startswith(QUIET) and " as " not in name


class St:
    __slots__ = ("mem", "facts")

    def __init__(self, mem, facts):
        self.mem = mem
        self.facts = facts

    def fork(self):
        return St(dict(self.mem), self.facts)

    def with_(self, lit):
        f = self.facts.add(lit)
        if f is None:
            return None
        return St(dict(self.mem), f)


class Out:
    __slots__ = ("kind", "st", "val", "info")

    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info


class Loc:
    __slots__ = ("root", "path", "start", "n", "ty", "dyn")

    def __init__(self, root, path, ty, start=None, n=None, dyn=None):
        self.root, self.path, self.ty, self.start, self.n, self.dyn = root, path, ty, start, n, dyn


class Frame:
    __slots__ = ("id", "fn", "fid")

    def __init__(self, id, fn, fid):
        self.id, self.fn, self.fid = id, fn, fid


# ------------------------------------------------------------------ CFG facts
class Cfg:
    def __init__(self, f):
        bbs = f["bbs"]
        n = len(bbs)
        self.succ = [self._succ(b["t"]) for b in bbs]
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        self.irred = False
        for b in order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    if dom(s, b):
                        body = self.loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st += pred[x]
                    else:
                        self.irred = True
        # liveness of whole locals
        use, df = [None] * n, [None] * n
        for b in order:
            u, d = set(), set()

            def pl(p, u=u, d=d):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def op(o):
                if o[0] in ("cp", "mv"):
                    pl(o[1])

            def wr(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    pl(p)
            for s in bbs[b]["s"]:
                if s[0] == "=":
                    self._rv(s[2], pl, op)
                    wr(s[1])
                elif s[0] == "sd":
                    pl(s[1])
                elif s[0] == "assume":
                    op(s[1])
            t = bbs[b]["t"]
            if t[0] == "switch":
                op(t[1])
            elif t[0] == "assert":
                op(t[1])
            elif t[0] == "call":
                for o in t[2]:
                    op(o)
                if t[5] and t[5][0] in ("cp", "mv"):
                    op(t[5])
                wr(t[3])
            elif t[0] == "ret":
                u.add(0) if 0 not in d else None
            use[b], df[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = use[b] | (o - df[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live

    @staticmethod
    def _rv(r, pl, op):
        k = r[0]
        if k in ("ref", "discr", "len"):
            pl(r[1])
        elif k in ("use", "rep"):
            op(r[1])
        elif k in ("bin", "chk"):
            op(r[2])
            op(r[3])
        elif k in ("un", "cast"):
            op(r[2])
        elif k == "agg":
            for o in r[2]:
                op(o)

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return list(dict.fromkeys(r))
        if k == "assert":
            return [t[4]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []


# ------------------------------------------------------------------ integer operators
def fits(t, ty, facts=None):
    r = ty_range(ty)
    if r is None:
        return True
    if isinstance(t, int):
        return r[0] <= t <= r[1]
    x = rng(t)
    if x and x[0] >= r[0] and x[1] <= r[1]:
        return True
    if facts is not None:
        return facts.ent(le(r[0], t)) and facts.ent(le(t, r[1]))
    return False


def wrapi(v, ty):
    r = ty_range(ty)
    if r is None:
        return v
    m = r[1] - r[0] + 1
    return (v - r[0]) % m + r[0]


def wrap(t, ty, facts=None):
    if isinstance(t, int):
        return wrapi(t, ty)
    if fits(t, ty, facts):
        return t
    if t.op == "wrap":
        inner = t.a[1]
        ri, ro = ty_range(t.a[0]), ty_range(ty)
        if ro[1] - ro[0] <= ri[1] - ri[0]:
            return wrap(inner, ty, facts)
    if ty_range(ty) == (0, 255):
        b = byte_of(t, 0)
        if b is not None:
            return b
    return mk("wrap", ty, t)


def byte_of(t, sh):
    """the byte (t >> sh) & 255 of a value filling an unsigned type"""
    if not isT(t):
        return None
    if t.op == "bin" and t.a[0] == "Div" and isinstance(t.a[2], int) and pow2(t.a[2]):
        return byte_of(t.a[1], sh + t.a[2].bit_length() - 1)
    if t.op in ("+", "wrap", "bin"):
        return None
    r = rng(t)
    for w in (2, 4, 8, 16):
        if r == (0, (1 << (8 * w)) - 1) and sh % 8 == 0 and sh < 8 * w:
            return T._byte(w, t, w - 1 - sh // 8)
    return None


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def tz(t):
    """largest k such that 2^k divides the term"""
    c, d = lin(t)
    ks = [(x & -x).bit_length() - 1 for x in list(d.values()) + ([c] if c else []) if x]
    return min(ks) if ks else 200


BOOLOPS = ("le", "eq", "not", "isv", "eqv", "dynis", "pred", "all", "b")


def isbool(t):
    return isinstance(t, int) or t.op in BOOLOPS


def binop(op, x, y, ty, facts=None):
    """value of x op y at (operand) type ty, without overflow reporting"""
    if op.endswith("Unchecked"):
        op = op[:-9]
    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        if isT(x) and x.op in ("agg", "ref", "sref", "undef") or isT(y) and y.op in ("agg", "ref", "sref", "undef"):
            return mk("pred", "ptrcmp", op, x, y)
        if op == "Eq":
            return eqi(x, y)
        if op == "Ne":
            return neg(eqi(x, y))
        if op == "Lt":
            return lt(x, y)
        if op == "Le":
            return le(x, y)
        if op == "Gt":
            return lt(y, x)
        return le(y, x)
    tk = tinfo(ty)["k"]
    if op == "Add":
        return wrap(add(x, y), ty, facts)
    if op == "Sub":
        return wrap(sub(x, y), ty, facts)
    if op == "Mul":
        r = mul(x, y)
        if r is not None:
            return wrap(r, ty, facts)
        if x.id > y.id:
            x, y = y, x
        return mk("bin", op, x, y, ty)
    if isinstance(x, int) and isinstance(y, int):
        b = tinfo(ty).get("bits", 8)
        if op == "BitAnd":
            return x & y
        if op == "BitOr":
            return x | y
        if op == "BitXor":
            return x ^ y
        if op == "Shl":
            return wrapi(x << (y % b), ty)
        if op == "Shr":
            return x >> (y % b)
        if op in ("Div", "Rem"):
            if y == 0:
                raise Lim("div by zero")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if op == "Div" else x - q * y
    if tk == "bool" or (isT(x) and x.op in BOOLOPS) or (isT(y) and y.op in BOOLOPS and op != "Shl"):
        if op == "BitAnd":
            if x == 0 or y == 0:
                return 0
            if x == 1:
                return y
            if y == 1:
                return x
            if x is y:
                return x
            return mk("pred", "and", *sorted((x, y), key=lambda t: t.id))
        if op == "BitOr":
            if x == 1 or y == 1:
                return 1
            if x == 0:
                return y
            if y == 0:
                return x
            if x is y:
                return x
            return neg(mk("pred", "and", *sorted((neg(x), neg(y)), key=lambda t: t.id)))
        if op == "BitXor":
            if y == 1:
                return neg(x)
            if x == 1:
                return neg(y)
            if y == 0:
                return x
            if x == 0:
                return y
    rx, ry = rng(x), rng(y)
    nonneg = rx and rx[0] >= 0
    if not nonneg and op in ("Shr", "Div", "Rem", "BitAnd") and isinstance(y, int) and facts is not None and isT(x) and rx and facts.ent(le(0, x)):
        nonneg = True
    if op == "Shl" and isinstance(y, int):
        b = tinfo(ty).get("bits", 8)
        return wrap(scale(x, 1 << (y % b)), ty, facts)
    if op == "Shr" and isinstance(y, int) and nonneg:
        if y == 0:
            return x
        return divp(x, 1 << y, ty)
    if op == "Div" and isinstance(y, int) and y > 0 and nonneg:
        return divp(x, y, ty)
    if op == "Rem" and isinstance(y, int) and y > 0 and nonneg:
        return remp(x, y, ty)
    if op == "BitAnd" and nonneg and ry and ry[0] >= 0:
        if isinstance(x, int):
            x, y, rx, ry = y, x, ry, rx
        if isinstance(y, int):
            if y == 0:
                return 0
            if pow2(y + 1):
                return remp(x, y + 1, ty)
            # mask of the high bits 0b1..10..0
            k = (y & -y).bit_length() - 1
            if pow2((y >> k) + 1) and rx[1] < (1 << y.bit_length()):
                return scale(divp(x, 1 << k, ty), 1 << k)
    if op in ("BitOr", "BitXor") and nonneg and ry and ry[0] >= 0:
        if y == 0:
            return x
        if x == 0:
            return y
        if tz(x) < 200 and ry[1] < (1 << tz(x)):
            return add(x, y)
        if tz(y) < 200 and rx[1] < (1 << tz(y)):
            return add(x, y)
    if op in ("BitOr", "BitXor") and facts is not None and isT(x) and isT(y):
        for u, v in ((x, y), (y, x)):
            if 0 < tz(u) < 200 and facts.ent(le(0, u)) and facts.ent(le(0, v)) and facts.ent(lt(v, 1 << tz(u))):
                return add(u, v)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if isinstance(x, int) or (isT(y) and isT(x) and x.id > y.id):
            x, y = y, x
    return mk("bin", op, x, y, ty)


def divp(x, n, ty):
    """x / n for x >= 0, n > 0"""
    if n == 1:
        return x
    if isinstance(x, int):
        return x // n
    r = rng(x)
    if r and r[0] >= 0 and r[1] < n:
        return 0
    c, d = lin(x)
    hi = {k: v for k, v in d.items() if v % n == 0}
    lo = {k: v for k, v in d.items() if v % n}
    rest = unlin(c % n, lo)
    rr = rng(rest)
    if hi and rr and rr[0] >= 0 and rr[1] < n:
        return add(unlin(c // n, {k: v // n for k, v in hi.items()}), 0)
    if isT(x) and x.op == "bin" and x.a[0] == "Div" and isinstance(x.a[2], int):
        return divp(x.a[1], n * x.a[2], ty)
    if pow2(n) and isT(x) and r and r[0] == 0 and r[1] + 1 == n << 8:
        b = byte_of(x, n.bit_length() - 1)
        if b is not None:
            return b
    return mk("bin", "Div", x, n, ty)


def remp(x, n, ty):
    if n == 1:
        return 0
    if isinstance(x, int):
        return x % n
    r = rng(x)
    if r and r[0] >= 0 and r[1] < n:
        return x
    c, d = lin(x)
    lo = {k: v for k, v in d.items() if v % n}
    rest = unlin(c % n, lo)
    rr = rng(rest)
    if rr and rr[0] >= 0 and rr[1] < n:
        return rest
    if isT(rest) and rr and rr[0] >= 0 and len(lo) < len(d):
        x = rest
    if n == 256:
        b = byte_of(x, 0)
        if b is not None:
            return b
    return mk("bin", "Rem", x, n, ty)


T.BINOP[0] = lambda op, a, b, ty: binop(op, a, b, ty)
T.REB["wrap"] = lambda ty, t: wrap(t, ty)


def be_int(vals, ty):
    """integer at type ty whose big-endian bytes are vals (list of int terms)"""
    w = len(vals)
    v0 = vals[0]
    if isT(v0) and v0.op == "byte" and v0.a[0] == w and v0.a[2] == 0:
        t = v0.a[1]
        if all(isT(x) and x is mk("byte", w, t, i) for i, x in enumerate(vals)):
            return wrap(t, ty)
    r = 0
    for x in vals:
        r = add(scale(r, 256), x)
    return wrap(r, ty)


def be_seq(t, w):
    if isT(t) and t.op == "wrap":
        rr = ty_range(t.a[0])
        if rr[1] - rr[0] + 1 >= 1 << (8 * w):
            t = t.a[1]
    # a linear combination of bytes in place value form is those bytes
    if isT(t):
        c, d = lin(t)
        if c == 0:
            out = []
            left = dict(d)
            for i in range(w):
                p = 1 << (8 * (w - 1 - i))
                m = [a for a, k in left.items() if k == p]
                if len(m) == 1 and (lambda r: r and r[0] >= 0 and r[1] <= 255)(rng(m[0])):
                    out.append(m[0])
                    del left[m[0]]
                elif not m:
                    out.append(0)
                else:
                    break
            if not left and len(out) == w and any(isT(x) for x in out) and (w > 1 or True):
                if not (len(d) == 1 and w > 1 and list(d.values())[0] == 1 and list(d)[0].op not in ("at", "byte")):
                    return mkseq([elem(x) for x in out])
    return mkseq([mk("be", w, t)])


def fkey(name):
    """function name without its own generic arguments"""
    if name.endswith(">"):
        d = 0
        for i in range(len(name) - 1, -1, -1):
            if name[i] == ">" and name[i - 1] != "-":
                d += 1
            elif name[i] == "<":
                d -= 1
                if d == 0:
                    return name[:i - 2] if name[i - 2:i] == "::" else name
    return name


def seqarg(v):
    """String/Vec arguments of uninterpreted functions are identified with their contents"""
    if isT(v):
        if v.op == "vec":
            return v.a[0]
        if v.op in TYPED and tyof(v) >= 0 and is_vec(tinfo(tyof(v))):
            m = mat(v)
            return m.a[0] if m.op == "vec" else v
        if v.op in TYPED and tyof(v) >= 0 and tinfo(tyof(v))["k"] == "array":
            return mat(v)
    return v


def unwrapped(v, ty):
    """an argument that wraps nothing but a byte array stands for its bytes"""
    k = tinfo(ty)
    while k["k"] == "ref":
        ty = k["e"]
        k = tinfo(ty)
    vs = k.get("v") or ()
    if k["k"] == "adt" and len(vs) == 1 and len(vs[0]["f"]) == 1 and not k.get("box") and not is_vec(k):
        ft = vs[0]["f"][0]
        ft = ft["t"] if isinstance(ft, dict) else ft[1] if isinstance(ft, (list, tuple)) else ft
        if tinfo(ft)["k"] == "array" and isT(v):
            if v.op == "agg" and len(v.a) == 2:
                return v.a[1]
            if v.op in TYPED and tyof(v) == ty:
                return mat(mk("fld", ft, v, 0, 0))
    return v


# ------------------------------------------------------------------ the interpreter
class Engine:
    def __init__(self, dump, opaque=(), prims=None):
        self.M = dump
        self.fns = dump["fns"]
        self.types = dump["types"]
        set_types(self.types)
        self.vt = {}
        for v in dump["vtables"]:
            self.vt[(v["t"], v["d"])] = v["m"]
        self.cfgs = {}
        self.fid = 0
        self.opaque = set(opaque)
        self.prims = prims or {}
        self.stack = []
        self.loopn = 0
        self.notes = {}
        self.visited = set()
        self.calls_seen = set()
        self.lims = set()
        self.truncated = False
        self.sample = 0
        self.limit = 200
        self.deadline = None
        self.steps = 0
        self.budget = 400000
        self.fresh = 0
        self.peel = 0

    # -- helpers
    def cfg(self, i):
        c = self.cfgs.get(i)
        if c is None:
            c = self.cfgs[i] = Cfg(self.fns[i])
        return c

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def newroot(self, kind="T"):
        self.fresh += 1
        return (kind, self.fresh)

    # -- memory
    def rootval(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        k = root[0]
        if k == "H":
            t = root[1]
            return self.pointee_value(t)
        if k == "C":
            return root[1]
        if k == "G":
            if not root[1].startswith("ring::"):
                return mk("call", root[2], "lim:static " + root[1])
            return mk("sym", root[2], root[1])
        return UNDEF

    def pointee_value(self, t):
        ti = tinfo(tyof(t))
        return mat_pointee(ti["e"], t)

    def step(self, v, s, facts):
        o = s.op
        if v is UNDEF:
            return UNDEF
        if o == "pf":
            if v.op == "agg":
                i = s.a[1] + 1
                return v.a[i] if i < len(v.a) else UNDEF
            if v.op in TYPED:
                return fld(v, s.a[0], s.a[1], s.a[2])
            if v.op == "vec" or v.op == "box" or v.op == "iter":
                raise Lim("field of %s" % v.op)
            raise Lim("field of %s" % v.op)
        if o == "pi":
            if v.op == "seq":
                return seq_at(v, s.a[0], s.a[1], facts)
            raise Lim("index of %s" % v.op)
        if o == "pv":
            if v.op == "vec":
                return v.a[0]
            raise Lim("buffer of %s" % v.op)
        if o == "pb":
            if v.op == "box":
                return v.a[0]
            raise Lim("box of %s" % v.op)
        if o == "pd":
            if v.op == "dynv":
                return v.a[1]
            if v.op in TYPED:
                return mat(mk("down", s.a[0], v))
            raise Lim("dyn of %s" % v.op)
        if o == "pm":
            if v.op == "hm":
                return v.a[2 + 2 * s.a[0]]
            raise Lim("entry of %s" % v.op)
        if o == "pk":
            if v.op == "hm":
                return map_key(v.a[1 + 2 * s.a[0]])
            raise Lim("key of %s" % v.op)
        raise Lim("step " + o)

    def read(self, st, root, path):
        v = self.rootval(st, root)
        for s in path:
            v = self.step(v, s, st.facts)
        return v

    def put(self, v, path, new, facts):
        if not path:
            return new
        s = path[0]
        o = s.op
        if o == "pf":
            i = s.a[1]
            if v is UNDEF:
                v = agg(s.a[0])
            if v.op in TYPED:
                e = expand(v, s.a[0])
                if e is None:
                    raise Lim("expand")
                v = e
            if v.op != "agg":
                raise Lim("put field in %s" % v.op)
            fs = list(v.a[1:])
            while len(fs) <= i:
                fs.append(UNDEF)
            fs[i] = self.put(fs[i], path[1:], new, facts)
            return mk("agg", s.a[0], *fs)
        if o == "pi":
            if v.op != "seq":
                raise Lim("put index")
            old = seq_at(v, s.a[0], s.a[1], facts) if len(path) > 1 else None
            x = self.put(old, path[1:], new, facts)
            return seq_write(v, s.a[0], mkseq([elem(x)]), facts)
        if o == "pv":
            if v.op != "vec":
                raise Lim("put buffer")
            return mk("vec", self.put(v.a[0], path[1:], new, facts))
        if o == "pb":
            if v is UNDEF:
                v = mk("box", UNDEF)
            if v.op != "box":
                raise Lim("put box")
            return mk("box", self.put(v.a[0], path[1:], new, facts))
        if o == "pd":
            if v.op == "dynv":
                return mk("dynv", v.a[0], self.put(v.a[1], path[1:], new, facts))
            if v.op in TYPED:
                return mk("dynv", s.a[0], self.put(mat(mk("down", s.a[0], v)), path[1:], new, facts))
        if o == "pm" and v.op == "hm":
            fs = list(v.a)
            fs[2 + 2 * s.a[0]] = self.put(fs[2 + 2 * s.a[0]], path[1:], new, facts)
            return mk("hm", *fs)
        raise Lim("put " + o)

    def write(self, st, root, path, new):
        if not path:
            st.mem[root] = new
            return
        st.mem[root] = self.put(self.rootval(st, root), path, new, st.facts)

    # -- places
    def loc(self, fr, place, st):
        ty = fr.fn["locals"][place[0]]
        L = Loc(("L", fr.id, place[0]), (), ty)
        var = 0
        for p in place[1:]:
            if p == "*":
                v = self.readloc(st, L)
                pt = tinfo(L.ty)
                et = pt.get("e", pt["a"][0] if pt.get("box") else -1)
                L = self.deref(v, et, L)
                var = 0
                continue
            k = p[0]
            if k == "f":
                L = Loc(L.root, L.path + (pf(var, p[1], p[2]),), p[2])
                var = 0
            elif k == "d":
                var = p[1]
            elif k in ("i", "c"):
                ety = tinfo(L.ty).get("e", -1)
                n = L.n if L.start is not None else None
                if k == "i":
                    idx = self.rootval(st, ("L", fr.id, p[1]))
                elif p[3]:
                    if n is None:
                        n = seq_len(self.read(st, L.root, L.path))
                    idx = sub(n, p[1])
                else:
                    idx = p[1]
                if L.start is not None:
                    idx = add(L.start, idx)
                L = Loc(L.root, L.path + (pi(idx, ety),), ety)
            elif k == "s":
                n = L.n if L.start is not None else seq_len(self.read(st, L.root, L.path))
                base = L.start if L.start is not None else 0
                end = sub(n, p[2]) if p[3] else p[2]
                L = Loc(L.root, L.path, L.ty, add(base, p[1]), sub(end, p[1]))
            elif k == "o":
                L = Loc(L.root, L.path, p[1], L.start, L.n)
            else:
                raise Lim("proj")
        return L, var

    def deref(self, v, et, L=None):
        if not isT(v):
            raise Lim("deref int")
        if v.op == "ref":
            return Loc(v.a[0], v.a[1], et)
        if v.op == "sref":
            return Loc(v.a[0], v.a[1], et, v.a[2], v.a[3])
        if v.op == "dref":
            return Loc(v.a[1], v.a[2], et, dyn=v.a[0])
        if v.op == "box" and L is not None:
            return Loc(L.root, L.path + (PB,), et)
        raise Lim("deref %s" % v.op)

    def readloc(self, st, L):
        if L.start is not None:
            return seq_slice(self.read(st, L.root, L.path), L.start, L.n, st.facts)
        return self.read(st, L.root, L.path)

    def mkref(self, L):
        if L.dyn is not None:
            return mk("dref", L.dyn, L.root, L.path)
        if L.start is not None:
            return mk("sref", L.root, L.path, L.start, L.n)
        return mk("ref", L.root, L.path)

    def ref_place(self, st, L):
        """reference to a place, taking unsized places into account"""
        if L.dyn is None and L.start is None:
            k = tinfo(L.ty)["k"]
            if k in ("str", "slice"):
                v = self.read(st, L.root, L.path)
                if isT(v) and v.op == "seq":
                    return mk("sref", L.root, L.path, 0, seq_len(v))
        return self.mkref(L)

    # -- constants
    def const(self, ty, c):
        k = c[0]
        ti = tinfo(ty)
        if k == "i":
            return wrapi(int(c[1]), ty) if ti["k"] in ("int", "bool", "char") else int(c[1])
        if k == "ref":
            e = ti.get("e", -1)
            et = tinfo(e)
            if et["k"] in ("str", "slice"):
                s = self.const_seq(c[1], u8ty() if et["k"] == "str" else et["e"])
                return mk("sref", ("C", s), (), 0, seq_len(s))
            return mk("ref", ("C", self.const(e, c[1])), ())
        if k == "bytes" or k == "arr":
            return self.const_seq(c, ti.get("e", -1))
        if k == "agg":
            d = ti
            if ti["k"] == "adt" and is_vec(ti):
                return mk("vec", EMPTY)
            fs = nfields(ty, c[1]) or []
            return agg(c[1], *[self.const(f, x) for f, x in zip(fs, c[2])])
        if k == "static":
            e = ti.get("e", -1)
            return mk("ref", ("G", c[1], e), ())
        if k == "fn":
            return agg(0)
        if k == "fnp":
            return mk("fnp", c[1])
        if k == "zst":
            if ti["k"] == "array":
                return EMPTY
            fs = nfields(ty, 0)
            if fs:
                return agg(0, *[self.const(f, ["zst"]) for f in fs])
            return UNIT
        if k == "undef":
            return UNDEF
        if k == "tid":
            return mk("tid", c[1])
        if k == "addr":
            return mk("addr", c[1])
        return mat(mk("sym", ty, "const:" + ti["s"]))

    def const_seq(self, c, ety):
        if c[0] == "bytes":
            return mkseq([mk("c", *c[1])]) if c[1] else EMPTY
        if c[0] == "arr":
            return mkseq([elem(self.const(ety, x)) for x in c[1]])
        if c[0] == "zst":
            return EMPTY
        raise Lim("const seq " + c[0])

    def operand(self, fr, o, st):
        k = o[0]
        if k == "k":
            return self.const(o[1], o[2])
        if k == "rc":
            return 0
        L, _ = self.loc(fr, o[1], st)
        return self.readloc(st, L)

    # -- rvalues
    def rvalue(self, fr, r, st):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1], st)
        if k == "ref":
            L, _ = self.loc(fr, r[1], st)
            return self.ref_place(st, L)
        if k == "discr":
            L, _ = self.loc(fr, r[1], st)
            return self.discr(self.readloc(st, L), L.ty)
        if k == "len":
            L, _ = self.loc(fr, r[1], st)
            return L.n if L.start is not None else seq_len(self.read(st, L.root, L.path))
        if k == "rep":
            v = self.operand(fr, r[1], st)
            return mkseq([mk("fill", v, r[2])]) if r[2] else EMPTY
        if k == "bin":
            x, y = self.operand(fr, r[2], st), self.operand(fr, r[3], st)
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if r[1] == "Offset":
                raise Lim("ptr offset")
            if r[1] == "Cmp":
                c = mk("cmp", x, y)
                raise Lim("cmp")
            return binop(r[1].replace("Unchecked", ""), x, y, r[4], st.facts)
        if k == "chk":
            x, y = self.operand(fr, r[2], st), self.operand(fr, r[3], st)
            op, ty = r[1], r[4]
            if op == "Add":
                v = add(x, y)
            elif op == "Sub":
                v = sub(x, y)
            else:
                v = mul(x, y)
                if v is None:
                    p = binop("Mul", x, y, ty)
                    return agg(0, p, 0)   # documented: products of two symbolic sizes do not overflow
            lo, hi = ty_range(ty)
            if isinstance(v, int):
                return agg(0, wrapi(v, ty), int(not lo <= v <= hi))
            bits = tinfo(ty)["bits"]
            over_hi = lt(hi, v)
            over_lo = lt(v, lo)
            if bits >= 64 and op in ("Add", "Mul") and lo == 0:
                over_hi = 0
            if st.facts.refutes(over_hi) if isT(over_hi) else not over_hi:
                over_hi = 0
            if st.facts.refutes(over_lo) if isT(over_lo) else not over_lo:
                over_lo = 0
            if over_hi == 0 and over_lo == 0:
                return agg(0, v, 0)
            if over_hi == 0:
                return agg(0, v, over_lo)
            if over_lo == 0:
                return agg(0, v, over_hi)
            return agg(0, v, neg(mk("pred", "and", *sorted((neg(over_lo), neg(over_hi)), key=lambda t: t.id))))
        if k == "un":
            x = self.operand(fr, r[2], st)
            if r[1] == "Not":
                if tinfo(r[3])["k"] == "bool":
                    return neg(x)
                lo, hi = ty_range(r[3])
                return sub(hi, x) if lo == 0 else sub(-1, x)
            if r[1] == "Neg":
                return wrap(scale(x, -1), r[3], st.facts)
            if r[1] == "PtrMetadata":
                if isT(x) and x.op == "sref":
                    return x.a[3]
                return UNIT
            raise Lim("un " + r[1])
        if k == "cast":
            return self.cast(fr, r, st)
        if k == "agg":
            kind = r[1]
            vs = [self.operand(fr, o, st) for o in r[2]]
            if kind[0] == "array":
                return mkseq([elem(v) for v in vs])
            if kind[0] == "adt":
                if kind[3] is not None and kind[3] is not False:
                    v = UNDEF  # union
                    return self.put(agg(0), (pf(0, kind[3], -1),), vs[0], st.facts)
                return agg(kind[2], *vs)
            if kind[0] == "rawptr":
                if len(vs) == 2 and isT(vs[0]) and vs[0].op in ("ref",) and not (isT(vs[1]) and vs[1].op == "agg"):
                    raise Lim("raw slice")
                return vs[0]
            return agg(0, *vs)
        if k == "tls":
            return mk("ref", ("G", "tls", -1), ())
        raise Lim("rvalue " + k)

    def discr(self, v, ty):
        if not isT(v):
            raise Lim("discr int")
        if v is UNDEF:
            return UNDEF
        if v.op == "agg":
            ti = tinfo(ty)
            return ti["v"][v.a[0]]["d"] if ti["k"] == "adt" else 0
        if v.op in TYPED:
            for j, x in enumerate(tinfo(tyof(v)).get("v", [])):
                pass
            return mk("discr", v)
        raise Lim("discr %s" % v.op)

    def cast(self, fr, r, st):
        kind, o, frm, to = r[1], r[2], r[3], r[4]
        if kind == "BoxDerefTransmute" or (kind == "Transmute" and o[0] in ("cp", "mv") and len(o[1]) > 1 and isinstance(o[1][-1], list) and o[1][-1][0] == "f" and self._is_box_field(fr, o[1])):
            pl = o[1]
            L, _ = self.loc(fr, pl[:-1], st)
            v = self.readloc(st, L)
            if isT(v) and v.op == "box":
                e = tinfo(to).get("e", -1)
                return self.ref_place(st, Loc(L.root, L.path + (PB,), e))
            if isT(v) and v.op == "boxat":
                e = tinfo(to).get("e", -1)
                return self.ref_place(st, Loc(v.a[0], v.a[1] + (PB,), e))
            raise Lim("box ptr")
        if kind == "Transmute" and o[0] in ("cp", "mv") and len(o[1]) > 2 and all(isinstance(x, list) and x[0] == "f" for x in o[1][-2:]) and self._is_box_field(fr, o[1][:-1]):
            return UNDEF    # the raw pointer a moved-out box is freed through
        v = self.operand(fr, o, st)
        tf, tt = tinfo(frm), tinfo(to)
        if kind in ("IntToInt",) or (tf["k"] in ("int", "bool", "char") and tt["k"] in ("int", "char", "bool")):
            if tf["k"] == "adt":
                v = self.discr(v, frm)
            return wrap(v, to, st.facts)
        if kind.startswith("PointerCoercion(Unsize") or kind == "Unsize" or "Unsize" in kind:
            return self.unsize(v, frm, to, st)
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            if o[0] == "k" and o[2][0] == "fn":
                c = o[2][1]
                return mk("fnp", c.get("i", -1))
            return v
        if kind in ("PtrToPtr", "Subtype") or "MutToConst" in kind or "ArrayToPointer" in kind or "UnsafeFnPointer" in kind:
            return v
        if kind == "Transmute":
            if tf["k"] in ("ref", "ptr") and tt["k"] in ("ref", "ptr"):
                return v
            if tf["k"] == "adt" and isT(v) and v.op == "agg" and len(v.a) == 2 and tt["k"] in ("int", "ptr", "ref", "adt"):
                return v.a[1]
            if isT(v) and v.op in ("ref", "sref"):
                return v
            if tf["k"] == "array" and tt["k"] == "array" and tinfo(tf["e"]) == tinfo(tt["e"]):
                return v
            if tf["k"] == "int" and tt["s"].startswith("std::option::Option<std::num::NonZero<") and isinstance(v, int):
                return mk("agg", 0) if v == 0 else mk("agg", 1, mk("agg", 0, mk("agg", 0, v)))
        if tf["k"] == "adt" and tf.get("kind") == "enum" and tt["k"] == "int":
            return wrap(self.discr(v, frm), to)
        raise Lim("cast %s %s->%s" % (kind, tf["s"], tt["s"]))

    def _is_box_field(self, fr, pl):
        ty = fr.fn["locals"][pl[0]]
        for p in pl[1:-1]:
            if isinstance(p, list) and p[0] == "f":
                ty = p[2]
            elif p == "*":
                ty = tinfo(ty).get("e", -1)
            else:
                return False
        return bool(tinfo(ty).get("box"))

    def unsize(self, v, frm, to, st):
        tf, tt = tinfo(frm), tinfo(to)
        if tf["k"] in ("ref", "ptr"):
            pe, te = tinfo(tf["e"]), tinfo(tt["e"])
            if pe["k"] == "array" and te["k"] == "slice":
                if v.op == "ref":
                    return mk("sref", v.a[0], v.a[1], 0, pe["n"])
                if v.op == "sref":
                    return v
            if te["k"] == "dyn":
                if pe["k"] == "dyn":
                    return v
                if v.op == "ref":
                    return mk("dref", tf["e"], v.a[0], v.a[1])
        if tf.get("box"):
            pe, te = tinfo(tf["a"][0]), tinfo(tt["a"][0])
            if pe["k"] == "array":
                return v
            if te["k"] == "dyn":
                if pe["k"] == "dyn":
                    return v
                return mk("box", mk("dynv", tf["a"][0], v.a[0]))
        raise Lim("unsize")

    # -- function application
    def deep(self, st, v, d=0):
        """value with references replaced by what they point to"""
        if not isT(v) or d > 12:
            return v
        o = v.op
        if o == "ref":
            return self.deep(st, self.read(st, v.a[0], v.a[1]), d + 1)
        if o == "dref":
            return mk("dynv", v.a[0], self.deep(st, self.read(st, v.a[1], v.a[2]), d + 1))
        if o == "sref":
            return seq_slice(self.read(st, v.a[0], v.a[1]), v.a[2], v.a[3], st.facts)
        if o in ("agg", "box", "vec", "dynv", "iter"):
            return mk(o, *[self.deep(st, x, d + 1) for x in v.a])
        if o == "seq":
            ch = [mk("e", self.deep(st, g.a[0], d + 1)) if g.op == "e" and isT(g.a[0]) and g.a[0].op in ("ref", "sref", "agg") else g for g in v.a]
            return mk("seq", *ch)
        return v

    def reify(self, st, v):
        return unmat(eta(self.deep(st, v), st.facts))

    def havoc(self, st, v, ty, name, ra, n, d):
        """overwrite, in place, everything a callee could change through v: T"""
        if not isT(v):
            return
        ti = tinfo(ty)
        k = ti["k"]
        if d > 6:
            return self.havoc_refs(st, v, name)
        if k in ("ref", "ptr"):
            if not ti.get("m"):
                return
            i = n[0]
            n[0] += 1
            e = ti["e"]
            i = i if i % 16 else i // 16
            if v.op == "ref":
                self.havoc(st, self.read(st, v.a[0], v.a[1]), e, name, ra, n, d + 1)
                self.write(st, v.a[0], v.a[1], mat(mk("mut", e, name, i, *ra)))
            elif v.op == "sref":
                q = mk("fixed", mk("mut", ty, name, i, *ra), v.a[3])
                w = mk("seq", mk("sub", q, 0, v.a[3]))
                self.write(st, v.a[0], v.a[1], seq_write(self.read(st, v.a[0], v.a[1]), v.a[2], w, st.facts))
            elif v.op == "dref":
                self.write(st, v.a[1], v.a[2], mat(mk("mut", v.a[0], name, i, *ra)))
            return
        if v.op in ("ref", "sref", "dref", "ment"):
            return self.havoc_refs(st, v, name)
        if v.op == "agg":
            fs = None
            if k == "closure":
                up = ti.get("up")
                fs = tinfo(up).get("f") if isinstance(up, int) else None
            elif ty >= 0:
                fs = nfields(ty, v.a[0])
            if fs is not None and len(fs) == len(v.a) - 1:
                for x, t in zip(v.a[1:], fs):
                    self.havoc(st, x, t, name, ra, n, d + 1)
                return
            return self.havoc_refs(st, v, name)
        if v.op == "iter" and "Mut<" in ti.get("s", ""):
            return self.havoc_refs(st, v, name)
        if v.op in ("box",) and ti.get("box"):
            return self.havoc(st, v.a[0], ti["a"][0], name, ra, n, d + 1)
        if v.op in ("dynv",):
            return self.havoc(st, v.a[1], v.a[0], name, ra, n, d + 1)

    def havoc_refs(self, st, v, name):
        for t in atoms_in(v, lambda t: t.op in ("ref", "sref", "dref", "ment")):
            r, p = (t.a[1], t.a[2]) if t.op == "dref" else (t.a[0], t.a[1])
            self.write(st, r, p, UNDEF)

    def opaque_call(self, st, name, args, argtys, destty):
        """uninterpreted result; locations reachable through &mut are havocked deterministically"""
        ra = [unwrapped(seqarg(self.reify(st, a)), argtys[i] if i < len(argtys) else -1) for i, a in enumerate(args)]
        if name.startswith("lim:"):
            self.lims.add(name[4:])
        st = st.fork()
        if name.startswith("lim:") and "stacks_rs::rpc" in name or "ureq::" in name and maysend(name):
            # it may have sent something
            name_ = name if name.startswith("lim:") else "lim:" + name
            st.mem[("N", 0, 0)] = mk("trace", mk("call", -1, name_))
        n = [0]
        for a, ty in zip(args, argtys):
            self.havoc(st, a, ty, name, ra, n, 0)
            n[0] = (n[0] // 16 + 1) * 16
        k = tinfo(destty)
        if k["k"] == "tuple" and not k["f"]:
            return [Out("ret", st, UNIT)]
        return [Out("ret", st, mat(mk("call", destty, name, *ra)))]

    def call_fn(self, st, fid, args, info=None):
        """abstract application of function fid"""
        f = self.fns[fid]
        if "bbs" not in f:
            raise Lim("no body " + f["name"])
        if self.stack.count(fid) >= 1 and not self.rec_ok(fid):
            raise Lim("recursion " + f["path"])
        if len(self.stack) > 70:
            raise Lim("depth")
        self.fid += 1
        fr = Frame(self.fid, f, fid)
        import loops
        loops.ROOTTY[fr.id] = f
        st = st.fork()
        argc = f["argc"]
        if f["spread"] is not None and f["spread"] is not False:
            pass
        if len(args) != argc:
            if len(args) == 2 and isT(args[1]) and args[1].op == "agg" and len(args[1].a) - 1 == argc - 1:
                args = [args[0]] + list(args[1].a[1:])
            elif len(args) == 1 and argc == 1:
                pass
            else:
                raise Lim("arity %s" % f["name"])
        elif info is not UNTUPLED and len(args) == 2 and argc == 2 and f.get("clos") and isT(args[1]) and args[1].op == "agg":
            args = [args[0], args[1].a[1]]
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        self.stack.append(fid)
        self.visited.add(fid)
        try:
            outs = self.run_body(fr, st)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            s = o.st
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.id]:
                del s.mem[r]
            res.append(o)
        return self.join_outs(res)

    def rec_ok(self, fid):
        return False

    def join_outs(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        order = []
        for o in outs:
            if o.kind != "ret":
                key = (o.kind, o.info)
                continue_ = True
            key = (o.kind, o.val, o.info, frozenset(o.st.mem.items()) if o.kind == "ret" else None)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(o)
        res = []
        for k in order:
            g = groups[k]
            fl = join_facts([o.st.facts for o in g])
            for f in fl:
                res.append(Out(g[0].kind, St(g[0].st.mem if len(fl) == 1 else dict(g[0].st.mem), f), g[0].val, g[0].info))
        return res

    def run_body(self, fr, st):
        c = self.cfg(fr.fid)
        if c.irred:
            raise Lim("irreducible")
        outs = []
        self.flow(fr, c, {0: [st]}, None, None, outs, {}, {})
        return outs

    def flow(self, fr, c, pend, body, header, outs, backs, exits):
        """propagate the pending partitions; `body` restricts to a loop (edges to
        its header go to backs, edges out of it to exits)"""
        first = True
        while pend:
            b = min(pend, key=lambda x: c.rpo[x])
            sts = pend.pop(b)
            sts = self.join(fr, c, b, sts)
            if b in c.loops and not (body is not None and b == header):
                for s in sts:
                    for (t, s2) in self.do_loop(fr, c, b, s, outs):
                        self.edge(t, s2, body, header, pend, backs, exits)
                continue
            for s in sts:
                for (t, s2) in self.block(fr, b, s, outs):
                    self.edge(t, s2, body, header, pend, backs, exits)

    def edge(self, t, s, body, header, pend, backs, exits):
        if body is not None:
            if t == header:
                backs.setdefault(t, []).append(s)
                return
            if t not in body:
                exits.setdefault(t, []).append(s)
                return
        pend.setdefault(t, []).append(s)

    def gc(self, fr, c, b, st):
        live = c.live.get(b, set())
        mem = st.mem
        keep = set()
        work = []
        for r in mem:
            if r[0] == "L" and r[1] == fr.id:
                if r[2] in live:
                    work.append(r)
            else:
                work.append(r)
        while work:
            r = work.pop()
            if r in keep:
                continue
            keep.add(r)
            v = mem.get(r)
            if isT(v):
                for x in roots_in(v):
                    if x in mem and x not in keep:
                        work.append(x)
        # temporaries not reachable
        for r in list(mem):
            if r not in keep:
                del mem[r]

    def join(self, fr, c, b, sts):
        if len(sts) == 1 and b not in c.loops:
            return sts
        groups, order = {}, []
        for s in sts:
            self.gc(fr, c, b, s)
            key = frozenset(s.mem.items())
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(s)
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
            else:
                for f in join_facts([x.facts for x in g]):
                    res.append(St(dict(g[0].mem), f))
        if len(res) > self.limit:
            if self.peel and self.sample:
                # first-iterations mode looks for differences only: a part of the partitions will do
                self.truncated = True
                res = [res[i * len(res) // self.sample] for i in range(self.sample)]
            else:
                raise Lim("too many partitions")
        return res

    def where(self, fr, b):
        f = fr.fn
        l = f["bbs"][b].get("l")
        return "%s" % f["path"]

    def block(self, fr, b, st, outs):
        bb = fr.fn["bbs"][b]
        self.steps += 1
        if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
            raise OutOfTime()
        if self.steps > self.budget:
            raise Lim("budget")
        st = st.fork()
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                if s[2][0] == "use" and s[2][1][0] == "cp" and len(s[1]) == 1 and tinfo(fr.fn["locals"][s[1][0]]).get("box"):
                    # a Box is never copied by source code: this is box-deref elaboration
                    L, _ = self.loc(fr, s[2][1][1], st)
                    b0 = self.readloc(st, L)
                    v = b0 if isT(b0) and b0.op == "boxat" else mk("boxat", L.root, L.path)
                else:
                    v = self.rvalue(fr, s[2], st)
                L, _ = self.loc(fr, s[1], st)
                if L.start is not None:
                    raise Lim("slice assign")
                self.write(st, L.root, L.path, v)
            elif k == "sd":
                L, _ = self.loc(fr, s[1], st)
                v = self.readloc(st, L)
                if isT(v) and v.op == "agg":
                    self.write(st, L.root, L.path, agg(s[2], *v.a[1:]))
                else:
                    self.write(st, L.root, L.path, agg(s[2]))
            elif k == "assume":
                v = self.operand(fr, s[1], st)
                if v is UNDEF:
                    continue
                f = st.facts.add(v)
                if f is None:
                    return []
                st.facts = f
            elif k == "intr":
                pass
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            outs.append(Out("ret", st, self.rootval(st, ("L", fr.id, 0)) if ("L", fr.id, 0) in st.mem else UNIT))
            return []
        if k in ("unreach", "resume"):
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            msg = str(t[3])
            v = self.operand(fr, t[1], st)
            good = v if t[2] else neg(v)
            if "NullPointer" in msg or "Misaligned" in msg:
                return [(t[4], st)]
            res = []
            g = st.with_(good)
            if g:
                res.append((t[4], g))
            bad = st.with_(neg(good))
            if bad:
                outs.append(Out("panic", bad, None, ("assert " + msg[:60], fr.fn["path"])))
            return res
        if k == "call":
            return self.do_call(fr, b, t, st, outs)
        raise Lim("terminator " + k)

    def switch(self, fr, t, st):
        v = self.operand(fr, t[1], st)
        if v is UNDEF:
            raise Lim("switch on undefined value")
        tg, other = t[2], t[3]
        if isinstance(v, int):
            m = wrapi(v, t[4]) if ty_range(t[4]) else v
            bits = tinfo(t[4]).get("bits", 0)
            for x, b in tg:
                if int(x) == v or (v < 0 and bits and int(x) == v + (1 << bits)):
                    return [(b, st)]
            return [(other, st)] if other is not None else []
        res = []
        rest = []
        for x, b in tg:
            x = int(x)
            l = self.val_is(v, x, t[4])
            s = st.with_(l)
            if s:
                res.append((b, s))
            rest.append(neg(l))
        if other is not None:
            s = st
            for l in rest:
                s = s.with_(l)
                if s is None:
                    break
            if s is not None:
                res.append((other, s))
        return res

    def val_is(self, v, x, ty):
        if v.op == "discr":
            vs = tinfo(tyof(v.a[0])).get("v", [])
            for j, y in enumerate(vs):
                if y["d"] == x:
                    return isv(v.a[0], j)
            return 0
        if v.op in BOOLOPS:
            return v if x == 1 else neg(v)
        x = wrapi(x, ty) if ty_range(ty) else x
        return eqi(v, x)

    # -- calls
    def do_call(self, fr, b, t, st, outs):
        cal, args_o, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(fr, o, st) for o in args_o]
        argtys, destty = t[6], t[7]
        info = dict(cal=cal, argtys=argtys, destty=destty, fr=fr)
        if target is None:
            nm = cal.get("def", "?")
            if cal.get("i") is not None and self.fns[cal["i"]].get("crate") == "stacks_rs":
                pass
            outs.append(Out("panic", st, None, (nm, fr.fn["path"])))
            return []
        if cal.get("ind"):
            f = self.operand(fr, t[5], st)
            rs = self.call_value(st, f, args, argtys, destty)
        else:
            rs = self.apply(st, cal, args, argtys, destty, fr)
        res = []
        for o in rs:
            if o.kind == "ret":
                s = o.st
                L, _ = self.loc(fr, dest, s)
                self.write(s, L.root, L.path, o.val)
                res.append((target, s))
            else:
                outs.append(o)
        return res

    def call_value(self, st, f, args, argtys, destty):
        if isT(f) and f.op == "fnp" and f.a[0] >= 0:
            return self.apply_id(st, f.a[0], args, argtys, destty)
        return self.opaque_call(st, "lim:fnptr", args, argtys, destty)

    def apply_id(self, st, fid, args, argtys, destty):
        f = self.fns[fid]
        return self.apply(st, {"def": f["path"], "a": f.get("a", []), "i": fid, "kind": "item"}, args, argtys, destty, None)

    def apply(self, st, cal, args, argtys, destty, fr):
        d = cal.get("def", "?")
        fid = cal.get("i")
        path = self.fns[fid]["path"] if fid is not None else None
        if not cal.get("model"):
            p = None
            if path is not None:
                p = self.prims.get(path)
            if p is None:
                p = self.prims.get(d)
            if p is not None:
                try:
                    r = p(self, st, args, cal, argtys, destty)
                except Lim as e:
                    self.note("prim %s: %s" % (path or d, e))
                    return self.opaque_call(st, "lim:" + (path or d), args, argtys, destty)
                if r is not None:
                    return r
        if cal.get("kind") == "virtual":
            return self.virtual(st, cal, args, argtys, destty, fr)
        if fid is not None:
            key = fkey(self.fns[fid]["name"])
            if key in self.opaque:
                self.calls_seen.add(key)
                return self.opaque_call(st, key, args, argtys, destty)
        if fid is None:
            if cal.get("intr") in ("integer_min", "integer_max", "minnum", "maxnum") and tinfo(destty)["k"] == "int":
                p = self.prims.get("std::cmp::min" if cal["intr"] == "integer_min" else "std::cmp::max")
                r = p(self, st, args, dict(cal, **{"def": cal["intr"]}), argtys, destty)
                if r is not None:
                    return r
            if cal.get("intr"):
                return self.opaque_call(st, "lim:intr:" + cal["intr"], args, argtys, destty)
            return self.opaque_call(st, "lim:" + d, args, argtys, destty)
        f = self.fns[fid]
        # calling a function item / closure through the Fn* traits
        if d in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") :
            r = self.call_callable(st, cal, args, argtys, destty)
            if r is not None:
                return r
        if "bbs" not in f and tinfo(destty)["k"] == "adt":
            # the constructor of a variant, used as a function
            for i, v in enumerate(tinfo(destty)["v"]):
                if f["name"].rsplit("::", 1)[-1] == v["n"] and len(v["f"]) == len(args) and re.sub(r"::<.*>$", "", f["name"].rsplit("::", 1)[0]) == tinfo(destty)["def"]:
                    return [Out("ret", st, agg(i, *args))]
        if "bbs" not in f:
            nm = path
            if f.get("crate") in ("std", "core", "alloc"):
                nm = "lim:" + path
                self.note("no body " + path)
            elif path.endswith(" as std::clone::Clone>::clone") and args[0].op == "ref":
                # copies of other libraries' values are equal to the original
                return [Out("ret", st, self.read(st, args[0].a[0], args[0].a[1]))]
            else:
                self.calls_seen.add(path)
            return self.opaque_call(st, nm + self.tyargs(cal), args, argtys, destty)
        save = self.fid
        try:
            return self.call_fn(st, fid, args, cal)
        except Lim as e:
            self.note("%s: %s" % (path, e))
            return self.opaque_call(st, "lim:" + path, args, argtys, destty)

    def tyargs(self, cal):
        a = [tinfo(x)["s"] for x in cal.get("a", []) if isinstance(x, int) and tinfo(x)["k"] != "other"]
        return "" if not a else ""

    def call_callable(self, st, cal, args, argtys, destty):
        ty = argtys[0]
        ti = tinfo(ty)
        isref = False
        env = args[0]
        while ti["k"] == "ref":
            ty = ti["e"]
            ti = tinfo(ty)
            env = self.read(st, env.a[0], env.a[1]) if isT(env) and env.op == "ref" else env
            isref = True
        if len(args) < 2:
            raise Lim("callable")
        tup = args[1]
        if isT(tup) and tup.op != "agg":
            tup = expand(tup, 0)
        xs = list(tup.a[1:])
        if ti["k"] == "fndef":
            c = ti.get("callee") or self.fndef_callee(ty)
            if c is None:
                return None
            tys = tinfo(argtys[1]).get("f", [])
            return self.apply(st, c, xs, tys, destty, None)
        if ti["k"] == "fnptr":
            tys = tinfo(argtys[1]).get("f", [])
            return self.call_value(st, env, xs, tys, destty)
        if ti["k"] == "closure":
            fid = self.closure_body(cal, ty)
            if fid is None:
                return None
            f = self.fns[fid]
            want = tinfo(f["locals"][1])["k"] == "ref"
            if want and not isref:
                root = self.newroot()
                st = st.fork()
                st.mem[root] = args[0]
                a0 = mk("ref", root, ())
            elif want:
                a0 = args[0]
                # collapse && to &
                t2 = tinfo(argtys[0])
                while tinfo(t2["e"])["k"] == "ref":
                    a0 = self.read(st, a0.a[0], a0.a[1])
                    t2 = tinfo(t2["e"])
            else:
                a0 = env
            return self.call_fn(st, fid, [a0] + xs, UNTUPLED)
        return None

    def fndef_callee(self, ty):
        ti = tinfo(ty)
        return ti.get("c")

    def closure_body(self, cal, ty):
        fid = cal.get("i")
        f = self.fns[fid]
        if f.get("bbs") and len(f["locals"]) > 1:
            t1 = f["locals"][1]
            if t1 == ty or (tinfo(t1)["k"] == "ref" and tinfo(t1)["e"] == ty):
                if not self.is_shim(f):
                    return fid
        # a shim: its body calls the closure
        for b in f.get("bbs", []):
            t = b["t"]
            if t[0] == "call" and t[1].get("i") is not None:
                g = self.fns[t[1]["i"]]
                if "bbs" in g and len(g["locals"]) > 1:
                    t1 = g["locals"][1]
                    if t1 == ty or (tinfo(t1)["k"] == "ref" and tinfo(t1)["e"] == ty):
                        return t[1]["i"]
        return None

    def is_shim(self, f):
        return f.get("shim", False) or "shim" in f["name"]

    def virtual(self, st, cal, args, argtys, destty, fr):
        d = cal["def"]
        recv = args[0]
        ty, rv = None, None
        if isT(recv):
            if recv.op == "dref":
                ty, rv = recv.a[0], mk("ref", recv.a[1], recv.a[2])
            elif recv.op == "ref":
                v = self.read(st, recv.a[0], recv.a[1])
                if isT(v) and v.op == "dynv":
                    ty, rv = v.a[0], mk("ref", recv.a[0], recv.a[1] + (mk("pd", v.a[0]),))
            elif recv.op == "box":
                v = recv.a[0]
                if isT(v) and v.op == "dynv":
                    ty, rv = v.a[0], mk("box", v.a[1])
        if ty is not None:
            dt = tinfo(argtys[0])
            de = dt.get("e", dt["a"][0] if dt.get("box") else None)
            m = self.vt.get((ty, de))
            if m is None:
                for (t0, d0), mm in self.vt.items():
                    if t0 == ty and tinfo(d0).get("trait") == tinfo(de).get("trait"):
                        m = mm
                        break
            if m is not None and m[cal["idx"]] is not None:
                fid = m[cal["idx"]][0]
                return self.apply(st, {"def": d, "a": [ty], "i": fid, "kind": "item"}, [rv] + args[1:], argtys, destty, fr)
            raise Lim("vtable miss %s" % d)
        self.calls_seen.add("virt:" + d)
        h = self.prims.get("virt:" + d)
        if h is not None:
            r = h(self, st, args, cal, argtys, destty)
            if r is not None:
                return r
        return self.opaque_call(st, "virt:" + d, args, argtys, destty)

    # -- loops
    def do_loop(self, fr, c, h, st, outs):
        body = c.loops[h]
        # 1. peel while the loop is decided (constant trip count)
        cur = st
        edges = []
        n0 = len(outs)
        for it in range(130):
            pend = {h: [cur.fork()]}
            o2, backs, exits = [], {}, {}
            self.flow_in(fr, c, h, pend, body, o2, backs, exits)
            bl = self.join(fr, c, h, backs.get(h, []))
            nx = sum(len(x) for x in exits.values()) + sum(1 for o in o2 if o.kind == "ret")
            if bl and nx or len(bl) > 1:
                m = self.small_bound(fr, c, h, cur)
                if m:
                    r = self.full_unroll(fr, c, h, cur, body, m)
                    if r is not None:
                        outs.extend(r[1])
                        return edges + r[0]
                if self.peel:
                    return edges + self.unroll(fr, c, h, cur, body, outs)
                if it == 0 or not self.const_bound(cur, st):
                    return edges + self.summarise(fr, c, h, st if it == 0 else cur, body, outs)
                return edges + self.summarise(fr, c, h, cur, body, outs)
            outs.extend(o2)
            for t, ss in exits.items():
                for s in ss:
                    edges.append((t, s))
            if not bl:
                return edges
            cur = bl[0]
        if not edges and len(outs) == n0:
            return self.summarise(fr, c, h, st, body, outs)
        raise Lim("long constant loop")

    def small_bound(self, fr, c, h, st):
        """remaining trips of an iterator over a short range of known length, if the loop header advances one"""
        best = 0
        for (k, v) in st.mem.items():
            if k[0] != "L" or k[1] != fr.id or not isT(v):
                continue
            n = None
            if v.op == "iter" and isinstance(v.a[2], int) and isinstance(v.a[3], int):
                n = v.a[3] - v.a[2]
            elif v.op == "agg" and len(v.a) == 3 and isinstance(v.a[1], int) and isinstance(v.a[2], int) and "std::ops::Range<" in tinfo(fr.fn["locals"][k[2]]).get("s", ""):
                n = v.a[2] - v.a[1]
            if n is not None and 0 < n <= 8:
                best = max(best, n)
        return best

    def full_unroll(self, fr, c, h, st, body, m):
        """every iteration of a loop that ends within m of them; None if it does not"""
        edges, outs = [], []
        cur = [st]
        for it in range(m + 2):
            nxt = []
            for s in cur:
                o2, backs, exits = [], {}, {}
                self.flow_in(fr, c, h, {h: [s.fork()]}, body, o2, backs, exits)
                outs.extend(o2)
                for t, ss in exits.items():
                    edges += [(t, x) for x in ss]
                nxt += backs.get(h, [])
            cur = self.join(fr, c, h, nxt) if nxt else []
            if not cur:
                return edges, outs
            if len(cur) > 8 or len(edges) > 60:
                return None
        return None

    def unroll(self, fr, c, h, st, body, outs):
        """the first `peel` iterations only, as separate partitions; later ones are dropped"""
        edges = []
        cur = [st]
        for it in range(self.peel + 1):
            nxt = []
            for s in cur:
                o2, backs, exits = [], {}, {}
                self.flow_in(fr, c, h, {h: [s.fork()]}, body, o2, backs, exits)
                outs.extend(o2)
                for t, ss in exits.items():
                    edges += [(t, x) for x in ss]
                nxt += backs.get(h, [])
            cur = self.join(fr, c, h, nxt) if nxt else []
            if not cur:
                break
        if cur:
            self.note("unrolled")
        return edges

    def const_bound(self, a, b):
        return True

    def flow_in(self, fr, c, h, pend, body, outs, backs, exits):
        """one pass over a loop body starting at its header"""
        sts = pend.pop(h)
        p2 = {}
        for s in sts:
            for (t, s2) in self.block(fr, h, s, outs):
                self.edge(t, s2, body, h, p2, backs, exits)
        self.flow(fr, c, p2, body, h, outs, backs, exits)

    def summarise(self, fr, c, h, st0, body, outs):
        from loops import summarise
        return summarise(self, fr, c, h, st0, body, outs)


_ROOTS = {}
_NOROOTS = frozenset()


def roots_in(v, acc=None, seen=None):
    """memory roots a value refers to"""
    if acc is None:
        acc = set()
    acc |= _roots(v)
    return acc


def _roots(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0] in ("L", "T", "H", "C", "G"):
            return frozenset((v,)) if v[0] in ("L", "T", "H") else _NOROOTS
        r = _NOROOTS
        for x in v:
            if isT(x) or isinstance(x, tuple):
                y = _roots(x)
                if y:
                    r = r | y
        return r
    if not isT(v) or v.op in TYPED or v.op in ("+", "c", "be", "len", "hash", "S"):
        return _NOROOTS
    r = _ROOTS.get(v)
    if r is None:
        r = _NOROOTS
        for x in v.a:
            if isT(x) or isinstance(x, tuple):
                y = _roots(x)
                if y:
                    r = r | y
        _ROOTS[v] = r
    return r


_NEG = {}
_MIX = {}


def _neg(x):
    r = _NEG.get(x)
    if r is None:
        r = _NEG[x] = neg(x)
    return r


def _mix(x):
    r = _MIX.get(x)
    if r is None:
        v = (x.id + 1) * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFFFFFF
        r = _MIX[x] = (v ^ v >> 29) * 0xBF58476D1CE4E5B9 & 0xFFFFFFFFFFFFFFFF
    return r


def join_facts(fl):
    """exact joins only: two conjunctions that differ in one complementary literal,
    or where one implies the other"""
    if len(fl) > 400:
        return list({f.lits: f for f in fl}.values())
    alive, queue, has = {}, list(fl), set()
    for f in fl:
        has |= f.lits
    while queue:
        f = queue.pop(0)
        h = sum(map(_mix, f.lits)) & 0xFFFFFFFFFFFFFFFF
        if any(g.lits == f.lits for g in alive.get(h, ())):
            continue
        for x in f.order:
            y = _neg(x)
            if y not in has:
                continue
            c = alive.get((h - _mix(x) + _mix(y)) & 0xFFFFFFFFFFFFFFFF)
            g = next((g for g in c or () if y in g.lits and len(g.lits) == len(f.lits) and f.lits - g.lits == {x}), None)
            if g is not None:
                c.remove(g)
                queue.append(TRUE_FROM(g, y))
                break
        else:
            alive.setdefault(h, []).append(f)
    res = [f for c in alive.values() for f in c]
    if len(res) > 1:
        out = []
        for f in res:
            if not any(g is not f and len(g.lits) < len(f.lits) and g.lits <= f.lits for g in res):
                out.append(f)
        res = out
    return res


def TRUE_FROM(a, x):
    o = tuple(l for l in a.order if l is not x)
    return Facts(frozenset(o), o)
