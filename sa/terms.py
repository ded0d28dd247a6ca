"""Hash-consed value terms, the linear-inequality domain and the sequence domain.

Everything the analyser knows about a program value is a Term.  Terms are
interned, so equality is identity, and every constructor puts its result in a
normal form; two expressions that the domain can relate have the same Term.
"""
import zlib
from math import gcd

MAXLEN = (1 << 63) - 1


class Term:
    __slots__ = ("op", "a", "id", "_h", "_fl")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._h = None
        t._fl = None
        _tab[k] = t
    return t


def isT(x):
    return isinstance(x, Term)


TYPES = []  # filled by the loader: the type table of the dump


def set_types(t):
    TYPES[:] = t


# ---------------------------------------------------------------- printing
_showmemo = {}


def show(x, d=0):
    """printable form, abbreviated; shared subterms are printed once"""
    if d == 0:
        _showmemo.clear()
    if isT(x):
        r = _showmemo.get(x)
        if r is None:
            r = _show(x, d)
            if len(r) > 600:
                r = r[:600] + "..."
            if d <= 24:
                _showmemo[x] = r
        return r
    return _show(x, d)


def _show(x, d):
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, d + 1) for y in x) + ")"
    if not isT(x):
        return str(x)
    if d > 24:
        return "..."
    o, a = x.op, x.a
    s = lambda y: show(y, d + 1)
    if o == "+":
        r = " + ".join(("%s" % s(t) if c == 1 else "%d*%s" % (c, s(t))) for t, c in a[1])
        return "(" + r + (" + %d" % a[0] if a[0] else "") + ")"
    if o == "sym":
        return str(a[1])
    if o == "fld":
        return "%s.%s%s" % (s(a[1]), "" if a[2] == 0 and not is_enum(tyof(a[1])) else "v%s." % a[2], fname(tyof(a[1]), a[2], a[3]))
    if o == "at":
        return "%s[%s]" % (s(a[1]), s(a[2]))
    if o == "S":
        return s(a[1])
    if o == "deref":
        return "*" + s(a[1])
    if o == "len":
        return "len(%s)" % s(a[0])
    if o == "sub":
        return "%s[%s;+%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "seq":
        return "<" + " ".join(s(y) for y in a) + ">"
    if o == "c":
        if len(a) > 2 and all(isinstance(y, int) and 32 <= y < 127 for y in a):
            return repr("".join(map(chr, a)))
        return "[" + ",".join(map(str, a[:40])) + "]"
    if o == "e":
        return "{%s}" % s(a[0])
    if o == "be":
        return "be%d(%s)" % (a[0], s(a[1]))
    if o == "le":
        return "%s<=0" % s(a[0])
    if o == "eq":
        return "%s==0" % s(a[0])
    if o == "not":
        return "!(%s)" % s(a[0])
    if o == "isv":
        return "%s is %s" % (s(a[0]), vname(tyof(a[0]), a[1]))
    if o == "bv":
        return "k%d" % a[0]
    if o == "call":
        return "%s(%s)" % (a[1], ", ".join(s(y) for y in a[2:]))
    if o == "vec":
        return "vec" + s(a[0])
    if o == "agg":
        return "#%s{%s}" % (a[0], ", ".join(s(y) for y in a[1:]))
    return "%s(%s)" % (o, ", ".join(s(y) for y in a))


def tinfo(i):
    return TYPES[i] if isinstance(i, int) and 0 <= i < len(TYPES) else {"k": "other", "s": "?"}


def is_enum(i):
    t = tinfo(i)
    return t["k"] == "adt" and t["kind"] == "enum"


def fname(ty, v, i):
    t = tinfo(ty)
    try:
        if t["k"] == "adt":
            return t["v"][v]["f"][i][0]
    except Exception:
        pass
    return str(i)


def vname(ty, v):
    t = tinfo(ty)
    try:
        return t["v"][v]["n"]
    except Exception:
        return str(v)


TYPED = {"sym", "fld", "at", "deref", "call", "down", "phi", "rec", "recv", "mut", "S", "view", "wrap"}


def tyof(t):
    if isT(t) and t.op in TYPED:
        return t.a[0]
    return -1


# ---------------------------------------------------------------- ranges
def ty_range(i):
    t = tinfo(i)
    k = t["k"]
    if k == "bool":
        return (0, 1)
    if k == "char":
        return (0, 0x10FFFF)
    if k == "int":
        b = t["bits"]
        if t["signed"]:
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)
    return None


def atom_range(t):
    o = t.op
    if o == "len":
        return (0, MAXLEN)
    if o == "at" and t.a[1].op == "seq":
        cb = const_bytes(t.a[1])
        if cb and all(isinstance(x, int) for x in cb):
            return (min(cb), max(cb))
    if o == "at" and t.a[1].op == "S" and input_text(t.a[1]):
        return (0, 127)
    if o in TYPED:
        return ty_range(t.a[0])
    if o == "k":
        return (0, MAXLEN)
    if o == "kx":
        return (0, MAXLEN)
    if o == "bv":
        return (0, MAXLEN)
    if o == "byte":
        return (0, 255)
    if o == "trunc":
        return ty_range(t.a[0])
    if o == "discr":
        v = [x["d"] for x in tinfo(tyof(t.a[0])).get("v", [])]
        return (min(v), max(v)) if v else None
    if o == "bin":
        op, x, y, ty = t.a
        if op == "BitAnd":
            rs = [r[1] for r in (rng(x), rng(y)) if r and r[0] >= 0]
            if rs:
                return (0, min(rs))
        if op == "Rem" and isinstance(y, int) and y > 0:
            rx = rng(x)
            return (0, y - 1) if rx and rx[0] >= 0 else (-(y - 1), y - 1)
        if op == "Div" and isinstance(y, int) and y > 0:
            rx = rng(x)
            if rx:
                return (rx[0] // y if rx[0] >= 0 else -(-rx[0] // y), rx[1] // y if rx[1] >= 0 else -(-rx[1] // y))
        if op == "Shr" and isinstance(y, int):
            rx = rng(x)
            if rx and rx[0] >= 0:
                return (rx[0] >> y, rx[1] >> y)
        if op in ("BitOr", "BitXor"):
            rx, ry = rng(x), rng(y)
            if rx and ry and rx[0] >= 0 and ry[0] >= 0:
                m = max(rx[1], ry[1])
                return (0, (1 << m.bit_length()) - 1)
        return ty_range(ty)
    if o in ("case", "sum"):
        if o == "case":
            rs = [rng(v) for _, v in t.a]
            if all(rs):
                return (min(r[0] for r in rs), max(r[1] for r in rs))
            return None
        r = rng(t.a[1])
        if r and r[0] >= 0:
            return (0, MAXLEN)
        return None
    if o in ("le", "eq", "not", "isv", "eqv", "dynis", "pred", "all", "b"):
        return (0, 1)
    return None


def rng(t):
    """interval of an integer term from the ranges of its atoms"""
    if isinstance(t, int):
        return (t, t)
    if t.op == "+":
        lo = hi = t.a[0]
        for at, c in t.a[1]:
            r = atom_range(at)
            if r is None:
                return None
            if c > 0:
                lo += c * r[0]
                hi += c * r[1]
            else:
                lo += c * r[1]
                hi += c * r[0]
        return (lo, hi)
    return atom_range(t)


# ---------------------------------------------------------------- linear
def lin(t):
    """-> (const, {atom: coef})"""
    if isinstance(t, int):
        return int(t), {}
    if t.op == "+":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def unlin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("+", c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return unlin(c1 + c2, d)


def scale(a, n):
    if isinstance(a, int):
        return a * n
    c, d = lin(a)
    return unlin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    return None


# ---------------------------------------------------------------- booleans
def le0(t):
    """t <= 0"""
    if isinstance(t, int):
        return int(t <= 0)
    c, d = lin(t)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = -((-c) // g)
    r = rng(unlin(c, d))
    if r:
        if r[1] <= 0:
            return 1
        if r[0] > 0:
            return 0
    return mk("le", unlin(c, d))


def lt(a, b):
    return le0(add(sub(a, b), 1))


def le(a, b):
    return le0(sub(a, b))


def eq0(t):
    if isinstance(t, int):
        return int(t == 0)
    c, d = lin(t)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        if c % g:
            return 0
        d = {k: v // g for k, v in d.items()}
        c = c // g
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    if items[0][1] < 0:
        d = {k: -v for k, v in d.items()}
        c = -c
    u = unlin(c, d)
    r = rng(u)
    if r and (r[0] > 0 or r[1] < 0):
        return 0
    # boolean-valued atom compared with 0/1
    if len(d) == 1:
        (k, v), = d.items()
        if k.op in ("le", "eq", "not", "isv", "eqv", "dynis", "pred", "all") and v == 1:
            if c == 0:
                return neg(k)
            if c == -1:
                return k
        if k.op == "at" and v == 1 and k.a[1].op == "seq" and len(k.a[1].a) == 1 and k.a[1].a[0].op == "c":
            # a constant table: the entries with that value
            ix = [n for n, x in enumerate(k.a[1].a[0].a) if x == -c]
            if not ix:
                return 0
            if len(ix) == 1 and ix[0] < len(k.a[1].a[0].a):
                return eqi(k.a[2], ix[0])
    return mk("eq", u)


def eqi(a, b):
    return eq0(sub(a, b))


def neg(b):
    if isinstance(b, int):
        return int(not b)
    if b.op == "not":
        return b.a[0]
    if b.op in TYPED:
        return eqi(b, 0)
    if b.op == "le":
        return le0(sub(1, b.a[0]))
    if b.op == "isv":
        t = tinfo(tyof(b.a[0]))
        if len(t.get("v", [])) == 2:
            return mk("isv", b.a[0], 1 - b.a[1])
    return mk("not", b)


def isv(t, v):
    if isT(t) and t.op == "call" and decoded_from(t) is not None:
        return int(v == 0)
    return mk("isv", t, v)


DECODE = "stacks_rs::clarity::decode_clarity_type"


def decoded_from(t):
    """t is the encoding of a value obtained by decoding some bytes: those bytes.
    Assumed (and established case by case, on the decoders and encoders of the single types,
    where this function is left uninterpreted): such a value encodes, to between one byte and
    the length of the bytes it was decoded from."""
    if t.a[1] != "virt:stacks_rs::clarity::Codec::encode" or len(t.a) != 3:
        return None
    x = t.a[2]
    if not (isT(x) and x.op == "deref" and isT(x.a[1]) and x.a[1].op == "fld" and x.a[1].a[2] == 0):
        return None
    c = x.a[1].a[1]
    if isT(c) and c.op == "call" and c.a[1] == DECODE and len(c.a) == 3 and isT(c.a[2]) and c.a[2].op == "seq":
        return c.a[2]
    return None


# ---------------------------------------------------------------- sequences
# seq(seg...) ; seg: c(v..) | e(value) | be(w,t) | sub(q,start,len) | rep(n,body,h) | fill(v,n) | cs((guards,seq)..)
EMPTY = mk("seq")

HASHLEN = {"sha256": 32, "sha512_256": 32, "ripemd160": 20}


_inp = {}


def input_size(t):
    """n when t is part of an input analysed on the partition in which every sequence
    in it has n elements (named a0#n, see oblig.summarise), else None"""
    if t in _inp:
        return _inp[t]
    if t.op == "sym":
        n = t.a[1] if isinstance(t.a[1], str) else ""
        r = int(n.split("#")[1].rstrip("u")) if "#" in n else None
    elif t.op in ("fld", "at", "deref", "down", "S"):
        x = t.a[1]
        r = input_size(x) if isT(x) else None
    else:
        r = None
    _inp[t] = r
    return r


def uniform(q):
    """a sequence of such an input whose elements between the first and the last are all
    the same (named a0#nu)"""
    while q.op in ("fld", "at", "deref", "down", "S") and isT(q.a[1]):
        q = q.a[1]
    return q.op == "sym" and q.a[1].endswith("u")


def input_text(q):
    """a string (not bytes) of such an input, which is then ASCII"""
    if q.op != "S" or input_size(q) is None:
        return False
    ti = tinfo(tyof(q.a[1]))
    if ti["k"] in ("ref", "ptr"):
        ti = tinfo(ti["e"])
    return ti["k"] == "str" or ti["k"] == "adt" and ti["def"].endswith("::String")


def qlen(q):
    """length of an atomic sequence"""
    if q.op == "S" and input_size(q) is not None and tinfo(tyof(q.a[1])).get("k") != "array":
        return input_size(q)
    if q.op == "hash":
        return HASHLEN[q.a[0]]
    if q.op == "S" and tinfo(tyof(q.a[1])).get("k") == "array":
        return tinfo(tyof(q.a[1]))["n"]
    if q.op == "fixed":
        return q.a[1]
    if q.op == "map1":
        return seq_len(q.a[1])
    return mk("len", q)


def seg_len(g):
    o = g.op
    if o == "c":
        return len(g.a)
    if o == "e":
        return 1
    if o == "be":
        return g.a[0]
    if o == "sub":
        return g.a[2]
    if o == "fill":
        return g.a[1]
    if o == "rep":
        bl = seq_len(g.a[1])
        if isinstance(bl, int):
            return scale(g.a[0], bl)
        if isT(g.a[0]) or g.a[0] > 0:
            return mk("sum", g.a[0], bl, g.a[2])
        return 0
    if o == "cs":
        ls = {seq_len(x[1]) for x in g.a}
        if len(ls) == 1 and isinstance(min(ls, key=str), int):
            return ls.pop()
    return mk("len", g)


def seq_len(s):
    if isT(s) and s.op != "seq":
        return qlen(s)
    n = 0
    for g in s.a:
        n = add(n, seg_len(g))
    return n


def whole(q):
    """the sequence value of an atomic sequence q"""
    if q.op == "seq":
        return q
    n = qlen(q)
    if n == 0:
        return EMPTY
    if q.op == "S" and isinstance(n, int) and n > 4 and input_size(q) is not None and uniform(q):
        # the first, the last, and the others
        return mk("seq", mk("e", at(q, 0, q.a[0])), mk("fill", at(q, 2, q.a[0]), n - 2), mk("e", at(q, 4, q.a[0])))
    return mk("seq", mk("sub", q, 0, n))


def elem(v):
    """segment holding one element"""
    if isinstance(v, int):
        return mk("c", v)
    if v.op == "at":
        return mk("sub", v.a[1], v.a[2], 1)
    if v.op == "byte" and v.a[0] == 1:
        return mk("be", 1, v.a[1])
    return mk("e", v)


def mkseq(segs):
    out = []
    for g in segs:
        o = g.op
        if o == "sub" and g.a[2] == 0:
            continue
        if o == "fill":
            if g.a[1] == 0:
                continue
            if isinstance(g.a[1], int) and g.a[1] <= 512:
                v = g.a[0]
                if isinstance(v, int):
                    g = mk("c", *([v] * g.a[1]))
                    o = "c"
        if o == "rep" and g.a[0] == 0:
            continue
        if o == "c" and not g.a:
            continue
        if o == "be" and isinstance(g.a[1], int):
            w, v = g.a
            g = mk("c", *[(v >> (8 * (w - 1 - i))) & 255 for i in range(w)])
            o = "c"
        if o == "be" and g.a[0] == 1:
            v = g.a[1]
            r = rng(v)
            if r and r[0] >= 0 and r[1] <= 255:
                g = elem(v) if not (isT(v) and v.op == "byte") else mk("e", v)
                o = g.op
        if out:
            p = out[-1]
            if o == "c" and p.op == "c":
                out[-1] = mk("c", *(p.a + g.a))
                continue
            if o == "sub" and p.op == "sub" and p.a[0] is g.a[0] and add(p.a[1], p.a[2]) == g.a[1]:
                out[-1] = mk("sub", p.a[0], p.a[1], add(p.a[2], g.a[2]))
                continue
            if o == "fill" and p.op == "fill" and p.a[0] == g.a[0]:
                out[-1] = mk("fill", p.a[0], add(p.a[1], g.a[1]))
                continue
            if o == "fill" and p.op == "c" and isinstance(g.a[0], int) and all(x == g.a[0] for x in p.a):
                out[-1] = mk("fill", g.a[0], add(len(p.a), g.a[1]))
                continue
            if o == "c" and p.op == "fill" and all(x == p.a[0] for x in g.a):
                out[-1] = mk("fill", p.a[0], add(len(g.a), p.a[1]))
                continue
        out.append(g)
        # merge a complete run of byte(w,t,0..w-1)
        if g.op == "e" and isT(g.a[0]) and g.a[0].op == "byte":
            w, t, i = g.a[0].a
            if i == w - 1 and len(out) >= w and all(out[-w + j].op == "e" and out[-w + j].a[0] is mk("byte", w, t, j) for j in range(w)):
                del out[-w:]
                out.append(mk("be", w, t))
    return mk("seq", *out)


def cat(a, b):
    return mkseq(a.a + b.a)


def const_bytes(s):
    """python list if the sequence is fully constant"""
    out = []
    for g in s.a:
        if g.op == "c":
            out += list(g.a)
        elif g.op == "fill" and isinstance(g.a[1], int) and isinstance(g.a[0], int):
            out += [g.a[0]] * g.a[1]
        else:
            return None
    return out


class NoFacts:
    def ent(self, lit):
        return lit == 1


NOF = NoFacts()


def seg_at(g, off, ety):
    """element of a segment at in-range offset"""
    o = g.op
    if o == "c":
        if isinstance(off, int):
            return g.a[off]
        return None
    if o == "e":
        return g.a[0]
    if o == "be":
        if isinstance(off, int):
            return _byte(g.a[0], g.a[1], off)
        return None
    if o == "fill":
        return g.a[0]
    if o == "sub":
        return at(g.a[0], add(g.a[1], off), ety)
    if o == "rep":
        n, body, h = g.a
        if seq_len(body) == 1:
            return seg_at(inst(body, h, off).a[0], 0, ety) if inst(body, h, off).a else None
    if o == "cs":
        vs = [seq_at(x[1], 0, ety) for x in g.a]
        if all(v is vs[0] or v == vs[0] for v in vs):
            return vs[0]
        if all(isT(v) and v.op == "vec" for v in vs):
            return mk("vec", mk("seq", mkcs([(x[0], v.a[0]) for x, v in zip(g.a, vs)])))
    return None


def at(q, i, ety):
    if q.op == "seq":
        r = seq_at(q, i, ety)
        return r
    if q.op == "S":
        ety = q.a[0]
    if q.op == "revq":
        return seq_at(q.a[0], sub(sub(seq_len(q.a[0]), 1), i), ety)
    t = mk("at", ety, q, i)
    return mat(t)


def seq_find(s, i, facts=NOF):
    """-> (segindex, offset) of element i, or None"""
    pos = 0
    for n, g in enumerate(s.a):
        l = seg_len(g)
        off = sub(i, pos)
        # i >= pos is an invariant of the walk
        c = lt(off, l)
        if c == 1 or (c != 0 and facts.ent(c)):
            return n, off
        if n == len(s.a) - 1:
            return n, off   # caller has established i < len
        c2 = le(l, off)
        if not (c2 == 1 or (c2 != 0 and facts.ent(c2))):
            return None
        pos = add(pos, l)
    return None


def seq_at(s, i, ety, facts=NOF):
    if len(s.a) == 1 and s.a[0].op == "sub":
        return at(s.a[0].a[0], add(s.a[0].a[1], i), ety)
    f = seq_find(s, i, facts)
    if f:
        v = seg_at(s.a[f[0]], f[1], ety)
        if v is not None:
            return v
    return mk("at", ety, s, i)


def seg_slice(g, a, n):
    """sub-segment [a, a+n) of g -> list of segs or None"""
    if a == 0 and n == seg_len(g):
        return [g]
    if n == 0:
        return []
    o = g.op
    if o == "sub":
        return [mk("sub", g.a[0], add(g.a[1], a), n)]
    if o == "fill":
        return [mk("fill", g.a[0], n)]
    if o == "c" and isinstance(a, int) and isinstance(n, int):
        return [mk("c", *g.a[a:a + n])]
    if o == "c" and len(set(g.a)) == 1:
        return [mk("fill", g.a[0], n)]
    if o == "be" and isinstance(a, int) and isinstance(n, int):
        return [mk("e", mk("byte", g.a[0], g.a[1], j)) for j in range(a, a + n)]
    if o == "rep":
        m, body, h = g.a
        bl = seq_len(body)
        if bl == 1:
            if a == 0:
                return [mk("rep", n, body, h)]
            return [close_rep(n, lambda k: inst(body, h, add(a, k)))]
        if isinstance(bl, int) and bl > 1:
            ca, da = lin(a)
            cn, dn = lin(n)
            if ca % bl == 0 and cn % bl == 0 and all(v % bl == 0 for v in da.values()) and all(v % bl == 0 for v in dn.values()):
                a1 = unlin(ca // bl, {k: v // bl for k, v in da.items()})
                n1 = unlin(cn // bl, {k: v // bl for k, v in dn.items()})
                return [close_rep(n1, lambda k: inst(body, h, add(a1, k)))]
    return None


def seq_slice(s, a, n, facts=NOF):
    """[a, a+n) of s (in range) -> seq or an opaque slice"""
    if a == 0 and n == seq_len(s):
        return s
    if n == 0:
        return EMPTY
    out = []
    pos = 0
    end = add(a, n)
    st = 0
    segs = s.a
    for idx, g in enumerate(segs):
        l = seg_len(g)
        nxt = add(pos, l)
        if st == 0:
            # does the window start in this segment?
            if idx == len(segs) - 1:
                inside = True
            else:
                c = lt(a, nxt)
                inside = c == 1 or (c != 0 and facts.ent(c))
                if not inside:
                    c2 = le(nxt, a)
                    if not (c2 == 1 or (c2 != 0 and facts.ent(c2))):
                        c = le(a, nxt)
                        inside = c == 1 or (c != 0 and facts.ent(c))
                        if not inside:
                            return mk("seq", mk("sub", s, a, n))
            if not inside:
                pos = nxt
                continue
            st = 1
            o = sub(a, pos)
        else:
            o = 0
        # does it end here?
        if idx == len(segs) - 1:
            ends = True
        else:
            c = le(end, nxt)
            ends = c == 1 or (c != 0 and facts.ent(c))
            if not ends:
                c2 = le(nxt, end)
                if not (c2 == 1 or (c2 != 0 and facts.ent(c2))):
                    return mk("seq", mk("sub", s, a, n))
        if ends:
            r = seg_slice(g, o, sub(sub(end, pos), o))
        else:
            r = seg_slice(g, o, sub(l, o))
        if r is None:
            return mk("seq", mk("sub", s, a, n))
        out += r
        if ends:
            return mkseq(out)
        pos = nxt
    return mkseq(out)


def seq_write(s, a, new, facts=NOF):
    """s with [a, a+len(new)) replaced"""
    n = seq_len(new)
    L = seq_len(s)
    pre = seq_slice(s, 0, a, facts)
    suf = seq_slice(s, add(a, n), sub(L, add(a, n)), facts)
    return mkseq(pre.a + new.a + suf.a)


# ---------------------------------------------------------------- binders
def height(t):
    """largest binder number used inside t"""
    if isinstance(t, tuple):
        return max((height(x) for x in t), default=0)
    if not isT(t):
        return 0
    if t._h is None:
        h = max((height(x) for x in t.a), default=0)
        if t.op == "bv":
            h = max(h, t.a[0])
        t._h = h
    return t._h


_FB = {}
_BIND = {"kx": 0, "all": 2, "rep": 2, "sum": 2}


def freebv(t):
    """binder numbers free in t"""
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= freebv(x)
        return r
    if not isT(t):
        return frozenset()
    r = _FB.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.a[0],))
        elif t.op in _BIND:
            h = t.a[_BIND[t.op]]
            b = t.a[1]
            r = freebv(b) - {h}
            if t.op != "kx":
                r |= freebv(t.a[0])
        elif t.op in ("rec", "recq"):
            kk, body = t.a[-2], t.a[-1]
            r = (freebv(body[2]) - {body[0]}) | freebv(body[1]) | freebv(kk)
        else:
            r = frozenset()
            for x in t.a:
                r |= freebv(x)
        _FB[t] = r
    return r


def close_rep(n, f, var=None):
    """rep over k<n of the sequence f(k)"""
    v = mk("k", "tmp")
    body = f(v)
    return bind_rep(n, body, v)


def bind_rep(n, body, var):
    h = height(body) + 1
    b = subst(body, {var: mk("bv", h)})
    # unit bodies that walk a sequence are a slice of it
    if len(b.a) == 1:
        g = b.a[0]
        kv = mk("bv", h)
        if g.op == "sub" and g.a[2] == 1 and not occurs(g.a[0], kv):
            d = sub(g.a[1], kv)
            if not occurs(d, kv):
                return mk("sub", g.a[0], d, n)
            d = add(g.a[1], kv)
            if not occurs(d, kv):
                return mk("sub", mk("revq", mkseq([mk("sub", g.a[0], sub(d, sub(n, 1)), n)])), 0, n)
        if g.op == "e" and not occurs(g.a[0], kv):
            return mk("fill", g.a[0], n)
        if g.op == "c" and len(g.a) == 1:
            return mk("fill", g.a[0], n)
    return mk("rep", n, b, h)


def inst(body, h, k):
    return subst(body, {mk("bv", h): k})


def occurs(t, v, seen=None):
    if t is v:
        return True
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        return any(occurs(x, v, seen) for x in t)
    if not isT(t) or t in seen:
        return False
    seen.add(t)
    return any(occurs(x, v, seen) for x in t.a)


_skey = {}


def mkcs(arms):
    return mk("cs", *sorted(arms, key=lambda x: skey(x[0])))


def skey(t):
    """a structural sort key that does not depend on creation order"""
    if isinstance(t, tuple):
        return hash(("t",) + tuple(skey(x) for x in t))
    if not isT(t):
        return zlib.crc32(repr(t).encode())
    if t.op in ("k", "phi", "phiq", "bv"):
        return 7
    r = _skey.get(t)
    if r is None:
        r = hash((zlib.crc32(t.op.encode()),) + tuple(skey(x) for x in t.a))
        _skey[t] = r
    return r


def has_op(t, ops, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return any(has_op(x, ops, memo) for x in t)
    if not isT(t):
        return False
    r = memo.get(t)
    if r is None:
        r = t.op in ops or any(has_op(x, ops, memo) for x in t.a)
        memo[t] = r
    return r


def atoms_in(t, pred, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if isinstance(t, tuple):
        for x in t:
            atoms_in(x, pred, out, seen)
        return out
    if not isT(t) or t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for x in t.a:
        atoms_in(x, pred, out, seen)
    return out


# ---------------------------------------------------------------- symbolic values by type
def mat(t):
    """structural view of a typed atom"""
    ty = tyof(t)
    ti = tinfo(ty)
    k = ti["k"]
    if k == "adt":
        d = ti["def"]
        if is_vec(ti):
            return mk("vec", whole(mk("S", vec_elem(ti), t)))
        if ti["box"]:
            p = ti["a"][0]
            return mk("box", mat_pointee(p, t))
        return t
    if k == "array":
        if ti["n"] == 0:
            return EMPTY
        return whole(mk("S", ti["e"], t))
    if k in ("ref", "ptr"):
        p = tinfo(ti["e"])
        if p["k"] in ("str", "slice"):
            q = mk("S", u8ty() if p["k"] == "str" else p["e"], t)
            return mk("sref", ("H", t), (), 0, qlen(q))
        return mk("ref", ("H", t), ())
    if k == "tuple" and not ti["f"]:
        return mk("agg", 0)
    if k == "fndef":
        return mk("agg", 0)
    return t


_u8 = [None]


def u8ty():
    if _u8[0] is None:
        for i, t in enumerate(TYPES):
            if t["s"] == "u8":
                _u8[0] = i
    return _u8[0]


def ty_by_name(s):
    for i, t in enumerate(TYPES):
        if t["s"] == s:
            return i
    return None


def mat_pointee(p, t):
    pi = tinfo(p)
    if pi["k"] in ("str", "slice"):
        return whole(mk("S", u8ty() if pi["k"] == "str" else pi["e"], t))
    return mat(mk("deref", p, t))


VECS = {"std::vec::Vec": 0, "std::string::String": None, "std::collections::VecDeque": 0}


def is_vec(ti):
    return ti["k"] == "adt" and ti["def"] in VECS


def vec_elem(ti):
    i = VECS[ti["def"]]
    return u8ty() if i is None else ti["a"][i]


# types with one value only: no constructor puts anything else in their private field
ONE = {"stacks_rs::clarity::True": ("bool", 1), "stacks_rs::clarity::False": ("bool", 0), "stacks_rs::clarity::OptionalNone": ("adt", None)}


def fld(t, v, i, ty):
    if isT(t) and t.op in TYPED and i == 0:
        d = tinfo(tyof(t)).get("def")
        if d in ONE and tinfo(ty)["k"] == ONE[d][0]:
            if d.endswith("None"):
                if tinfo(ty).get("def") == "std::option::Option":
                    return mk("agg", 0)
            else:
                return ONE[d][1]
    return mat(mk("fld", ty, t, v, i))


def unmat(v):
    """the atom whose structural view is v, or v"""
    if isT(v):
        if v.op == "vec" and len(v.a[0].a) == 1:
            g = v.a[0].a[0]
            if g.op == "sub" and g.a[0].op == "S" and g.a[1] == 0 and g.a[2] == qlen(g.a[0]) and is_vec(tinfo(tyof(g.a[0].a[1]))):
                return g.a[0].a[1]
        if v.op == "seq" and len(v.a) == 1:
            g = v.a[0]
            if g.op == "sub" and g.a[0].op == "S" and g.a[1] == 0 and g.a[2] == qlen(g.a[0]) and tinfo(tyof(g.a[0].a[1]))["k"] == "array":
                return g.a[0].a[1]
        if v.op == "box":
            x = v.a[0]
            if isT(x) and x.op == "deref":
                return x.a[1]
        if v.op == "ref" and v.a[1] == () and isinstance(v.a[0], tuple) and v.a[0][0] == "H":
            return v.a[0][1]
    return v


def nfields(ty, v):
    ti = tinfo(ty)
    k = ti["k"]
    if k == "adt":
        return [f[1] for f in ti["v"][v]["f"]]
    if k == "tuple":
        return ti["f"]
    if k == "closure":
        return tinfo(ti["up"])["f"]
    return None


def expand(t, v):
    """agg view of an atom for variant v"""
    fs = nfields(tyof(t), v)
    if fs is None:
        return None
    return mk("agg", v, *[fld(t, v, i, f) for i, f in enumerate(fs)])


def eta(v, facts=None):
    """undo expand where possible (structs; enums when the variant is known)"""
    if not isT(v):
        return v
    if v.op == "agg" and len(v.a) > 1:
        fs = [unmat(eta(x, facts)) for x in v.a[1:]]
        f0 = fs[0]
        if isT(f0) and f0.op == "fld":
            b = f0.a[1]
            bt = tyof(b)
            n = nfields(bt, f0.a[2]) if bt >= 0 else None
            if n is not None and len(n) == len(fs) and f0.a[2] == v.a[0] and all(isT(x) and x.op == "fld" and x.a[1] is b and x.a[2] == v.a[0] and x.a[3] == i for i, x in enumerate(fs)):
                if not is_enum(bt) or (facts is not None and facts.ent(isv(b, v.a[0]))):
                    return mat(b)
        return mk("agg", v.a[0], *[eta(x, facts) for x in v.a[1:]])
    if v.op in ("box", "dynv"):
        return mk(v.op, *[eta(x, facts) for x in v.a])
    return v


# ---------------------------------------------------------------- substitution
REB = {}


def rebuild(op, a):
    f = REB.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isT(t):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    na = []
    for x in t.a:
        y = subst(x, m, memo) if (isT(x) or isinstance(x, tuple)) else x
        if y is not x and y != x:
            ch = True
        na.append(y)
    if ch:
        r = rebuild(t.op, na)
    else:
        r = t
    memo[t] = r
    return r


def _plus(c, items):
    r = c
    for t, k in items:
        r = add(r, scale(t, k))
    return r


def _at(ety, q, i):
    return at(q, i, ety) if q.op in ("seq", "S", "hash", "fixed") else mk("at", ety, q, i)


def _sub(q, a, n):
    return mk("sub", q, a, n)


def _seq(*segs):
    out = []
    for g in segs:
        if g.op == "sub" and g.a[0].op == "seq":
            out += list(seq_slice(g.a[0], g.a[1], g.a[2]).a)
        elif g.op == "sub" and g.a[0].op == "agg":
            out.append(g)
        elif g.op == "seq":
            out += list(g.a)
        elif g.op == "e":
            out.append(elem(g.a[0]))
        else:
            out.append(g)
    return mkseq(out)


def _fixed(q, n):
    return q if q.op == "seq" and seq_len(q) == n else mk("fixed", q, n)


def _len(q):
    if q.op == "seq":
        return seq_len(q)
    if q.op in ("sub", "c", "e", "be", "fill", "rep", "cs"):
        return seg_len(q)
    return qlen(q)


def _S(ety, t):
    # the content of a structural value
    if isT(t) and t.op == "vec":
        return t.a[0]
    if isT(t) and t.op == "seq":
        return t
    if isT(t) and t.op == "box":
        return _S(ety, t.a[0])
    return mk("S", ety, t)


def _fld(ty, t, v, i):
    if isT(t) and t.op == "agg":
        if t.a[0] == v and i + 1 < len(t.a):
            return t.a[i + 1]
        return mk("undef")
    return fld(t, v, i, ty)


def _deref(ty, t):
    if isT(t) and t.op == "box":
        return t.a[0]
    return mk("deref", ty, t)


def _isv(t, v):
    if isT(t) and t.op == "agg":
        return int(t.a[0] == v)
    if isT(t) and t.op == "case":
        pass
    return mk("isv", t, v)


def _discr(t):
    return mk("discr", t)


def _rep(n, body, h):
    # re-canonicalise the binder
    v = mk("k", "rb")
    g = bind_rep(n, subst(body, {mk("bv", h): v}), v)
    return g


def _e(v):
    return elem(v)


def _bin(op, a, b, ty):
    from_ = BINOP[0]
    return from_(op, a, b, ty) if from_ else mk("bin", op, a, b, ty)


BINOP = [None]


def _byte(w, t, i):
    if isinstance(t, int):
        return (t >> (8 * (w - 1 - i))) & 255
    r = rng(t)
    if r and r[0] >= 0:
        if r[1] < 1 << (8 * (w - 1 - i)):
            return 0
        if i == w - 1 and r[1] <= 255:
            return t
    return mk("byte", w, t, i)


def _not(b):
    return neg(b)


def _call(ty, name, *a):
    return mk("call", ty, name, *a)


def _eqv(a, b):
    return eqv(a, b)


def scalarish(v):
    return isinstance(v, int) or (isT(v) and v.op not in ("agg", "vec", "seq", "box", "ref", "sref", "dynv", "dref"))


def eqv(a, b):
    """equality of two values"""
    if a is b or (not isT(a) and not isT(b) and a == b):
        return 1
    if isinstance(a, int) or isinstance(b, int):
        return eqi(a, b)
    if a.op == "vec":
        a = a.a[0]
    if b.op == "vec":
        b = b.a[0]
    if a.op == "seq" and b.op == "seq":
        if a is b:
            return 1
        la, lb = seq_len(a), seq_len(b)
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return 0
        ca, cb = const_bytes(a), const_bytes(b)
        if ca is not None and cb is not None:
            return int(ca == cb)
        # trim equal prefix
        x, y = list(a.a), list(b.a)
        while x and y and x[0] is y[0]:
            x.pop(0)
            y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop()
            y.pop()
        a, b = mk("seq", *x), mk("seq", *y)
        if seq_len(a) == 1 and seq_len(b) == 1:
            return eqi(seq_at(a, 0, u8ty()), seq_at(b, 0, u8ty()))
        if not x or not y:
            return eq0(sub(seq_len(a), seq_len(b)))
    if a.op == "agg" and b.op == "agg":
        if a.a[0] != b.a[0]:
            return 0
        if len(a.a) == 1:
            return 1
        if len(a.a) == 2:
            return eqv(a.a[1], b.a[1])
    if rng(a) is not None and rng(b) is not None:
        return eqi(a, b)
    if a.id > b.id:
        a, b = b, a
    return mk("eqv", a, b)


REB.update({"+": _plus, "at": _at, "sub": _sub, "seq": _seq, "len": _len, "S": _S, "fld": _fld, "deref": _deref,
            "isv": _isv, "rep": _rep, "e": _e, "bin": _bin, "byte": _byte, "not": _not, "le": le0, "eq": eq0,
            "eqv": _eqv, "call": _call, "fixed": _fixed})


# ---------------------------------------------------------------- facts (linear inequalities + literals)
_recb = {}


def rec_bounds(t):
    """init + lo*k <= rec <= init + hi*k for a recurrence whose every arm adds a constant"""
    r = _recb.get(t)
    if r is not None:
        return r
    r = []
    if t.op == "len":
        if is_chars(t.a[0]):
            # 1 to 4 bytes per character
            n = seq_len(t.a[0].a[1].a[2])
            r = [x for x in (lin(sub(t, n)), lin(sub(n, scale(t, 4)))) if x[1]]
        q = t.a[0]
        if q.op == "S" and isT(q.a[1]) and q.a[1].op == "fld" and isT(q.a[1].a[1]) and q.a[1].a[1].op == "call":
            b = decoded_from(q.a[1].a[1])
            if b is not None:
                r = [x for x in (lin(sub(t, seq_len(b))), lin(sub(1, t))) if x[1]]
        _recb[t] = r
        return r
    if t.op == "call":
        r = [x for x in (lin(add(sub(t, t.a[3]), 1)),) if x[1]]
        _recb[t] = r
        return r
    if t.op == "bin":
        op, x, y, ty = t.a
        rx = rng(x)
        if isinstance(y, int) and y > 0 and rx and rx[0] >= 0:
            q = mk("bin", "Div", x, y, ty)
            if op == "Rem":
                e = sub(sub(x, scale(q, y)), t)
                r = [lin(e), lin(scale(e, -1))]
            elif op == "Div":
                e = sub(x, scale(t, y))
                r = [lin(scale(e, -1)), lin(sub(e, y - 1))]
            r = [x for x in r if x[1]]
        _recb[t] = r
        return r
    ty, kk, (h, inits, ug, i) = t.a
    if atom_range(t) is not None and (isinstance(inits[i], int) or intlike_term(inits[i])):
        ds = []
        rv = mk("rv", ty, i)
        for g, us in ug:
            d = 0 if us[i] is rv else sub(us[i], rv) if isinstance(us[i], int) or intlike_term(us[i]) else None
            ds.append(d)
        if ds and all(isinstance(d, int) for d in ds):
            for d, s in ((min(ds), 1), (max(ds), -1)):
                # s*(init + d*k - rec) <= 0
                r.append(lin(scale(sub(add(inits[i], scale(kk, d)), t), s)))
            r = [x for x in r if x[1]]
    _recb[t] = r
    return r


def is_chars(q):
    return isT(q) and q.op == "S" and isT(q.a[1]) and q.a[1].op == "view" and q.a[1].a[1] == "chars"


def intlike_term(x):
    return isT(x) and (x.op == "+" or rng(x) is not None)


def clash(f):
    """sequences said to be equal that are also said to differ, or plainly do"""
    up = {}

    def root(x):
        while x in up:
            x = up[x]
        return x
    for l in f.order:
        if l.op == "eqv" and isT(l.a[0]) and isT(l.a[1]):
            x, y = root(l.a[0]), root(l.a[1])
            if x is not y:
                if x.op == y.op == "seq":
                    if all(g.op == "c" for g in x.a) and all(g.op == "c" for g in y.a):
                        return True
                    # a spelled-out one stands for the class
                    if all(g.op == "c" for g in x.a):
                        x, y = y, x
                up[x] = y
    if up:
        for l in f.order:
            if l.op == "not" and l.a[0].op == "eqv" and root(l.a[0].a[0]) is root(l.a[0].a[1]):
                return True
    return False


def points(a, b):
    """positions that stand for every position of two sequences of the same length; None: too many"""
    la, lb = seq_len(a), seq_len(b)
    if not isinstance(la, int) or la != lb:
        return None
    if la <= 16 or la <= 128 and not (fills(a) and fills(b)):
        return range(la)
    if not (fills(a) and fills(b)):
        return None
    at_ = set()
    for q in (a, b):
        i = 0
        for g in q.a:
            n = len(g.a) if g.op == "c" else g.a[1] if g.op == "fill" else 1
            at_.update(range(i, i + n) if g.op == "c" else (i,))
            i += n
    return sorted(at_) if len(at_) <= 200 else None


def fills(q):
    return all(g.op in ("c", "e") or g.op == "fill" and isinstance(g.a[1], int) for g in q.a)


class Facts:
    """A conjunction of literals.  Linear ones are decided by Fourier-Motzkin
    elimination with integer tightening; the others by syntactic contradiction."""
    __slots__ = ("lits", "order", "cache", "cons")

    def __init__(self, lits=frozenset(), order=()):
        self.lits = lits
        self.order = order
        self.cache = {}
        self.cons = None

    def constraints(self):
        if self.cons is None:
            self.cons = []
            for l in self.order:
                if l.op == "le":
                    self.cons.append(lin(l.a[0]))
                elif l.op == "eq":
                    c, d = lin(l.a[0])
                    self.cons.append((c, d))
                    self.cons.append((-c, {k: -v for k, v in d.items()}))
                elif l.op == "isv" and tyof(l.a[0]) >= 0:
                    self._dc(l.a[0], l.a[1])
                elif l.op == "not" and isT(l.a[0]) and l.a[0].op == "isv":
                    t = l.a[0].a[0]
                    vs = tinfo(tyof(t)).get("v") or ()
                    if len(vs) > 2:
                        left = [i for i in range(len(vs)) if neg(isv(t, i)) not in self.lits]
                        if len(left) == 1:
                            self._dc(t, left[0])
            for x in self.neqs():
                # x != 0 and x >= 0 (or <= 0): x >= 1 (x <= -1)
                r = rng(x)
                if r is not None:
                    c, d = lin(x)
                    if r[0] == 0:
                        self.cons.append((1 - c, {k: -v for k, v in d.items()}))
                    elif r[1] == 0:
                        self.cons.append((1 + c, d))
                    elif len(self.order) < 40:
                        base = self.cons
                        if infeasible(base + [(1 + c, d)]):
                            self.cons = base + [(1 - c, {k: -v for k, v in d.items()})]
                        elif infeasible(base + [(1 - c, {k: -v for k, v in d.items()})]):
                            self.cons = base + [(1 + c, d)]
            rs = {k for c, d in self.cons for k in d if k.op in ("rec", "len") or k.op == "bin" and k.a[0] in ("Div", "Rem")
                  or k.op == "call" and k.a[1].startswith("perm:")}
            for t in rs:
                self.cons += rec_bounds(t)
        return self.cons

    def _dc(self, t, v):
        vs = tinfo(tyof(t)).get("v")
        if vs and v < len(vs):
            d = vs[v].get("d", v)
            x = mk("discr", t)
            self.cons.append((-d, {x: 1}))
            self.cons.append((d, {x: -1}))

    def neqs(self):
        return [l.a[0].a[0] for l in self.order if l.op == "not" and isT(l.a[0]) and l.a[0].op == "eq"]

    def relevant(self, atoms):
        cons = self.constraints()
        pend = list(cons)
        seen = set(atoms)
        out = []
        ch = True
        derived = set()
        while ch:
            ch = False
            for t in list(seen):
                if (t.op in ("rec", "len") or t.op == "bin" and t.a[0] in ("Div", "Rem")) and t not in derived:
                    derived.add(t)
                    pend += rec_bounds(t)
            rest = []
            for c in pend:
                if any(k in seen for k in c[1]):
                    out.append(c)
                    for k in c[1]:
                        if k not in seen:
                            seen.add(k)
                            ch = True
                else:
                    rest.append(c)
            pend = rest
        return out

    def ent(self, lit):
        """does the conjunction entail lit?  (False = not known)"""
        if isinstance(lit, int):
            return bool(lit)
        if lit in self.lits:
            return True
        r = self.cache.get(lit)
        if r is None:
            r = self._ent(lit)
            self.cache[lit] = r
        return r

    def _ent(self, lit):
        if lit.op == "le":
            c, d = lin(lit.a[0])
            neg_ = (1 - c, {k: -v for k, v in d.items()})
            if infeasible(self.relevant(d.keys()) + [neg_]):
                return True
            return False
        if lit.op == "eq":
            c, d = lin(lit.a[0])
            return self.ent(le0(lit.a[0])) and self.ent(le0(scale(lit.a[0], -1)))
        if lit.op == "not" and isT(lit.a[0]) and lit.a[0].op == "eq":
            x = lit.a[0].a[0]
            c, d = lin(x)
            rel = self.relevant(d.keys())
            if infeasible(rel + [(c, d), (-c, {k: -v for k, v in d.items()})]):
                return True
            return False
        if lit.op == "isv":
            t, v = lit.a
            vs = len(tinfo(tyof(t)).get("v", []))
            if vs > 2:
                no = [l.a[0].a[1] for l in self.lits if l.op == "not" and isT(l.a[0]) and l.a[0].op == "isv" and l.a[0].a[0] is t]
                if len(set(no)) == vs - 1 and v not in no:
                    return True
            return False
        if lit.op == "not":
            p = lit.a[0]
            if p.op == "isv":
                for l in self.lits:
                    if l.op == "isv" and l.a[0] is p.a[0] and l.a[1] != p.a[1]:
                        return True
            if p.op == "dynis":
                for l in self.lits:
                    if l.op == "dynis" and l.a[0] is p.a[0] and l.a[1] != p.a[1]:
                        return True
            if p.op == "eqv":
                # differing length or a differing element
                a, b = p.a
                if a.op == "seq" and b.op == "seq" and self.ent(neg(eqi(seq_len(a), seq_len(b)))):
                    return True
            if p.op == "pred" and p.a[0] == "and":
                return any(self.refutes(x) for x in p.a[1:])
        if lit.op == "pred" and lit.a[0] == "and":
            return all(self.ent(x) for x in lit.a[1:])
        if lit.op == "eqv":
            a, b = lit.a
            if a.op == "seq" and b.op == "seq":
                p = points(a, b)
                if p is not None:
                    return all(self.ent(eqv(seq_at(a, i, u8ty()), seq_at(b, i, u8ty()))) for i in p)
        return False

    def refutes(self, lit):
        if isinstance(lit, int):
            return not lit
        return self.ent(neg(lit))

    def add(self, lit):
        """-> Facts with lit, or None when contradictory"""
        if isinstance(lit, int):
            return self if lit else None
        if lit.op in TYPED:
            lit = neg(eqi(lit, 0))
        if lit in self.lits:
            return self
        if neg(lit) in self.lits or self.refutes(lit):
            return None
        if lit.op in ("le", "eq", "not") and self.ent(lit):
            return self
        if lit.op == "pred" and lit.a[0] == "and":
            f = self
            for x in lit.a[1:]:
                f = f.add(x)
                if f is None:
                    return None
            return f
        new = [lit]
        if lit.op == "eqv":
            a, b = lit.a
            if a.op == "seq" and b.op == "seq":
                la, lb = seq_len(a), seq_len(b)
                e = eqi(la, lb)
                if not isinstance(e, int):
                    new.append(e)
                p = points(a, b)
                if p is not None:
                    for i in p:
                        x = eqv(seq_at(a, i, u8ty()), seq_at(b, i, u8ty()))
                        if x == 0:
                            return None
                        if isT(x):
                            new.append(x)
        f = Facts(self.lits | frozenset(new), self.order + tuple(x for x in new if x not in self.lits))
        if (lit.op == "eqv" or lit.op == "not" and lit.a[0].op == "eqv") and clash(f):
            return None
        # disequalities may have become violated
        for n in f.neqs():
            c, d = lin(n)
            if lit.op in ("le", "eq", "eqv") or lit is f.order[-1]:
                if f.ent(mk("eq", n)) if isT(n) else n == 0:
                    return None
        if any(x.op in ("le", "eq") for x in new):
            for l in f.order:
                if l.op == "not" and isT(l.a[0]) and l.a[0].op == "eqv" and f._ent(l.a[0]):
                    return None
        for l in f.order:
            if l.op == "not" and isT(l.a[0]) and l.a[0].op == "pred" and l.a[0].a[0] == "and":
                left = [x for x in l.a[0].a[1:] if not f.ent(x)]
                if not left:
                    return None
                if len(left) == 1 and neg(left[0]) not in f.lits:
                    return f.add(neg(left[0]))
        return f

    def add_all(self, lits):
        f = self
        for l in lits:
            f = f.add(l)
            if f is None:
                return None
        return f


def infeasible(cons, limit=260):
    """Fourier-Motzkin over the rationals with integer tightening; True only if no solution"""
    work = {}

    def put(c, d):
        if not d:
            return c > 0
        g = 0
        for v in d.values():
            g = gcd(g, abs(v))
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            c = -((-c) // g)
        key = tuple(sorted(((k.id, v) for k, v in d.items())))
        o = work.get(key)
        if o is None or o[0] < c:
            work[key] = (c, d)
        return False
    atoms = set()
    for c, d in cons:
        if put(c, {k: v for k, v in d.items() if v}):
            return True
        atoms |= set(d.keys())
    for a in atoms:
        r = atom_range(a)
        if r:
            if put(-r[1], {a: 1}) or put(r[0], {a: -1}):
                return True
    while work:
        # variables pinned to one value, and equalities with a unit coefficient, are substituted first
        sb = None
        for key, (c, d) in work.items():
            nk = tuple((i, -v) for i, v in key)
            o = work.get(nk)
            if o is not None and o[0] + c == 0:
                if len(d) == 1:
                    sb = (c, d, next(iter(d)))
                    break
                if sb is None:
                    u = [k for k, v in d.items() if abs(v) == 1]
                    if u:
                        sb = (c, d, min(u, key=lambda k: k.id))
            elif o is not None and o[0] + c > 0:
                return True
        if sb is not None:
            c, d, x = sb
            s = d[x]
            # x = -s*(c + rest)   (|s| = 1 after normalisation)
            old = list(work.values())
            work.clear()
            for c1, d1 in old:
                m = d1.get(x)
                if m is None:
                    if put(c1, d1):
                        return True
                    continue
                nd = {k: v for k, v in d1.items() if k is not x}
                for k, v in d.items():
                    if k is not x:
                        nd[k] = nd.get(k, 0) - m * s * v
                if put(c1 - m * s * c, {k: v for k, v in nd.items() if v}):
                    return True
            continue
        cs = list(work.values())
        cnt = {}
        for c, d in cs:
            for k, v in d.items():
                p = cnt.setdefault(k, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not cnt:
            return False
        best = min(cnt, key=lambda k: cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1])
        pos = [x for x in cs if x[1].get(best, 0) > 0]
        ngs = [x for x in cs if x[1].get(best, 0) < 0]
        rest = [x for x in cs if not x[1].get(best)]
        if len(pos) * len(ngs) + len(rest) > limit:
            return False
        work.clear()
        for c, d in rest:
            if put(c, d):
                return True
        for c1, d1 in pos:
            for c2, d2 in ngs:
                a1, a2 = d1[best], -d2[best]
                d = {}
                for k, v in d1.items():
                    d[k] = v * a2
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * a1
                d = {k: v for k, v in d.items() if v}
                if put(c1 * a2 + c2 * a1, d):
                    return True
    return False


TRUE = Facts()


def find_at(t, base, out=None):
    """the elements of `base` that a term reads"""
    out = [] if out is None else out
    if isinstance(t, tuple):
        for x in t:
            find_at(x, base, out)
    elif isT(t):
        if t.op == "at" and t.a[1] is base and t not in out:
            out.append(t)
        for x in t.a:
            find_at(x, base, out)
    return out
