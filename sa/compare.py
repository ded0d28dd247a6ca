"""Comparison of two abstract summaries (implementation against reference).

Both summaries are finite sets of (facts, result) cases produced by the same
dataflow engine.  Two cases that can hold for the same input must yield the same
result.  The verdict for a pair is "eq", "ne" (a definite difference) or "?"
(the domain cannot tell; reported as undecided, never as a violation)."""
from terms import *
import terms as T
import witness, concret, time

CONG = ("hash", "S", "at", "call", "fld", "view", "fixed", "byte", "secp")
INJ = ("hash", "S")
FUZZY = ("kx", "rec", "recq", "rv", "rvq", "phi", "phq", "undef", "pv", "k", "cs", "ifs")


def is_lim(t, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return any(is_lim(x, memo) for x in t)
    if not isT(t):
        return False
    r = memo.get(t)
    if r is None:
        memo[t] = False
        r = (t.op in ("call", "mut", "pred") and any(isinstance(x, str) and x.startswith("lim:") for x in t.a)) or t.op == "undef" or any(is_lim(x, memo) for x in t.a)
        memo[t] = r
    return r


def charat(t, memo=None):
    """reads a character of a string by character position"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return any(charat(x, memo) for x in t)
    if not isT(t):
        return False
    r = memo.get(t)
    if r is None:
        r = False
        if t.op in ("at", "sub"):
            b = t.a[1] if t.op == "at" else t.a[0]
            # a character position, or a position in a layout the domain could not resolve
            r = T.is_chars(b) or isT(b) and b.op == "seq" and not all(x.op in ("c", "e") for x in b.a)
        elif t.op in ("pred", "call"):
            # a question about a map that was not known when it was asked and is known now
            i = 1 if t.op == "pred" else 2
            r = t.a[i - 1] in ("has", "map::get", "map::len") and isT(t.a[i]) and t.a[i].op == "hm"
        elif t.op == "fmt":
            # one byte or several, padding, a type of another library
            r = t.a[0] == "char" or isinstance(t.a[0], str) and ":" in t.a[0] or isT(t.a[1]) and t.a[1].op == "agg"
        r = memo[t] = r or any(charat(x, memo) for x in t.a)
    return r


def fuzzy(t):
    return has_op(t, FUZZY) or is_lim(t) or charat(t)


def texts(f):
    """what is known of the number of characters of a text, and of repaired text"""
    import prims
    ws = []
    for l in f.order:
        atoms_in(l, lambda t: t.op == "len" and isT(t.a[0]) and not T.freebv(t), ws, set())
    for w in ws:
        x = w.a[0]
        y = x.a[1] if x.op == "S" else x
        try:
            if isT(y) and y.op == "call" and y.a[1] == "lossy":
                # text that was repaired holds a replacement character
                ls = [neg(prims.ascii_lit(T.whole(x)))]
            elif T.is_chars(x):
                s = y.a[2]
                n = T.seq_len(s)
                q = prims.ascii_lit(s)
                ls = [le(w, n), le(n, T.scale(w, 4))]
                if isT(q) and q.op == "all" and (f.ent(q) or all_ent(f, q)):
                    ls.append(T.eqi(w, n))
                elif f.ent(le(n, w)):
                    ls.append(q)
            else:
                continue
        except prims.Lim:
            continue
        for l in ls:
            if l == 1:
                continue
            f = f.add(l) if l != 0 else None
            if f is None:
                return None
    return f


def instantiate(f, extra):
    """facts + instances of the universally quantified ones at the witnesses in sight"""
    if f is None:
        return None
    done = set()
    for l in list(f.order):
        # a character above 127 at a valid position: the string is not ASCII
        if l.op == "le":
            c, d = T.lin(l.a[0])
            if len(d) == 1:
                (x, w), = d.items()
                if w == -1 and c >= 128 and x.op == "at" and T.is_chars(x.a[1]) and f.ent(lt(x.a[2], mk("len", x.a[1]))):
                    import prims
                    g = f.add(neg(prims.ascii_lit(x.a[1].a[1].a[2])))
                    if g is None:
                        return None
                    f = g
    f = texts(f)
    if f is None:
        return None
    for _ in range(3):
        alls = [l for l in f.order if l.op == "all"]
        if not alls:
            return f
        ws = []
        for l in list(f.order) + [x for x in extra if isT(x)]:
            atoms_in(l, lambda t: t.op in ("kx",) or (t.op == "at" and not T.freebv(t)), ws, set())
        idx = []
        for w in ws:
            i = w if w.op == "kx" else w.a[2]
            if i not in idx and not T.freebv(i):
                idx.append(i)
        ch = False
        for l in alls:
            n, b, h = l.a
            for i in idx[:40]:
                if (l, i) in done or (isT(i) and occurs(n, i)) or (isT(n) and isT(i) and i.op == "kx" and occurs(i, l)):
                    continue
                done.add((l, i))
                if f.ent(lt(i, n)):
                    x = T.inst(b, h, i)
                    g = f.add(x)
                    if g is None:
                        return None
                    if g is not f:
                        ch = True
                        f = g
        if not ch:
            return f
    return f


def neg_all(f):
    """contradiction between !all(n,l) and facts that imply every instance"""
    for l in f.order:
        if l.op == "not" and isT(l.a[0]) and l.a[0].op == "all":
            n, b, h = l.a[0].a
            if f.ent(l.a[0]) or all_ent(f, l.a[0]):
                return True
        # ASCII text is UTF-8
        if l.op == "not" and isT(l.a[0]) and l.a[0].op == "pred" and l.a[0].a[0] == "utf8" and isT(l.a[0].a[1]) and l.a[0].a[1].op == "seq":
            import prims
            try:
                q = prims.ascii_lit(l.a[0].a[1])
            except prims.Lim:
                continue
            if all(x == 1 if not isT(x) else f.ent(x) or x.op == "all" and all_ent(f, x) for x in (q.a if isT(q) and q.op == "and" else (q,))):
                return True
    return False


def all_ent(f, q):
    n, b, h = q.a
    if f.ent(le(n, 0)):
        return True
    if f.ent(le(n, 80)):
        # few elements: one by one
        for i in range(81):
            g = f.add(lt(i, n))
            if g is None:
                return True
            if not g.ent(T.inst(b, h, i)):
                break
        else:
            return True
    for l in f.order:
        if l.op != "all":
            continue
        m, c, g = l.a
        if not f.ent(le(n, m)):
            continue
        v = mk("k", "cmp")
        x, y = T.inst(b, h, v), T.inst(c, g, v)
        fx = f.add(y)
        if fx is None or fx.ent(x):
            return True
    return False


def joint(fa, fb, extra=()):
    f = fa.add_all(fb.order)
    if f is None:
        return None
    f = instantiate(f, extra)
    if f is None or neg_all(f):
        return None
    return f


def wraps(f, extra):
    """wrap(ty, t) -> t wherever t is known to lie in the type's range"""
    m = {}
    ws = []
    for l in list(f.order) + [x for x in extra if isT(x)]:
        atoms_in(l, lambda t: t.op == "wrap" and not T.freebv(t), ws, set())
    for w in ws:
        r = rng(w)
        if r is None:
            continue
        if f.ent(le(r[0], w.a[1])) and f.ent(le(w.a[1], r[1])):
            m[w] = w.a[1]
    return m


def reclens(f, vals):
    """len(recq) -> closed form when every step appends the same number of elements"""
    m, ws = {}, []
    for l in list(f.order) + [x for x in vals if isT(x)]:
        atoms_in(l, lambda t: t.op == "len" and isT(t.a[0]) and t.a[0].op == "recq" and not T.freebv(t), ws, set())
    for w in ws:
        kk, (h, inits, ug, p) = w.a[0].a
        init = inits[p]
        n = None
        if not (isT(init) and init.op == "seq"):
            continue
        for _, us in ug:
            u = us[p]
            ok = isT(u) and u.op == "seq" and u.a and u.a[0].op == "sub" and u.a[0].a[0].op == "rvq" and u.a[0].a[0].a == (p,) and all(g.op == "e" for g in u.a[1:])
            c = len(u.a) - 1 if ok else None
            if c is None or n not in (None, c):
                n = None
                break
            n = c
        else:
            if n == 1:
                m[w] = add(seq_len(init), kk)
    return m


def extends(fi, fs, j):
    """The cases meet only at trip counts beyond those looked at one by one, because of
    literals on the count alone.  Every step of the loops involved asks the same of its own
    part of the input: without these literals the cases meet at one, two and three steps."""
    ns = {l.a[0] for l in j.order if l.op == "all" and isT(l.a[0]) and not T.freebv(l.a[0])}
    ns = {n for n in ns if not has_op(n, FUZZY)}
    if len(ns) != 1:
        return False
    n = ns.pop()
    at = set(T.lin(n)[1])
    lits = list(fi.order) + [l for l in fs.order if l not in fi.order]
    # implied by the same statement up to the count
    lits = [l for l in lits if not (l.op == "all" and isinstance(l.a[0], int) and l.a[0] > 3 and mk("all", n, *l.a[1:]) in lits and j.ent(le(l.a[0], n)))]
    big = [l for l in lits if l.op in ("le", "eq") and set(T.lin(l.a[0])[1]) <= at and TRUE.add_all([l, eqi(n, 2)]) is None]
    if not big:
        return False
    own = TRUE.add_all([l for l in lits if l.op in ("le", "eq") and set(T.lin(l.a[0])[1]) <= at])
    if own is None or not witness.sat(own):
        return False
    rest = [l for l in lits if l not in big]
    # invariants of a loop variable nothing else speaks of
    ph = {l: [x for x in atoms_in(l, lambda t: t.op in ("phi", "phiq"), [], set()) or []] for l in rest}
    rest = [l for l in rest if l.op != "le" or not any(T.lin(l.a[0])[1].keys() == {x} and not any(x in ph[k] for k in rest if k is not l) for x in ph[l])]
    c, co = T.lin(n)
    unit = [x for x in co if co[x] == 1]
    if c or not unit:
        return False
    for v in (1, 2, 3):
        m = {x: 0 for x in co}
        m[unit[0]] = v
        f = TRUE.add_all([subst(l, m) for l in rest])
        f = f and joint(f, TRUE)
        if f is None:
            return False
        for g, _, _ in concret.instances(f, 0, 0, 2):
            g = instantiate(g, ())
            if g is not None and not neg_all(g) and not any(fuzzy(l) for l in g.order) and witness.sat(g):
                break
        else:
            return False
    return True


def aliases(f):
    """y -> x for arguments the facts equate"""
    m = {}
    for l in f.order:
        if l.op == "eq":
            c, d = T.lin(l.a[0])
            if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and all(isT(x) and x.op in ("sym", "fld") for x in d):
                x, y = sorted(d, key=lambda t: t.id)
                if x not in m and y not in m:
                    m[y] = x
    return m


def same_index(f, vals):
    """q[j] -> q[i] for elements whose indices the facts equate"""
    by = {}
    for t in concret.find(list(f.order) + [v for v in vals if isT(v)], ("at",)):
        if isT(t.a[1]) and not T.freebv(t) and not witness.table(t):
            by.setdefault(t.a[1], []).append(t)
    m = {}
    for q, ts in by.items():
        if len(ts) < 2 or len(ts) > 24 or all(isinstance(t.a[2], int) for t in ts):
            continue
        ts.sort(key=lambda t: (isT(t.a[2]), t.id))
        for n, t in enumerate(ts):
            if isT(t.a[2]):
                for u in ts[:n]:
                    if u not in m and f.ent(eqi(t.a[2], u.a[2])):
                        m[t] = u
                        break
    return m


def worse(a, b):
    for x in ("ne", "?", "eq"):
        if a == x or b == x:
            return x


class Cmp:
    def __init__(self, ignore_err=True):
        self.ignore_err = ignore_err
        self.why = None

    def diff(self, a, b, kind=None):
        self.why = (a, b)
        return kind or ("?" if fuzzy(a) or fuzzy(b) else "ne")

    def val(self, a, b, f, d=0):
        if a is b or (not isT(a) and not isT(b) and a == b):
            return "eq"
        if d > 40:
            return "?"
        for x, y in ((a, b), (b, a)):
            if isT(x) and x.op == "cases":
                r = "eq"
                for g, v in x.a:
                    ff = f.add_all(g)
                    if ff is None:
                        continue
                    r = worse(r, self.val(v, y, ff, d + 1) if x is a else self.val(y, v, ff, d + 1))
                return r
        ia, ib = self.intlike(a), self.intlike(b)
        if ia or ib:
            if ia and ib:
                a, b = self.unbyte(a, f), self.unbyte(b, f)
                e = eqi(a, b)
                if f.ent(e):
                    return "eq"
                if isT(a) and isT(b) and a.op in ("le", "eq", "not", "isv", "eqv", "pred", "all") or (isT(e) and e.op not in ("eq",)):
                    return self.boolcmp(a, b, f)
                for x in (a, b):
                    if isT(x) and x.op in ("le", "eq", "not", "isv", "eqv", "pred", "all", "dynis"):
                        return self.boolcmp(a, b, f)
                if isT(a) and isT(b) and a.op == b.op and a.op in CONG and a.op != "byte":
                    c = self.cong(a, b, f, d)
                    if c is not None:
                        return c
                if witness.nonlinear(a) or witness.nonlinear(b):
                    w = witness.differ(a, b, f)
                    if w is not True:
                        return self.diff(a, b, "?")
                return self.diff(a, b)
            return self.diff(a, b, "?" if fuzzy(a) or fuzzy(b) else None)
        if not isT(a) or not isT(b):
            return self.diff(a, b)
        if a.op == "vec":
            a = a.a[0]
        if b.op == "vec":
            b = b.a[0]
        if a.op == "seq" or b.op == "seq":
            if a.op != "seq":
                a = self.toseq(a)
            if b.op != "seq":
                b = self.toseq(b)
            if a is None or b is None:
                return "?"
            return self.seq(a, b, f, d)
        if a.op == "box" or b.op == "box":
            x = a.a[0] if a.op == "box" else self.unbox(a)
            y = b.a[0] if b.op == "box" else self.unbox(b)
            if x is None or y is None:
                return "?"
            return self.val(x, y, f, d + 1)
        if a.op == "dynv" and b.op == "dynv":
            if a.a[0] != b.a[0]:
                return self.diff(a, b)
            return self.val(a.a[1], b.a[1], f, d + 1)
        if a.op == "agg" or b.op == "agg":
            sw = a.op != "agg"
            if sw:
                a, b = b, a
            if b.op == "agg":
                if a.a[0] != b.a[0]:
                    return self.diff(a, b, "ne")
                if self.ignore_err and d == 0 and a.a[0] == 1 and len(a.a) == 2 and len(b.a) == 2:
                    return "eq"
                if len(a.a) != len(b.a):
                    return self.diff(a, b)
                r = "eq"
                for x, y in zip(a.a[1:], b.a[1:]):
                    z = self.val(x, y, f, d + 1) if not sw else self.val(y, x, f, d + 1)
                    r = worse(r, z)
                    if r == "ne":
                        return r
                return r
            if tyof(b) < 0:
                return "?"
            if is_enum(tyof(b)):
                l = isv(b, a.a[0])
                if f.refutes(l):
                    return self.diff(a, b, "ne")
                if not f.ent(l):
                    nf = f.add(neg(l))
                    if nf is not None:
                        return self.diff(a, b)
                if self.ignore_err and d == 0 and a.a[0] == 1 and len(a.a) == 2:
                    return "eq"
            e = expand(b, a.a[0])
            if e is None:
                return "?"
            r = "eq"
            for x, y in zip(a.a[1:], e.a[1:]):
                r = worse(r, self.val(x, y, f, d + 1) if not sw else self.val(y, x, f, d + 1))
            return r
        if f.ent(eqv(a, b)):
            return "eq"
        if T.tyof(a) >= 0 and is_enum(T.tyof(a)) and self.ignore_err and d == 0:
            # two opaque results: equal only if identical
            pass
        c = self.cong(a, b, f, d)
        if c is not None:
            return c
        return self.diff(a, b)

    def cong(self, a, b, f, d):
        """same function of (possibly) equal arguments; None when not of that form"""
        if a is b:
            return "eq"
        if not (isT(a) and isT(b)):
            return None
        if a.op in ("seq", "agg", "vec", "box") or b.op in ("seq", "agg", "vec", "box"):
            return self.val(a, b, f, d + 1)
        if a.op != b.op or len(a.a) != len(b.a) or a.op not in CONG:
            return None
        r = "eq"
        for x, y in zip(a.a, b.a):
            if x is y or (not isT(x) and not isT(y) and x == y):
                continue
            z = self.congs(x, y, f, d + 1)
            if z is None:
                return None
            r = worse(r, z)
            if r == "ne":
                break
        if r == "ne":
            # equal arguments were needed only if the function is injective
            return "ne" if a.op in INJ and not fuzzy(a) and not fuzzy(b) else self.diff(a, b)
        return r

    def congs(self, x, y, f, d):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return None
            r = "eq"
            for p, q in zip(x, y):
                z = self.congs(p, q, f, d)
                if z is None:
                    return None
                r = worse(r, z)
            return r
        if x is y or x == y:
            return "eq"
        if isT(x) and isT(y) and x.op == y.op and x.op in CONG:
            return self.cong(x, y, f, d)
        if (isT(x) or isinstance(x, int)) and (isT(y) or isinstance(y, int)):
            return self.val(x, y, f, d + 1)
        return None

    def boolcmp(self, a, b, f):
        for va in (0, 1):
            fa = f.add(a if va else neg(a)) if isT(a) else (f if bool(a) == bool(va) else None)
            if fa is None:
                continue
            vb = 1 - va
            fb = fa.add(b if vb else neg(b)) if isT(b) else (fa if bool(b) == bool(vb) else None)
            if fb is not None:
                fb = instantiate(fb, ())
            if fb is None or neg_all(fb):
                continue
            return self.diff(a, b)
        return "eq"

    def unbyte(self, x, f):
        if isT(x) and x.op == "byte":
            w, t, i = x.a
            k = w - 1 - i
            for l in f.order:
                if l.op == "isv" and has_op(t, ("discr",)):
                    d = tinfo(tyof(l.a[0])).get("v", [])
                    t = subst(t, {mk("discr", l.a[0]): d[l.a[1]]["d"]}) if l.a[1] < len(d) and "d" in d[l.a[1]] else t
            if isinstance(t, int):
                return (t >> (8 * k)) & 255
            if f.ent(le(0, t)):
                if f.ent(le(t, (1 << (8 * k)) - 1)):
                    return 0
                if k == 0 and f.ent(le(t, 255)):
                    return t
        return x

    def intlike(self, x):
        if isinstance(x, int):
            return True
        return x.op == "+" or rng(x) is not None

    def toseq(self, t):
        ty = tyof(t)
        if ty < 0:
            return None
        m = mat(t)
        if isT(m) and m.op == "vec":
            m = m.a[0]
        if isT(m) and m.op == "seq":
            return m
        ti = tinfo(ty)
        if ti["k"] in ("str", "slice"):
            return whole(mk("S", u8ty() if ti["k"] == "str" else ti["e"], t))
        return None

    def unbox(self, t):
        m = mat(t)
        if isT(m) and m.op == "box":
            return m.a[0]
        return None

    def seq(self, a, b, f, d):
        if a is b:
            return "eq"
        if any(g.op == "rep" for g in a.a) != any(g.op == "rep" for g in b.a):
            a, b = self.unroll(a, f), self.unroll(b, f)
        la, lb = seq_len(a), seq_len(b)
        le_ = f.ent(eqi(la, lb))
        if not le_:
            if (fuzzy(a) or fuzzy(b)) and not (isT(la) and fuzzy(la)) and not (isT(lb) and fuzzy(lb)) and not is_lim(a) and not is_lim(b):
                # whatever the elements are, there are more on one side
                if f.ent(lt(la, lb)) or f.ent(lt(lb, la)):
                    return self.diff(a, b, "ne")
                g = f.add(neg(eqi(la, lb)))
                if g is not None and witness.sat(g):
                    return self.diff(a, b, "ne")
            if (witness.nonlinear(la) or witness.nonlinear(lb)) and witness.differ(la, lb, f) is False:
                return self.diff(a, b, "?")
            return self.diff(a, b)
        x, y = list(a.a), list(b.a)
        r = "eq"
        n = 0
        while x and y:
            n += 1
            if n > 400:
                return "?"
            g, h = x[0], y[0]
            if g is h:
                x.pop(0), y.pop(0)
                continue
            lg, lh = seg_len(g), seg_len(h)
            if f.ent(le(lg, 0)):
                x.pop(0)
                continue
            if f.ent(le(lh, 0)):
                y.pop(0)
                continue
            if f.ent(eqi(lg, lh)):
                x.pop(0), y.pop(0)
                z = self.seg(g, h, lg, f, d)
            elif f.ent(lt(lg, lh)):
                hd, tl = self.split(h, lg, lh, f)
                if hd is None:
                    return self.diff(a, b, "?")
                x.pop(0)
                y[0:1] = tl
                z = self.seqs([g], hd, f, d)
            elif f.ent(lt(lh, lg)):
                hd, tl = self.split(g, lh, lg, f)
                if hd is None:
                    return self.diff(a, b, "?")
                y.pop(0)
                x[0:1] = tl
                z = self.seqs(hd, [h], f, d)
            else:
                if d > 24 or fuzzy(a) or fuzzy(b):
                    return self.diff(a, b, "?")
                # either is the shorter one
                for c in (lt(lg, lh), lt(lh, lg), eqi(lg, lh)):
                    ff = f.add(c)
                    if ff is not None and not neg_all(ff):
                        r = worse(r, self.seq(mk("seq", *x), mk("seq", *y), ff, d + 8))
                        if r == "ne":
                            return r
                return r
            r = worse(r, z)
            if r == "ne":
                return r
        return r

    def unroll(self, a, f):
        """repetitions whose count is a small constant, written out"""
        out = []
        for g in a.a:
            if g.op == "rep":
                n = g.a[0]
                if isT(n):
                    n = next((c for c in range(1, 4) if f.ent(eqi(n, c))), None)
                if n is not None and n <= 8:
                    for i in range(n):
                        out += T.inst(g.a[1], g.a[2], i).a
                    continue
            out.append(g)
        return mkseq(out)

    def seqs(self, x, y, f, d):
        if len(x) == 1 and len(y) == 1:
            if x[0] is y[0]:
                return "eq"
            return self.seg(x[0], y[0], seg_len(x[0]), f, d)
        return self.seq(mk("seq", *x), mk("seq", *y), f, d + 1) if d < 30 else "?"

    def split(self, g, n, total, f):
        try:
            hd = seq_slice(mk("seq", g), 0, n, f)
            tl = seq_slice(mk("seq", g), n, sub(total, n), f)
        except Exception:
            return None, None
        return list(hd.a), list(tl.a)

    def seg(self, g, h, n, f, d):
        if g is h:
            return "eq"
        if g.op == "e" and h.op == "e":
            return self.val(g.a[0], h.a[0], f, d + 1)
        if g.op == "sub" and h.op == "sub":
            if g.a[0] is h.a[0]:
                if f.ent(eqi(g.a[1], h.a[1])):
                    return "eq"
                if not (isinstance(n, int) and n <= 64):
                    if (witness.nonlinear(g.a[1]) or witness.nonlinear(h.a[1])) and witness.differ(g.a[1], h.a[1], f) is not True:
                        return self.diff(g, h, "?")
                    return self.diff(g, h)
            if f.ent(eqi(g.a[1], h.a[1])):
                c = self.cong(g.a[0], h.a[0], f, d)
                if c is not None:
                    return c
        if g.op == "rep" and h.op == "rep":
            # pointwise
            v = mk("k", "cmp")
            x, y = T.inst(g.a[1], g.a[2], v), T.inst(h.a[1], h.a[2], v)
            ff = f.add(lt(v, g.a[0]))
            if f.ent(eqi(g.a[0], h.a[0])):
                if ff is None:
                    return "eq"
                ff = self.inst_alls(ff, v)
                if ff is None:
                    return "eq"
                r = self.val(x, y, ff, d + 1)
                return r
            return self.diff(g, h)
        if not isinstance(n, int):
            n = next((x for x in (seg_len(g), seg_len(h)) if isinstance(x, int)), n)
        if isinstance(n, int) and n <= 64:
            ety = self.ety(g) or self.ety(h) or u8ty()
            r = "eq"
            for i in range(n):
                try:
                    p = seq_at(mk("seq", g), i, ety)
                    q = seq_at(mk("seq", h), i, ety)
                except Exception:
                    return self.diff(g, h, "?")
                r = worse(r, self.val(p, q, f, d + 1))
                if r == "ne":
                    return r
            return r
        # pointwise comparison of same-length segments
        v = mk("k", "cmp")
        ff = f.add(lt(v, n))
        if ff is None:
            return "eq"
        ff = self.inst_alls(ff, v)
        if ff is None:
            return "eq"
        ety = self.ety(g) or self.ety(h) or u8ty()
        try:
            p = seq_at(mk("seq", g), v, ety)
            q = seq_at(mk("seq", h), v, ety)
        except Exception:
            return self.diff(g, h, "?")
        if p is q:
            return "eq"
        if isT(p) and p.op == "at" and p.a[1].op == "seq" or isT(q) and q.op == "at" and q.a[1].op == "seq":
            if witness.nonlinear(p) or witness.nonlinear(q):
                return self.diff(g, h, None if witness.differ(p, q, ff) else "?")
            return self.diff(g, h)
        return self.val(p, q, ff, d + 1)

    def inst_alls(self, f, v):
        for l in [l for l in f.order if l.op == "all"]:
            n, b, h = l.a
            if f.ent(lt(v, n)):
                f = f.add(T.inst(b, h, v))
                if f is None:
                    return None
        return f

    def ety(self, g):
        if g.op == "sub" and g.a[0].op == "S":
            return g.a[0].a[0]
        return None


def discrs(f):
    """discr(x) -> constant, for every x whose variant the facts fix"""
    m = {}
    for l in f.order:
        if l.op == "isv" and tyof(l.a[0]) >= 0:
            vs = tinfo(tyof(l.a[0])).get("v")
            if vs and l.a[1] < len(vs):
                x = mk("discr", l.a[0])
                m[x] = vs[l.a[1]].get("d", l.a[1])
        elif l.op == "not" and isT(l.a[0]) and l.a[0].op == "isv":
            t = l.a[0].a[0]
            vs = tinfo(tyof(t)).get("v") or ()
            left = [i for i in range(len(vs)) if neg(isv(t, i)) not in f.lits]
            if len(left) == 1:
                m[mk("discr", t)] = vs[left[0]].get("d", left[0])
    if not m:
        return m
    used = set()
    return m


# no further pairs are looked at after this time (when set)
UNTIL = None


def compare(impl, spec, ignore_err=True, allow_panic_in_spec=False):
    """impl/spec: list of (kind, facts, value, info) -> (verdicts list)"""
    res, later, far = [], [], []
    pairs = 0
    until = time.time() + INSTANCES
    spent = 0
    for ki, fi, vi, inf in impl:
        hit = False
        for ks, fs, vs, _ in spec:
            if UNTIL and time.time() > UNTIL:
                break
            j = joint(fi, fs, (vi, vs))
            if j is None:
                continue
            hit = True
            pairs += 1
            m = discrs(j)
            m.update(wraps(j, (vi, vs)))
            m.update(aliases(j))
            vi_, vs_ = vi, vs
            if m:
                f2 = TRUE.add_all([subst(l, m) for l in j.order])
                if f2 is not None:
                    j = instantiate(f2, ())
                else:
                    j = None
                if j is None or neg_all(j):
                    pairs -= 1
                    continue
                vi_, vs_ = (subst(x, m) if isT(x) else x for x in (vi, vs))
            m = reclens(j, (vi_, vs_))
            if m:
                j = TRUE.add_all([subst(l, m) for l in j.order])
                if j is None or neg_all(j):
                    pairs -= 1
                    continue
                vi_, vs_ = (subst(x, m) if isT(x) else x for x in (vi_, vs_))
            v, why, j2 = verdict(ki, vi_, inf, ks, vs_, j, ignore_err)
            if v != "eq":
                j0 = j
                t0 = time.time()
                r = refine(ki, vi_, inf, ks, vs_, j, why, ignore_err, [1500, time.time() + 6], 3) if spent < 8 else None
                spent += time.time() - t0
                if r is not None:
                    if r[0] == "none":
                        pairs -= 1
                        continue
                    v, why, j = r
                    if v == "eq":
                        continue
                if v == "ne":
                    m = same_index(j, (vi_, vs_))
                    if m:
                        j = TRUE.add_all([subst(l, m) for l in j.order])
                        if j is None or neg_all(j):
                            pairs -= 1
                            continue
                        v, why, _ = verdict(ki, *(subst(x, m) if isT(x) else x for x in (vi_,)), inf, ks, *(subst(x, m) if isT(x) else x for x in (vs_,)), j, ignore_err)
                        if v == "eq":
                            continue
                foreign = foreign_preds(fi, fs) and any(p.op != "all" for p in preds(j))
                fz = any(fuzzy(l) for l in j.order)
                if v == "ne" and (fz or foreign or not witness.sat(j)):
                    v = "?"
                    if fz and not foreign and not any(is_lim(l) for l in j.order):
                        far.append((len(res), fi, fs, j, why))
                if v == "?":
                    later.append((len(res), ki, vi_, inf, ks, vs_, j0))
                res.append((v, j, why, (ki, vi, inf), (ks, vs)))
    until = time.time() + INSTANCES
    if not any(r[0] == "ne" for r in res):
        # a value against an error that depends on an uninterpreted predicate comes last
        for n, ki, vi_, inf, ks, vs_, j0 in sorted(later, key=lambda x: (any(l.op == "not" and l.a[0].op == "pred" for l in x[6].order), len(x[6].order))):
            if time.time() > until:
                break
            q = by_instance(ki, vi_, inf, ks, vs_, j0, ignore_err, until)
            if q is not None:
                res[n] = (q[0], q[2], q[1]) + tuple(res[n][3:])
                break
        else:
            for n, fi, fs, j, why in far[:6]:
                if extends(fi, fs, j):
                    res[n] = ("ne", j, why) + tuple(res[n][3:])
                    break
    return pairs, res


def verdict(ki, vi, inf, ks, vs, j, ignore_err):
    c = Cmp(ignore_err)
    if ki == "ret" and ks == "ret":
        v = c.val(vi, vs, j)
        return v, c.why, j
    if ki == ks:
        return "eq", None, j
    return "ne", (mk("kind", ki, str(inf)), mk("kind", ks)), j


INSTANCES = 8


def by_instance(ki, vi, inf, ks, vs, j, ignore_err, until):
    """a definite difference at particular trip counts of the loops involved"""
    if any(is_lim(l) for l in j.order) or is_lim(vi if isT(vi) else 0) or is_lim(vs if isT(vs) else 0):
        return None
    for g, a, b in concret.instances(j, vi, vs, max(.1, min(2, until - time.time()))):
        g = instantiate(g, ())
        if g is None or neg_all(g):
            continue
        v, why, _ = verdict(ki, a, inf, ks, b, g, ignore_err)
        if v != "eq":
            r = refine(ki, a, inf, ks, b, g, why, ignore_err, [600, time.time() + 4], 2)
            if r is not None:
                v, why, g = r
        if v == "ne" and not any(fuzzy(l) for l in g.order) and witness.sat(g):
            return v, why, g
    return None


SPLITOPS = ("bin", "wrap", "byte", "trunc")


def split_atoms(j, vals):
    """small-range atoms under an operation the linear domain does not interpret"""
    out = {}
    seen = set()

    def walk(t, inside):
        if isinstance(t, tuple):
            for x in t:
                walk(x, inside)
            return
        if not isT(t) or (t, inside) in seen:
            return
        seen.add((t, inside))
        if t.op in ("k", "bv", "phi", "phq", "rep", "rec", "recq", "cs", "sum", "all", "ifs"):
            return
        tab = t.op == "at" and isT(t.a[1]) and t.a[1].op == "seq" and all(x.op in ("c", "e") for x in t.a[1].a)
        if inside and not tab and t.op not in SPLITOPS and t.op != "+":
            r = rng(t)
            if r is not None:
                lo, hi = bounds(j, t, r)
                if lo is not None and hi - lo < 256:
                    out[t] = (lo, hi)
        ins = inside or t.op in SPLITOPS or tab
        if t.op == "+" or t.op in SPLITOPS or tab or t.op in ("le", "eq", "not", "seq", "e", "agg", "vec", "pred"):
            for x in t.a:
                walk(x, ins)
        elif not inside:
            for x in t.a:
                walk(x, False)
    for l in j.order:
        walk(l, False)
    for v in vals:
        walk(v, False)
    return out


def bounds(j, t, r):
    lo, hi = r
    lo, hi = max(lo, 0 if lo >= 0 else lo), hi
    if hi - lo >= 256:
        # a wide atom: only if the facts confine it
        for l in j.order:
            if l.op == "le" or l.op == "eq":
                c, d = T.lin(l.a[0])
                if len(d) == 1 and t in d:
                    k = d[t]
                    if k == 1 or l.op == "eq" and k == -1:
                        hi = min(hi, -c if k == 1 else c)
                    if k == -1 or l.op == "eq" and k == 1:
                        lo = max(lo, c if k == -1 else -c)
    else:
        while lo <= hi and j.refutes(eqi(t, lo)):
            lo += 1
        while hi >= lo and j.refutes(eqi(t, hi)):
            hi -= 1
    if hi - lo >= 256:
        return None, None
    return lo, hi


def pinned(j, vals):
    """atoms the facts confine to one value, replaced by it; None: there are none"""
    any_ = False
    for _ in range(12):
        lo, hi = {}, {}
        for l in j.order:
            if l.op in ("le", "eq"):
                c, d = T.lin(l.a[0])
                if len(d) == 1:
                    (t, k), = d.items()
                    if l.op == "eq" and c % k == 0:
                        lo[t] = max(lo.get(t, -c // k), -c // k)
                        hi[t] = min(hi.get(t, -c // k), -c // k)
                    elif l.op == "le" and k > 0:
                        hi[t] = min(hi.get(t, (-c) // k), (-c) // k)
                    elif l.op == "le":
                        lo[t] = max(lo.get(t, -((-c) // -k)), -((-c) // -k))
        m, extra = {}, []
        for t in set(lo) | set(hi):
            if t.op == "bin" and t.a[0] == "Div" and isinstance(t.a[2], int) and t.a[2] > 0:
                lo.setdefault(t, 0)
                r = rng(t.a[1])
                if r and r[0] >= 0:
                    for x in ([le(scale(lo[t], t.a[2]), t.a[1])] if lo[t] > 0 else []) + ([le(t.a[1], hi[t] * t.a[2] + t.a[2] - 1)] if t in hi else []):
                        if isT(x) and x not in j.lits:
                            extra.append(x)
            elif rng(t) is not None and rng(t)[0] == 0:
                lo.setdefault(t, 0)
            if t in lo and t in hi and lo[t] == hi[t]:
                m[t] = lo[t]
        for t in lo:
            if t.op == "bin" and t.a[0] == "Rem" and isinstance(t.a[2], int) and t in hi and lo[t] == hi[t]:
                r = rng(t.a[1])
                if r and r[0] >= 0:
                    d = mk("bin", "Div", *t.a[1:])
                    x = eqi(t.a[1], lo[t] + t.a[2] * lo[d]) if d in lo and d in hi and lo[d] == hi[d] else (eqi(t.a[1], lo[t]) if j.ent(le(t.a[1], t.a[2] - 1)) else None)
                    if isT(x) and x not in j.lits:
                        extra.append(x)
        if extra:
            j = j.add_all(extra)
            any_ = True
            if j is None:
                return None, vals
            continue
        keep = [eqi(t, v) for t, v in m.items()]
        m = {t: v for t, v in m.items() if any(t is not l.a[0] and occurs(l, t) and l not in keep and len(T.lin(l.a[0])[1] if l.op in ("le", "eq") else (1, 2)) > 1 or (l.op in ("le", "eq") and any(x is not t and occurs(x, t) for x in T.lin(l.a[0])[1])) for l in j.order) or any(isT(v_) and occurs(v_, t) for v_ in vals)}
        if not m:
            break
        g = TRUE.add_all([subst(l, m) for l in j.order])
        g = g and g.add_all(keep)
        any_ = True
        vals = tuple(subst(v, m) if isT(v) else v for v in vals)
        if g is None:
            return None, vals
        j = g
    return (j, vals) if any_ else None


def refine(ki, vi, inf, ks, vs, j, why, ignore_err, budget, depth):
    """finite partitioning of a pair that is not equal as it stands: the values of a
    small-range atom are considered one by one.  None: nothing to split."""
    if depth == 0 or T.has_op((vi if isT(vi) else 0, vs if isT(vs) else 0), ("rec", "recq")):
        return None
    p = pinned(j, (vi, vs))
    if p is not None:
        j, (vi, vs) = p
        if j is None:
            return "none", None, None
        v, why, _ = verdict(ki, vi, inf, ks, vs, j, ignore_err)
        if v == "eq":
            return v, why, j
    at = split_atoms(j, why or ())
    if not at:
        return (v, why, j) if p is not None else None
    t, (lo, hi) = min(at.items(), key=lambda x: (x[1][1] - x[1][0], x[0].id))
    worst = None
    for n in range(lo, hi + 1):
        budget[0] -= 1
        if budget[0] < 0 or time.time() > budget[1]:
            return ("?", why, j) if worst is None or worst[0] != "ne" else worst
        f2 = TRUE.add_all([subst(l, {t: n}) for l in j.order])
        if f2 is None:
            continue
        f2 = f2.add(eqi(t, n))
        f2 = f2 and instantiate(f2, ())
        if f2 is None or neg_all(f2):
            continue
        a, b = (subst(x, {t: n}) if isT(x) else x for x in (vi, vs))
        r = verdict(ki, a, inf, ks, b, f2, ignore_err)
        if r[0] != "eq":
            q = refine(ki, a, inf, ks, b, f2, r[1], ignore_err, budget, depth - 1)
            if q is not None:
                r = q
            if r[0] == "none":
                continue
        if r[0] == "ne":
            return r
        if worst is None or worst[0] == "eq":
            worst = r
    return worst or ("none", None, j)


def preds(f):
    """interpreted non-linear literals of a conjunction, polarity dropped.  Literals
    about uninterpreted results (opaque calls, hashes, variants of inputs) are free
    and do not count."""
    out = set()
    for l in f.order:
        x = l.a[0] if l.op == "not" else l
        if not isT(x):
            continue
        if x.op in ("le", "eq"):
            for t in lin(x.a[0])[1]:
                if t.op in ("bin", "sum", "case", "trunc", "wrap"):
                    out.add(t)
            continue
        if x.op in ("isv", "dynis"):
            continue
        if x.op == "eqv" and has_op(x, ("call", "hash", "mut")):
            continue
        if x.op == "pred" and x.a[0].startswith("perm:"):
            continue  # which of two elements sorts first: either may
        out.add(x)
    return out


def foreign_preds(fi, fs):
    """each side constrains something the other side never mentions, so the domain
    cannot tell whether the two cases really meet"""
    a, b = preds(fi), preds(fs)
    return bool(a - b) and bool(b - a)
