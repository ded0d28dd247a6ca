"""Instances of loop summaries.  A pair of cases that differs, but whose facts speak
about an unknown trip count, is looked at for particular trip counts: the exit index
becomes a constant, the quantified facts and appended sequences are written out, and
recurrences are unfolded.  The result has no loop terms left, so that the linear
domain can tell whether it is a real case."""
import time
from terms import *
import terms as T

LOOPY = ("kx", "rec", "recq", "rv", "rvq", "phi", "phq", "phiq", "k", "cs", "all", "rep", "sum", "bv")


class Stop(Exception):
    pass


def find(ts, ops):
    out, seen = [], set()

    def w(t):
        if isinstance(t, tuple):
            for x in t:
                w(x)
            return
        if not isT(t) or t in seen:
            return
        seen.add(t)
        if t.op in ops:
            out.append(t)
        for x in t.a:
            w(x)
    for t in ts:
        w(t)
    return out


def closed(t):
    """no enclosing binder or recurrence variable"""
    if freebv(t):
        return False
    if t.op in ("rec", "recq"):
        body = t.a[-1]
        return not has_op((t.a[-2], body[1]), ("rv", "rvq"))
    return not free_rv(t)


_frv = {}


def free_rv(t):
    if isinstance(t, tuple):
        return any(free_rv(x) for x in t)
    if not isT(t):
        return False
    r = _frv.get(t)
    if r is None:
        if t.op in ("rv", "rvq"):
            r = True
        elif t.op in ("rec", "recq"):
            r = free_rv(t.a[-2]) or free_rv(t.a[-1][1])
        else:
            r = any(free_rv(x) for x in t.a)
        _frv[t] = r
    return r


def unrv(t, st, memo):
    """t with the variables of the enclosing recurrence replaced by st; the updates of a
    recurrence inside t have variables of their own"""
    if isinstance(t, tuple):
        return tuple(unrv(x, st, memo) for x in t)
    if not isT(t) or not free_rv(t):
        return t
    r = memo.get(t)
    if r is None:
        if t.op in ("rv", "rvq"):
            r = st[t.a[-1]]
        elif t.op in ("rec", "recq"):
            b = t.a[-1]
            r = T.rebuild(t.op, list(t.a[:-2]) + [unrv(t.a[-2], st, memo), (b[0], unrv(b[1], st, memo)) + tuple(b[2:])])
        else:
            r = T.rebuild(t.op, [unrv(x, st, memo) for x in t.a])
        memo[t] = r
    return r


class Search:
    def __init__(self, deadline, nodes=2000, top=80):
        self.deadline = deadline
        self.nodes = nodes
        self.top = top

    def tick(self):
        self.nodes -= 1
        if self.nodes < 0 or time.time() > self.deadline:
            raise Stop()

    def go(self, f, vals, depth=0):
        """yields (facts, values) without loop terms"""
        self.tick()
        if depth > 30:
            return
        lits = list(f.order)
        ts = lits + [v for v in vals if isT(v)]
        if depth < 4:
            # a recurrence whose trip count depends on the size of the input: small sizes
            for t in find(ts, ("rec", "recq")):
                if closed(t) and isT(t.a[-2]):
                    at = [x for x in T.lin(t.a[-2])[1] if x.op == "len" and not has_op(x, LOOPY)]
                    if at:
                        yield from self.size(f, vals, at[0], depth)
                        return
        ks = [t for t in find(ts, ("kx",)) if closed(t)]
        ks = [t for t in ks if not any(x is not t and closed(x) for x in find([t], ("kx", "rec", "recq")))]
        if ks:
            x = min(ks, key=lambda t: t.id)
            yield from self.kx(f, vals, x, depth)
            return
        rs = [t for t in find(ts, ("rec", "recq")) if closed(t) and isinstance(t.a[-2], int)]
        rs = [t for t in rs if not any(closed(x) for x in find([t.a[-2], t.a[-1][1]], ("kx", "rec", "recq")))]
        if rs:
            x = min(rs, key=lambda t: t.id)
            yield from self.rec(f, vals, x, depth)
            return
        g, vs = self.expand(f, vals)
        if g is None:
            return
        if g is not f or any(a is not b for a, b in zip(vs, vals)):
            yield from self.go(g, vs, depth + 1)
            return
        yield f, vals

    def sub(self, f, vals, m):
        g = TRUE.add_all([subst(l, m) for l in f.order])
        return g, [subst(v, m) if isT(v) else v for v in vals]

    def kx(self, f, vals, x, depth):
        h, (bound, cont, multi) = x.a
        n = fails = 0
        top = range(self.top)
        if isinstance(bound, int) and 4 < bound <= self.top:
            top = [bound] + list(range(bound))
        for v in top:
            self.tick() if v % 8 == 0 else None
            if f.add(eqi(x, v)) is None:
                continue
            g, vs = self.sub(f, vals, {x: v})
            if g is not None and bound != -1:
                g = g.add(le(v, T.inst(bound, h, 0) if isT(bound) else bound))
            if g is None:
                continue
            for i in range(v):
                self.tick() if i % 8 == 0 else None
                g = g.add_all([T.inst(l, h, i) for l in cont if isT(l)])
                if g is None:
                    break
                if multi:
                    for arm in multi:
                        g2 = g.add_all([T.inst(l, h, i) for l in arm if isT(l)])
                        if g2 is not None:
                            g = g2
                            break
                    else:
                        g = None
                if g is None:
                    break
            if g is None:
                fails += 1
                if fails > 2:
                    return
                continue
            n += 1
            yield from self.go(g, vs, depth + 1)
            if n >= 3:
                return

    def size(self, f, vals, x, depth):
        cs = set()
        for t in find([t for t in f.order if not has_op(t, ("rec", "recq"))], ("le", "kx")):
            c = T.lin(t.a[0])[0] if t.op == "le" else t.a[1][0]
            if isinstance(c, int) and 4 < abs(c) <= 40:
                cs |= {abs(c), abs(c) + 1}
        for v in [1, 2] + sorted(cs)[:4] + [0, 3, 4]:
            if f.add(eqi(x, v)) is None:
                continue
            g, vs = self.sub(f, vals, {x: v})
            if g is None:
                continue
            yield from self.go(g, vs, depth + 1)

    def rec(self, f, vals, x, depth):
        kk, (h, inits, ug, _) = x.a[-2], x.a[-1]
        if kk < 0 or kk > self.top:
            return
        st = list(inits)
        tys = [None] * len(inits)
        g = f
        hist = [tuple(st)]
        for i in range(kk):
            if i % 8 == 0:
                self.tick()
            nxt = None
            for gd, us in ug:
                m = {T.mk("bv", h): i}
                mm = {}
                g2 = g.add_all([subst(unrv(l, st, mm), m) for l in gd])
                if g2 is not None:
                    nxt = [subst(unrv(u, st, mm), m) if isT(u) else u for u in us]
                    g = g2
                    break
            if nxt is None:
                return
            st = nxt
            hist.append(tuple(st))
        # every component and every earlier index of the same recurrence
        m = {}
        for t in find(list(g.order) + [v for v in vals if isT(v)], ("rec", "recq")):
            if t.a[-1][:3] == x.a[-1][:3] and isinstance(t.a[-2], int) and 0 <= t.a[-2] < len(hist):
                m[t] = hist[t.a[-2]][t.a[-1][3]]
        g, vs = self.sub(g, vals, m)
        if g is not None:
            yield from self.go(g, vs, depth + 1)

    def expand(self, f, vals):
        g = f
        al = [l for l in f.order if l.op == "all" and isinstance(l.a[0], int)]
        if al:
            g = TRUE.add_all([l for l in f.order if l not in al])
            for l in al:
                n, b, h = l.a
                if g is None or n > self.top:
                    return None, None
                g = g.add_all([T.inst(b, h, i) for i in range(n)])
            if g is None:
                return None, None
        m = {}
        for t in find([v for v in vals if isT(v)] + list(g.order), ("seq",)):
            if freebv(t) or free_rv(t):
                continue
            out, ch = [], False
            for s in t.a:
                if s.op == "rep" and isinstance(s.a[0], int) and s.a[0] <= self.top:
                    ch = True
                    for i in range(s.a[0]):
                        out += list(T.inst(s.a[1], s.a[2], i).a)
                elif s.op == "cs":
                    for gd, q in s.a:
                        if all(g.ent(l) for l in gd):
                            ch = True
                            out += list(q.a)
                            break
                    else:
                        out.append(s)
                else:
                    out.append(s)
            if ch:
                m[t] = mkseq(out)
        if m:
            g = TRUE.add_all([subst(l, m) for l in g.order])
            vals = [subst(v, m) if isT(v) else v for v in vals]
        return g, vals


def ascii_case(f, vals):
    """the partition in which every string read by character is ASCII: the characters
    are then the bytes"""
    import prims
    ts = list(f.order) + [v for v in vals if isT(v)]
    views = [t for t in find(ts, ("S",)) if T.is_chars(t)]
    if not views:
        return f, vals
    if any(freebv(q) or free_rv(q) or has_op(q.a[1].a[2], LOOPY) for q in views):
        return None, None
    memo = {}

    def conv(t):
        if isinstance(t, tuple):
            return tuple(conv(x) for x in t)
        if not isT(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "at" and T.is_chars(t.a[1]):
            r = seq_at(t.a[1].a[1].a[2], conv(t.a[2]), u8ty())
        elif t.op == "len" and T.is_chars(t.a[0]):
            r = seq_len(t.a[0].a[1].a[2])
        elif T.is_chars(t):
            raise Stop()
        else:
            na = [conv(x) if isT(x) or isinstance(x, tuple) else x for x in t.a]
            r = t if all(x is y or x == y for x, y in zip(na, t.a)) else T.rebuild(t.op, na)
        memo[t] = r
        return r
    g = TRUE.add_all([conv(l) for l in f.order])
    vs = [conv(v) if isT(v) else v for v in vals]
    if g is None:
        return None, None
    bound = []
    for q in views:
        s = q.a[1].a[2]
        al = prims.ascii_lit(s)
        h = g.add(al)
        if h is None:
            return None, None
        g = TRUE.add_all([l for l in h.order if l is not al])
        if len(s.a) == 1 and s.a[0].op == "sub":
            bound.append(s.a[0].a[0])
    return g, vs, bound


def wide_case(f, vals):
    """the partition in which every string read by character is one two-byte character"""
    import prims
    ts = list(f.order) + [v for v in vals if isT(v)]
    views = [t for t in find(ts, ("S",)) if T.is_chars(t)]
    if not views or any(freebv(q) or free_rv(q) or has_op(q.a[1].a[2], LOOPY) for q in views):
        return None, None
    memo = {}

    def conv(t):
        if isinstance(t, tuple):
            return tuple(conv(x) for x in t)
        if not isT(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "at" and T.is_chars(t.a[1]):
            if t.a[2] != 0:
                raise Stop()
            s = t.a[1].a[1].a[2]
            r = T.add(T.add(T.mul(64, seq_at(s, 0, u8ty())), seq_at(s, 1, u8ty())), -(0xc0 * 64 + 0x80))
        elif t.op == "len" and T.is_chars(t.a[0]):
            r = 1
        elif T.is_chars(t):
            raise Stop()
        elif t.op == "all" and isinstance(conv(t.a[0]), int):
            v = mk("bv", t.a[2])
            r = prims.conj([conv(T.subst(t.a[1], {v: i})) for i in range(conv(t.a[0]))])
        else:
            na = [conv(x) if isT(x) or isinstance(x, tuple) else x for x in t.a]
            r = t if all(x is y or x == y for x, y in zip(na, t.a)) else T.rebuild(t.op, na)
        memo[t] = r
        return r
    g = TRUE.add_all([conv(l) for l in f.order])
    vs = [conv(v) if isT(v) else v for v in vals]
    if g is None:
        return None, None
    for q in views:
        s = q.a[1].a[2]
        b0, b1 = seq_at(s, 0, u8ty()), seq_at(s, 1, u8ty())
        g = g.add_all([T.eqi(seq_len(s), 2), le(0xc2, b0), le(b0, 0xdf), le(0x80, b1), le(b1, 0xbf)])
        if g is None:
            return None, None
    lits = []
    for l in g.order:
        p = l.a[0] if l.op == "not" else l
        if isT(p) and p.op == "all" and isT(p.a[0]):
            if g.ent(T.eqi(p.a[0], 2)):
                v = mk("bv", p.a[2])
                e = prims.conj([T.subst(p.a[1], {v: i}) for i in range(2)])
                l = T.neg(e) if l is not p else e
        lits.append(l)
    g = TRUE.add_all(lits)
    return (g, vs) if g is not None else (None, None)


DEBUG = False


def instances(f, vi, vs, secs, nodes=2000):
    try:
        g, v = wide_case(f, [vi, vs])
        if g is not None:
            yield g, v[0], v[1]
    except Exception:
        if DEBUG:
            import traceback; traceback.print_exc(limit=-4)
    bases = ()
    try:
        r = ascii_case(f, [vi, vs])
        if r[0] is None:
            return
        f, (vi, vs) = r[0], r[1]
        bases = r[2] if len(r) > 2 else ()
    except Stop:
        if DEBUG:
            print('ascii')
        return
    try:
        for g, (a, b) in Search(time.time() + secs, nodes).go(f, [vi, vs]):
            if not has_op(tuple(g.order), LOOPY[:-1]) and not has_op((a if isT(a) else 0, b if isT(b) else 0), tuple(o for o in LOOPY[:-1] if o != "rep")):
                for t in find(list(g.order) + [x for x in (a, b) if isT(x)], ("at",)):
                    if t.a[1] in bases and g is not None:
                        g = g.add(le(t, 127))
                if g is not None:
                    yield g, a, b
    except (Stop, RecursionError) as x:
        if DEBUG:
            import traceback; traceback.print_exc(limit=-4)
        return
    except Exception:
        if DEBUG:
            import traceback; traceback.print_exc(limit=-4)
        return
