"""Loop summarisation.

`summarise` widens the header state until it is stable (each changed leaf is a
loop variable), then looks for closed forms of the variables in the iteration
number k: counters, sums, appended and overwritten sequences; what has no
closed form stays as a canonical recurrence term.  Exits are expressed at the
exit iteration."""
from terms import *
import terms as T
from engine import *
from engine import join_facts

EFFECTS = ("N", 0, 0)
MAXIT = 7


class Gen:
    def __init__(self, uid):
        self.uid = uid
        self.init = {}      # phi -> initial value (term / seq)
        self.n = 0
        self.fixedlen = {}

    def new(self, ty, init):
        self.n += 1
        p = mk("phi", ty, self.uid, self.n)
        self.init[p] = init
        return p

    def newq(self, init, n=None):
        self.n += 1
        if n is not None:
            q = mk("fixed", mk("phiq", self.uid, self.n), n)
            if isT(n) and has_phi(n, self.uid):
                raise Lim("phi length")
        else:
            q = mk("phiq", self.uid, self.n)
        self.init[q] = init
        return q

    def mine(self, t):
        return isT(t) and t in self.init

    def gen(self, h, b, ty=-1):
        """least generalisation of header value h and back-edge value b"""
        if h is b or (not isT(h) and not isT(b) and h == b):
            return h
        if self.mine(h):
            return h
        if h is UNDEF or b is UNDEF:
            return UNDEF
        ti = tinfo(ty)
        hi_, bi_ = intlike(h, ty), intlike(b, ty)
        if hi_ and bi_:
            return self.newint(h, ty)
        if isT(h) and isT(b):
            if h.op == "agg" and b.op == "agg" and h.a[0] == b.a[0] and len(h.a) == len(b.a):
                fs = nfields(ty, h.a[0]) if ty >= 0 else None
                return mk("agg", h.a[0], *[self.gen(x, y, fs[i] if fs and i < len(fs) else -1) for i, (x, y) in enumerate(zip(h.a[1:], b.a[1:]))])
            if h.op == "vec" and b.op == "vec":
                return mk("vec", self.genseq(h.a[0], b.a[0]))
            if h.op == "seq" and b.op == "seq":
                return self.genseq(h, b)
            if h.op == "sref" and b.op == "sref" and h.a[0] == b.a[0] and h.a[1] == b.a[1]:
                return mk("sref", h.a[0], h.a[1], self.gint(h.a[2], b.a[2]), self.gint(h.a[3], b.a[3]))
            if h.op == "iter" and b.op == "iter" and h.a[0] == b.a[0]:
                d = h.a[1]
                if h.a[1] != b.a[1]:
                    raise Lim("iterator source changes")
                return mk("iter", h.a[0], d, self.gint(h.a[2], b.a[2]), self.gint(h.a[3], b.a[3]))
            if h.op == "ref" and b.op == "ref" and h.a[0] == b.a[0] and len(h.a[1]) == len(b.a[1]):
                ps = []
                for x, y in zip(h.a[1], b.a[1]):
                    if x is y:
                        ps.append(x)
                    elif x.op == "pi" and y.op == "pi":
                        ps.append(pi(self.gint(x.a[0], y.a[0]), x.a[1]))
                    else:
                        raise Lim("ref path varies")
                return mk("ref", h.a[0], tuple(ps))
            if h.op == "box" and b.op == "box":
                return mk("box", self.gen(h.a[0], b.a[0], ti["a"][0] if ti.get("box") else -1))
            if h.op == "hctx" and b.op == "hctx" and h.a[0] == b.a[0]:
                return mk("hctx", h.a[0], self.genseq(h.a[1], b.a[1]))
            if h.op in ("ref", "sref", "dref", "iter", "fmtargs", "fmtarg", "vec", "seq") or b.op in ("ref", "sref", "dref", "iter", "vec", "seq"):
                raise Lim("varying %s" % h.op)
        if ty >= 0:
            return mat(self.new(ty, h))
        raise Lim("varying value")

    def gint(self, x, y):
        if x is y or (not isT(x) and not isT(y) and x == y):
            return x
        if self.mine(x):
            return x
        return self.newint(x, ty_by_name("usize"))

    def newint(self, h, ty):
        if ty is None or ty < 0 or ty_range(ty) is None:
            raise Lim("untyped int")
        return self.new(ty, h)

    def genseq(self, h, b):
        if h is b:
            return h
        if len(h.a) == 1 and h.a[0].op == "sub" and self.mine(h.a[0].a[0]) and h.a[0].a[1] == 0:
            return h
        # keep a shared constant prefix out of the variable part
        lh, lb = seq_len(h), seq_len(b)
        if lh == lb:
            q = self.newq(h, lh)
        else:
            q = self.newq(h)
        return whole(q)


def intlike(v, ty):
    if isinstance(v, int):
        return True
    if not isT(v):
        return False
    return v.op == "+" or rng(v) is not None or v.op in ("len",)


def has_phi(t, uid):
    return bool(atoms_in(t, lambda x: x.op in ("phi", "phiq") and x.a[-2] == uid))


def collect(h, b, gen, out):
    """phi -> new value, by walking header term and back-edge term together"""
    if isinstance(h, tuple) and isinstance(b, tuple):
        if len(h) != len(b):
            raise Lim("shape")
        for x, y in zip(h, b):
            collect(x, y, gen, out)
        return
    if isT(h) and h in gen.init:
        if h in out and out[h] is not b and out[h] != b:
            raise Lim("phi conflict")
        out[h] = b
        return
    if h is b and isT(h):
        # unchanged on this path
        for p in atoms_in(h, lambda x: x in gen.init):
            out.setdefault(p, whole(p) if p.op in ("phiq", "fixed") else p)
        return
    if not isT(h) and h == b:
        return
    if not (isT(h) and isT(b)):
        raise Lim("shape %s %s" % (h, b))
    if h is UNDEF:
        return
    # typed structural views of an opaque phi
    u = unmat(h)
    if u is not h and u in gen.init:
        out[u] = b
        return
    if h.op == "seq" and len(h.a) == 1 and h.a[0].op == "sub" and h.a[0].a[0] in gen.init:
        out[h.a[0].a[0]] = b
        return
    if h.op != b.op or len(h.a) != len(b.a):
        raise Lim("shape %s/%s" % (h.op, b.op))
    for x, y in zip(h.a, b.a):
        collect(x, y, gen, out)


DEBUG = False


def occ_any(t, vs):
    return bool(atoms_in(t, lambda x: x in vs))


def root_ty(eng, root):
    if root[0] == "L":
        return eng.frame_ty.get(root, -1)
    return -1


def summarise(eng, fr, c, h, st0, body, outs, depth=0):
    eng.loopn += 1
    uid = eng.loopn
    gen = Gen(uid)
    st0 = st0.fork()
    eng.gc(fr, c, h, st0)
    H = dict(st0.mem)
    base = st0.facts
    live = None
    for it in range(MAXIT):
        backs, exits, o2 = run(eng, fr, c, h, H, base, body)
        if not backs:
            # the loop body never comes back: emit what we have
            res = []
            outs.extend(o2)
            for t, ss in exits.items():
                res += [(t, s) for s in ss]
            return res
        if any(b.mem.get(EFFECTS) != st0.mem.get(EFFECTS) for b in backs):
            raise Lim("effects in a loop")
        newH = {}
        changed = False
        for r, v in H.items():
            x = v
            for b in backs:
                bv = b.mem.get(r)
                if bv is None:
                    bv = UNDEF
                x = gen.gen(x, bv, lty(fr, r))
            newH[r] = x
            if x is not v and x != v:
                changed = True
        for b in backs:
            for r in b.mem:
                if r not in H and r not in newH and r[0] in ("H", "G"):
                    # first written inside the loop
                    v0 = eng.rootval(st0, r)
                    newH[r] = gen.gen(v0, b.mem[r], rty(r))
                    changed = True
        H = newH
        if not changed:
            break
    else:
        raise Lim("loop widening does not stabilise")

    k = mk("k", uid)
    sol = {}
    # ---- counters, then rerun with them in closed form
    ups = updates(H, backs, gen)
    if depth < 2 and settles(ups, gen, len(backs)):
        # a variable takes its lasting form after the first iteration: peel it
        b1, e1, o1 = run(eng, fr, c, h, dict(st0.mem), base, body)
        outs.extend(o1)
        res = [(t, s) for t, ss in e1.items() for s in ss]
        for b in b1:
            res += summarise(eng, fr, c, h, b, body, outs, depth + 1)
        return res
    for p, us in ups.items():
        if p.op == "phi" and all(not isinstance(u, int) or True for u in us):
            ds = set()
            for u in us:
                if not intlike(u, tyof(p)):
                    ds = None
                    break
                d = sub(u, p)
                ds.add(d if isinstance(d, int) else None)
            if ds and len(ds) == 1 and None not in ds:
                (d,) = ds
                sol[p] = add(gen.init[p], scale(k, d))
    inv = intervals(ups, sol, gen, base)
    if inv:
        for l in inv:
            b2 = base.add(l)
            base = b2 if b2 is not None else base
        if not sol:
            backs, exits, o2 = run(eng, fr, c, h, H, base, body)
    if sol:
        H = {r: subst(v, sol) for r, v in H.items()}
        ini_base = base
        for p, v in sol.items():
            # a counter stays within its type
            r = rng(p)
            if isT(v) and r is not None:
                for l in (le(r[0], v), le(v, r[1])):
                    b2 = base.add(l) if not isinstance(l, int) else base
                    base = b2 if b2 is not None else base
        backs, exits, o2 = run(eng, fr, c, h, H, base, body)
        # shape check: solved counters advance as predicted, collect the rest
        Hn = {r: subst(v, {k: add(k, 1)}) for r, v in H.items()}
    else:
        Hn = H
        ini_base = base
    if not backs:
        raise Lim("loop lost")
    ups = {}
    guards = []
    for b in backs:
        o = {}
        for r, v in Hn.items():
            if v is UNDEF:
                continue
            bv = b.mem.get(r, UNDEF)
            collect(v, bv, gen, o)
        guards.append(tuple(l for l in b.facts.order if l not in base.lits))
        for p, u in o.items():
            ups.setdefault(p, []).append(u)
    n_b = len(backs)
    init = {p: gen.init[p] for p in ups}
    for p in list(ups):
        if len(ups[p]) != n_b:
            if DEBUG:
                print("MISSING", show(p), [show(u)[:120] for u in ups[p]], n_b, [(r, show(v)[:60]) for r, v in H.items() if occ_any(v, {p})])
                for b in backs:
                    print("   back", [(r, show(b.mem[r])[:200]) for r, v in Hn.items() if occ_any(v, {p}) and r in b.mem])
            raise Lim("update missing")
    # normalise integer recurrences to start at zero
    # linear invariants: p + q constant
    solve(eng, gen, ups, init, guards, k, sol, uid)

    # ---- exits
    bounds = find_bounds(eng, guards, k, sol, gen, ini_base)
    bound = bounds[0] if bounds else None
    res = []
    sguards = [tuple(simp_lits(g, sol)) for g in guards]
    common = [l for l in sguards[0] if all(l in g for g in sguards[1:])]
    cont = []
    blits = []
    for l in common:
        if bound is not None and is_bound_lit(l, k, bound):
            blits.append(l)
            continue
        if not occurs(l, k):
            continue
        cont.append(l)
    cont = minimal(cont)
    multi = len(sguards) > 1
    kxname = canon_kx(bound, cont, [tuple(sorted((l for l in g), key=lambda t: t.id)) for g in sguards] if multi else None, k)

    allst = [s for ss in exits.values() for s in ss] + [o.st for o in o2]
    has_early = multi and bound is not None and any(
        not any(exit_is_final(simp_lits([l for l in s.facts.order if l not in base.lits], sol), k, b) for b in bounds) for s in allst)

    def finish(s, is_out=None):
        lits = [l for l in s.facts.order if l not in base.lits]
        lits = simp_lits(lits, sol)
        f = base
        # which iteration?
        kv = None
        for b in bounds:
            if exit_is_final(lits, k, b):
                kv = b
                if not ini_base.ent(le(0, b)):
                    pos = ini_base.add(le(0, b))
                    neg_ = ini_base.add(lt(b, 0))
                    if neg_ is not None:
                        return split_final(s, lits, pos, neg_, b)
                break
        return [emit(s, lits, ini_base, kv)]

    def split_final(s, lits, pos, neg_, b):
        r = []
        if pos is not None:
            r.append(emit(s, lits, pos, b))
        if neg_ is not None:
            r.append(emit(s, lits, neg_, 0))
        return r

    def emit(s, lits, f, kv):
        early = kv is None
        kk = kv if kv is not None else kxname
        m = {k: kk}
        nl = []
        for l in lits:
            l2 = subst(l, m)
            nl.append(l2)
        extra = [subst(l, m) for l in base.order if l not in ini_base.lits]
        if early:
            extra.append(le(0, kk))
            if bound is not None:
                extra.append(lt(kk, bound))
        elif has_early and kv in bounds:
            # kx is the number of completed iterations
            extra.append(eqi(kxname, kv))
        from prims import bind_all
        if kv is not None and kv in bounds and kv is not bound and kv != bound:
            extra.append(le(kv, bound))
        for l in cont:
            if kv is not None and is_bound_lit(l, k, kv):
                continue
            extra.append(bind_all(kk, subst(l, {k: mk("k", "al")}), mk("k", "al")))
        for l in extra + nl:
            if isinstance(l, int):
                if not l:
                    return None
                continue
            f = f.add(l)
            if f is None:
                return None
        mem = {}
        full = dict(sol)
        for r, v in s.mem.items():
            v2 = subst(v, full) if isT(v) else v
            mem[r] = subst(v2, m) if isT(v2) else v2
        return St(mem, f)

    for t, ss in exits.items():
        for s in ss:
            for e in finish(s):
                if e is not None:
                    res.append((t, e))
    for o in o2:
        for e in finish(o.st):
            if e is not None:
                v = o.val
                if isT(v):
                    v = subst(v, sol)
                    v = subst(v, {k: kxname}) if True else v
                outs.append(Out(o.kind, e, v, o.info))
    return res


def minimal(ls):
    """drop literals implied by the others"""
    ls = sorted(set(ls), key=lambda t: t.id)
    i = 0
    while i < len(ls):
        rest = ls[:i] + ls[i + 1:]
        f = TRUE.add_all(rest)
        if f is not None and f.ent(ls[i]):
            ls = rest
        else:
            i += 1
    return tuple(ls)


def lty(fr, r):
    if r[0] == "L" and r[1] == fr.id:
        return fr.fn["locals"][r[2]]
    return rty(r)


ROOTTY = {}


def rty(r):
    if r[0] == "H":
        return tinfo(tyof(r[1])).get("e", -1)
    if r[0] == "L":
        f = ROOTTY.get(r[1])
        return f["locals"][r[2]] if f else -1
    return -1


def run(eng, fr, c, h, H, base, body):
    pend = {h: [St(dict(H), base)]}
    o2, backs, exits = [], {}, {}
    eng.flow_in(fr, c, h, pend, body, o2, backs, exits)
    bl = eng.join(fr, c, h, backs.get(h, []))
    return bl, exits, o2


def erng(t, env):
    """interval of an integer term under assumed intervals for some atoms"""
    if not isT(t):
        return (t, t) if isinstance(t, int) else None
    if t in env:
        return env[t]
    if t.op == "+":
        lo = hi = t.a[0]
        for a, c in t.a[1]:
            r = erng(a, env)
            if r is None:
                return None
            lo += c * r[0] if c > 0 else c * r[1]
            hi += c * r[1] if c > 0 else c * r[0]
        return (lo, hi)
    if t.op == "wrap":
        r = erng(t.a[1], env)
        w = ty_range(t.a[0])
        return r if r and w[0] <= r[0] and r[1] <= w[1] else w
    if t.op == "bin" and isinstance(t.a[2], int) and t.a[2] > 0 and t.a[0] in ("Div", "Rem"):
        r = erng(t.a[1], env)
        if r and r[0] >= 0:
            if t.a[0] == "Div":
                return (r[0] // t.a[2], r[1] // t.a[2])
            return (0, min(r[1], t.a[2] - 1))
    return rng(t)


def intervals(ups, sol, gen, base):
    """inductive interval invariants of the integer variables a loop updates"""
    ps = [p for p in ups if p.op == "phi" and p not in sol and rng(p) is not None and all(intlike(u, tyof(p)) for u in ups[p]) and intlike(gen.init[p], tyof(p))]
    if not ps:
        return []
    env = {}
    for p in ps:
        r = rng(gen.init[p])
        t = rng(p)
        if r is None:
            r = t
        lo, hi = max(r[0], t[0]), min(r[1], t[1])
        if lo < 0 and base.ent(le(0, gen.init[p])):
            lo = 0
        env[p] = (lo, hi)
    for it in range(12):
        ch = False
        for p in ps:
            t = rng(p)
            lo, hi = env[p]
            for u in ups[p]:
                r = erng(u, env) or t
                lo, hi = min(lo, r[0]), max(hi, r[1])
            if it >= 6:
                # widen what still moves
                lo = t[0] if lo < env[p][0] else lo
                hi = t[1] if hi > env[p][1] else hi
            lo, hi = max(lo, t[0]), min(hi, t[1])
            if (lo, hi) != env[p]:
                env[p] = (lo, hi)
                ch = True
        if not ch:
            break
    else:
        return []
    out = []
    for p in ps:
        t = rng(p)
        if env[p][0] > t[0]:
            out.append(le(env[p][0], p))
        if env[p][1] < t[1]:
            out.append(le(p, env[p][1]))
    return [l for l in out if isT(l)]


def updates(H, backs, gen):
    ups = {}
    for b in backs:
        o = {}
        for r, v in H.items():
            if v is UNDEF:
                continue
            collect(v, b.mem.get(r, UNDEF), gen, o)
        for p, u in o.items():
            ups.setdefault(p, []).append(u)
    return ups


def simp_lits(lits, sol):
    out = []
    for l in lits:
        l2 = subst(l, sol) if sol else l
        if isinstance(l2, int):
            if not l2:
                out.append(0)
            continue
        out.append(l2)
    return out


def find_bounds(eng, guards, k, sol, gen, base):
    """all n such that every continuing partition has k < n, the tightest first"""
    cands = []
    for g in guards:
        s = set()
        for l in simp_lits(g, sol):
            if isT(l) and l.op == "le":
                c, d = lin(l.a[0])
                if d.get(k) == 1:
                    rest = unlin(c, {x: v for x, v in d.items() if x is not k})
                    if not occurs(rest, k) and not any(x in gen.init for x in atoms_in(rest, lambda t: t in gen.init)):
                        s.add(sub(1, add(rest, 0)) if True else None)
            if isT(l) and l.op == "not" and isT(l.a[0]) and l.a[0].op == "eq":
                c, d = lin(l.a[0].a[0])
                if abs(d.get(k, 0)) == 1:
                    sg = d[k]
                    rest = unlin(c, {x: v for x, v in d.items() if x is not k})
                    n = scale(rest, -sg)
                    if not occurs(n, k) and base.ent(le(0, n)):
                        s.add(n)
        cands.append(s)
    if not cands:
        return []
    common = set.intersection(*cands)
    if not common:
        return []
    common = sorted(common, key=lambda t: (0 if isinstance(t, int) else 1, t if isinstance(t, int) else t.id))
    # prefer the smallest entailed
    best = common[0]
    for x in common[1:]:
        if base.ent(le(x, best)):
            best = x
    # k + rest <= 0  <=>  k < 1 - rest
    return [best] + [x for x in common if x is not best]


def is_bound_lit(l, k, n):
    if not isT(l):
        return True
    if l.op == "le":
        return l is le0(add(sub(k, n), 1)) or l == le0(add(sub(k, n), 1))
    if l.op == "not" and isT(l.a[0]) and l.a[0].op == "eq":
        return l is neg(eqi(k, n))
    return False


def exit_is_final(lits, k, n):
    """the literals say k >= n (or k == n)"""
    a = le(n, k)
    b = eqi(k, n)
    return any(l is a or l is b for l in lits)


def canon_kx(bound, cont, multi, k):
    h = 0
    parts = (bound if bound is not None else -1, cont, multi if multi is not None else ())
    parts = (parts[0], tuple(parts[1]), tuple(tuple(x) for x in parts[2]))
    h = height(parts) + 1
    b = subst(parts, {k: mk("bv", h)})
    b = (b[0], tuple(sorted(b[1], key=str)), tuple(sorted((tuple(sorted(g, key=str)) for g in b[2]), key=str)))
    return mk("kx", h, b)


def drop_guard(g, k, bound_lits):
    return g


def settles(ups, gen, n):
    for p, us in ups.items():
        if p.op == "phi" and len(us) == n and all(u is us[0] or u == us[0] for u in us):
            u = us[0]
            if isT(u) and (occurs(u, p) or u.op == "undef"):
                continue
            if intlike(u, tyof(p)) and isT(u):
                continue
            i = gen.init[p]
            if i is u or i == u or not (isinstance(i, int) or (isT(i) and i.op == "agg")):
                continue
            return True
    return False


def grows(u, p):
    if not intlike(u, tyof(p)):
        return False
    d = sub(u, p)
    r = rng(d)
    return r is not None and r[0] >= 0


def solve(eng, gen, ups, init, guards, k, sol, uid):
    """closed forms for the remaining loop variables; fills sol"""
    todo = {p: us for p, us in ups.items() if p not in sol}
    # invariants p + q = const among integer variables with a single back edge
    ch = True
    while ch and todo:
        ch = False
        for p in list(todo):
            us = [subst(u, sol) if isT(u) else u for u in todo[p]]
            r = solve_one(eng, gen, p, us, init[p], guards, k, sol, set(todo))
            if r is not None:
                sol[p] = r
                del todo[p]
                for q in list(sol):
                    if isT(sol[q]):
                        sol[q] = subst(sol[q], {p: r}) if q is not p else sol[q]
                ch = True
    if not todo:
        return
    # eliminate linear invariants
    ints = [p for p in todo if p.op == "phi" and intlike(p, tyof(p)) and all(intlike(u, tyof(p)) for u in todo[p])]
    for i, p in enumerate(ints):
        for q in ints[i + 1:]:
            if p not in todo or q not in todo:
                continue
            for s in (1, -1):
                if all(add(sub(up, p), scale(sub(uq, q), s)) == 0 for up, uq in zip(todo[p], todo[q])):
                    # p + s q = const
                    c0 = add(init[p], scale(init[q], s))
                    # q = s*(c0 - p)
                    e = scale(sub(c0, p), s)
                    for z in todo:
                        todo[z] = [subst(u, {q: e}) if isT(u) else u for u in todo[z]]
                    del todo[q]
                    sol[q] = e
                    break
    if not todo:
        return
    # canonical recurrence for what is left: variables ordered by first use
    anon = {p: (mk("rv", tyof(p), -1) if p.op == "phi" else (mk("rvq", -1) if p.op == "phiq" else mk("fixed", mk("rvq", -1), p.a[1]))) for p in todo}
    anon[k] = mk("bv", 99)

    def okey(p):
        def key(u):
            if intlike(u, -1) and p.op == "phi" and intlike(p, tyof(p)):
                u = sub(u, p)
            return str(subst(u, anon) if isT(u) else u)
        ik = "" if p.op == "phi" and intlike(p, tyof(p)) else str(init[p])
        return (p.op, ik, tuple(sorted(key(u) for u in todo[p])))
    order = sorted(todo, key=okey)
    names = {}
    shift = {}
    for i, p in enumerate(order):
        if p.op == "phi":
            b = mk("rv", tyof(p), i)
            if intlike(p, tyof(p)) and all(grows(u, p) for u in todo[p]):
                names[p] = add(init[p], b)
                shift[p] = init[p]
            else:
                names[p] = b
        else:
            names[p] = mk("rvq", i) if p.op == "phiq" else mk("fixed", mk("rvq", i), p.a[1])
    h = height(tuple(tuple(todo[p]) for p in order)) + 1
    kv = mk("bv", h)
    tmp = dict(names)
    tmp[k] = kv
    ug = []
    for i in range(len(guards)):
        g = tuple(sorted((subst(l, tmp) for l in simp_lits(guards[i], sol) if isT(l) and len(guards) > 1), key=lambda t: t.id if isT(t) else 0))
        us = tuple((sub(subst(todo[p][i], tmp), shift[p]) if p in shift else (subst(todo[p][i], tmp) if isT(todo[p][i]) else todo[p][i])) for p in order)
        ug.append((g, us))
    ug = tuple(sorted(ug, key=skey))
    inits = tuple(0 if p in shift else init[p] for p in order)
    for i, p in enumerate(order):
        body = (h, inits, ug, i)
        if p.op == "phi":
            t = mk("rec", tyof(p), k, body)
            sol[p] = add(shift[p], t) if p in shift else t
        elif p.op == "phiq":
            sol[p] = whole(mk("recq", k, body))
        else:
            sol[p] = whole(mk("fixed", mk("recq", k, body), p.a[1]))
    # invariants may mention the recurrence variables
    for q in list(sol):
        if isT(sol[q]):
            sol[q] = subst(sol[q], {p: sol[p] for p in order})


def solve_one(eng, gen, p, us, ini, guards, k, sol, todo):
    others = todo - {p}
    if any(occ_any(u, others) for u in us if isT(u)):
        return None
    if p.op == "phi" and intlike(p, tyof(p)):
        ds = [sub(u, p) if intlike(u, tyof(p)) else None for u in us]
        if any(d is None for d in ds):
            return None
        if all(d == ds[0] for d in ds):
            d = ds[0]
            if isT(d) and occurs(d, p):
                return None
            if isinstance(d, int):
                return add(ini, scale(k, d))
            if not occurs(d, k):
                r = mul(k, d)
                return None if r is None else add(ini, r)
            return add(ini, mksum(k, d, k))
        return None
    if p.op == "phi":
        # constant update: value after the first iteration does not depend on the variable
        return None
    # sequences
    me = p
    apps = []
    for u in us:
        if not (isT(u) and u.op == "seq"):
            return None
        a = append_of(u, me)
        apps.append(a)
    if all(a is not None for a in apps):
        if all(a is apps[0] for a in apps):
            body = apps[0]
            if occ_any(body, {me}):
                return None
            return mkseq(ini.a + (bind_rep(k, body, k_to(body, k)),)) if True else None
        if any(occ_any(a, {me}) for a in apps):
            return None
        segs = []
        for g, a in zip(guards, apps):
            gg = tuple(sorted((l for l in simp_lits(g, sol) if isT(l)), key=lambda t: t.id))
            segs.append((gg, a))
        # drop literals common to all arms
        com = set(segs[0][0]).intersection(*[set(x[0]) for x in segs[1:]])
        body = mk("seq", mkcs([(tuple(sorted((l for l in g if l not in com), key=skey)), a) for g, a in segs]))
        return mkseq(ini.a + (bind_rep(k, body, k),))
    if len(us) == 1:
        r = overwrite(us[0], me, ini, k)
        if r is not None:
            return r
    return None


def k_to(body, k):
    return k


def mksum(n, d, k):
    h = height(d) + 1
    return mk("sum", n, subst(d, {k: mk("bv", h)}), h)


def append_of(u, q):
    """u = q ++ X  -> X"""
    if not u.a:
        return None
    g = u.a[0]
    if g.op == "sub" and g.a[0] is q and g.a[1] == 0 and g.a[2] == qlen(q):
        return mkseq(u.a[1:])
    return None


def overwrite(u, q, ini, k):
    """u = q[..pos] ++ X ++ q[pos+len X..] with pos linear in k and step len X -> closed form"""
    segs = list(u.a)
    n = qlen(q)
    pre = None
    if segs and segs[0].op == "sub" and segs[0].a[0] is q and segs[0].a[1] == 0:
        pre = segs[0].a[2]
        mid = segs[1:]
    else:
        pre = 0
        mid = segs
    if mid and mid[-1].op == "sub" and mid[-1].a[0] is q and add(mid[-1].a[1], mid[-1].a[2]) == n:
        mid = mid[:-1]
    X = mkseq(mid)
    lx = seq_len(X)
    if not isinstance(lx, int) or lx == 0:
        return None
    c, d = lin(pre)
    if d.get(k, 0) != lx:
        return None
    p0 = sub(pre, scale(k, lx))
    if occurs(p0, k) or occ_any(X, {q}):
        # reads of the untouched part at the same index are reads of the initial value
        X2 = subst(X, {q: mk("inimark")}) if False else None
        return None
    head = seq_slice(ini, 0, p0)
    tail = seq_slice(ini, add(p0, scale(k, lx)), sub(sub(n, p0), scale(k, lx)))
    return mkseq(head.a + (bind_rep(k, X, k),) + tail.a)


from terms import qlen
T.REB["rec"] = lambda ty, kk, body: (body[1][body[3]] if kk == 0 and not isinstance(kk, T.Term) else mk("rec", ty, kk, body))
T.REB["recq"] = lambda kk, body: (body[1][body[3]] if kk == 0 and not isinstance(kk, T.Term) else mk("recq", kk, body))
T.REB["sum"] = lambda n, d, h: 0 if n == 0 else mk("sum", n, d, h)
T.REB["cs"] = lambda *arms: mkcs(arms)
