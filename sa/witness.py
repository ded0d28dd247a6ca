"""Confirmation of integer differences.  Two integer terms whose equality is not
entailed differ definitely only if some valuation of their atoms satisfies the
linear facts and gives them different values; terms over bit operations,
truncations and table look-ups are evaluated at a sample of valuations."""
import random
from terms import *
import terms as T
from engine import binop, wrapi, Lim

NONLIN = ("byte", "bin", "trunc", "case", "wrap", "sum", "tbl")


class NoEval(Exception):
    pass


def leaves(t, out, f):
    if isinstance(t, int):
        return
    o = t.op
    if o == "+":
        for x, c in t.a[1]:
            leaves(x, out, f)
    elif o == "byte":
        leaves(t.a[1], out, f)
    elif o == "bin":
        leaves(t.a[1], out, f)
        leaves(t.a[2], out, f)
    elif o == "wrap":
        leaves(t.a[1], out, f)
    elif o == "case":
        for g, v in t.a:
            for l in (g if isinstance(g, tuple) else (g,)):
                leaves(l, out, f)
            leaves(v, out, f)
    elif o in ("le", "eq"):
        leaves(t.a[0], out, f)
    elif o == "not":
        leaves(t.a[0], out, f)
    elif o == "at" and isT(t.a[1]) and t.a[1].op == "seq" and len(t.a[1].a) == 1 and t.a[1].a[0].op == "c":
        leaves(t.a[2], out, f)
    elif rng(t) is not None:
        out.setdefault(t, rng(t))
    else:
        raise NoEval()


def ev(t, env):
    if isinstance(t, int):
        return t
    if t in env:
        return env[t]
    o = t.op
    if o == "+":
        return t.a[0] + sum(c * ev(x, env) for x, c in t.a[1])
    if o == "byte":
        w, x, i = t.a
        return (ev(x, env) >> (8 * (w - 1 - i))) & 255
    if o == "bin":
        op, x, y, ty = t.a
        try:
            return binop(op, ev(x, env), ev(y, env), ty)
        except Lim:
            raise NoEval()
    if o == "wrap":
        return wrapi(ev(t.a[1], env), t.a[0])
    if o == "case":
        for g, v in t.a:
            if all(ev(l, env) for l in (g if isinstance(g, tuple) else (g,))):
                return ev(v, env)
        raise NoEval()
    if o == "le":
        return int(ev(t.a[0], env) <= 0)
    if o == "eq":
        return int(ev(t.a[0], env) == 0)
    if o == "not":
        return 1 - ev(t.a[0], env)
    if o == "at":
        i = ev(t.a[2], env)
        c = t.a[1].a[0].a
        if 0 <= i < len(c):
            return c[i]
    raise NoEval()


def table(t):
    """a look-up in a constant table occurs in t"""
    if isinstance(t, tuple):
        return any(table(x) for x in t)
    if not isT(t):
        return False
    r = _tab.get(t)
    if r is None:
        r = t.op == "at" and isT(t.a[1]) and t.a[1].op == "seq" and T.const_bytes(t.a[1]) is not None or any(
            table(x) for x in t.a if isT(x) or isinstance(x, tuple))
        _tab[t] = r
    return r


_tab = {}


def nonlinear(t):
    return isT(t) and (has_op(t, NONLIN) or table(t))


def nonlin(l):
    """a linear literal over a term the linear domain only approximates"""
    l = l.a[0] if l.op == "not" and isT(l.a[0]) else l
    return l.op in ("le", "eq") and any(has_op(x, ("bin", "wrap", "trunc")) or table(x) for x in T.lin(l.a[0])[1])


def linlit(l):
    return l.op in ("le", "eq") or l.op == "not" and isT(l.a[0]) and l.a[0].op in ("eq", "le")


def consts_of(ts):
    consts = {0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 1 << 24, (1 << 32) - 1, 1 << 32}

    def cs(t, tab=False):
        if isinstance(t, int):
            consts.update((t, -t, t + 1, t - 1, 1 - t))
        elif isT(t):
            if t.op == "seq" and len(t.a) == 1 and t.a[0].op == "c":
                return
            for x in t.a:
                cs(x)
        elif isinstance(t, tuple):
            for x in t:
                cs(x)
    for t in ts:
        cs(t)
    return consts


def connected(seeds, f):
    """the facts over the atoms of seeds, transitively -> ({literal: atoms}, {atom: range})"""
    lv = {}
    for l in seeds:
        leaves(l, lv, f)
    lits = {}
    todo = []
    for l in f.order:
        if linlit(l):
            m = {}
            try:
                leaves(l, m, f)
            except NoEval:
                continue
            todo.append((l, m))
    ch = True
    while ch:
        ch = False
        for x in list(todo):
            l, m = x
            if any(k in lv for k in m):
                lits[l] = m
                todo.remove(x)
                lv.update({k: v for k, v in m.items() if k not in lv})
                ch = True
    return lits, lv


def search(goals, lits, lv, f, budget=8000, secs=2.0):
    """a valuation of the atoms lv meeting lits ({literal: atoms}) and goals
    ([(atoms, predicate of a valuation)]); None when none was found"""
    import time
    until = time.time() + secs
    consts = consts_of(list(lits) + [x for g in goals for x in g[2]])
    rnd = random.Random(7)
    dom = {}
    for k, (lo, hi) in lv.items():
        if k.op == "discr":
            vs = tinfo(tyof(k.a[0])).get("v") or ()
            dom[k] = [v["d"] for i, v in enumerate(vs) if not f.refutes(isv(k.a[0], i))]
        elif hi - lo <= 300:
            c = sorted(c for c in consts if lo <= c <= hi)
            rest = [x for x in range(lo, hi + 1) if x not in consts]
            rnd.shuffle(c), rnd.shuffle(rest)
            dom[k] = c + rest
        else:
            c = sorted({c for c in consts if lo <= c <= hi} | {lo, hi})
            more = [rnd.randint(max(lo, -(1 << 20)), min(hi, 1 << rnd.choice((3, 6, 8, 16, 33)))) for _ in range(40)]
            rnd.shuffle(c)
            dom[k] = list(dict.fromkeys(c + more))
    cons = [(frozenset(m), (lambda env, l=l: ev(l, env))) for l, m in lits.items()] + [(frozenset(g[0]), g[1]) for g in goals]

    def ok(c, env):
        try:
            return bool(c(env))
        except NoEval:
            return False
    for k in dom:
        one = [c for at, c in cons if at == {k}]
        if one:
            dom[k] = [x for x in dom[k] if all(ok(c, {k: x}) for c in one)]
        if not dom[k]:
            return None
    if not all(ok(c, {}) for at, c in cons if not at):
        return None
    cons = [(at, c) for at, c in cons if len(at) > 1]
    order = []
    left = set(dom)
    while left:
        # most constrained with what is already there, then the smallest domain
        k = min(left, key=lambda k: (-sum(1 for at, c in cons if k in at and len(at - set(order) - {k}) == 0),
                                     -sum(1 for at, c in cons if k in at and at & set(order)), len(dom[k]), k.id))
        order.append(k)
        left.discard(k)
    check = [[c for at, c in cons if k in at and at <= set(order[:i + 1])] for i, k in enumerate(order)]
    nodes = [budget]
    env = {}

    def go(i):
        if i == len(order):
            return True
        k = order[i]
        vs = dom[k]
        if i and len(vs) > 2:
            n = rnd.randrange(len(vs))
            vs = vs[n:] + vs[:n]
        for v in vs:
            nodes[0] -= 1
            if nodes[0] < 0 or nodes[0] % 64 == 0 and time.time() > until:
                nodes[0] = -1
                return False
            env[k] = v
            if all(ok(c, env) for c in check[i]) and go(i + 1):
                return True
            if nodes[0] < 0:
                return False
        env.pop(k, None)
        return False
    return env if go(0) else None


_sat = {}


def sat(f):
    """False when the facts hold non-linear constraints and no valuation meeting them was found"""
    nl = [l for l in f.order if nonlin(l)]
    if not nl:
        return True
    key = frozenset(f.order)
    if key not in _sat:
        _sat[key] = _sat_(f, nl)
    return _sat[key]


def _sat_(f, nl):
    done = set()
    for l in nl:
        if l in done:
            continue
        try:
            lits, lv = connected([l], f)
        except NoEval:
            continue
        done.update(lits)
        if search([], lits, lv, f) is None:
            return False
    return True


def differ(a, b, f):
    """True: a valuation tells them apart; False: none found; None: not evaluable"""
    try:
        lits, lv = connected([t for t in (a, b)], f)
        m = {}
        leaves(a, m, f)
        leaves(b, m, f)
    except NoEval:
        return None
    return search([(m, lambda env: ev(a, env) != ev(b, env), (a, b))], lits, lv, f) is not None
