"""keyed maps (HashMap, BTreeMap): entries with pairwise different keys over an unknown rest"""
from terms import *
from engine import *
from prims import prim, ret, fork2, some, NONE, UNIT, content, mat
import prims

NS = ("std::collections::HashMap::", "std::collections::BTreeMap::")
EN = ("std::collections::hash_map::", "std::collections::btree_map::")


def both(*names):
    return [n + m for n in NS for m in names]


def ent(cls, *names):
    return [n + cls + "::" + m for n in EN for m in names]


GONE = mk("gone")


def pm(i):
    return mk("pm", i)


def hm(eng, st, r):
    v = eng.read(st, r.a[0], r.a[1])
    if isT(v) and v.op == "ref":
        return hm(eng, st, v)
    if not isT(v):
        raise Lim("map")
    if v.op == "hm":
        return r, v
    if v.op in TYPED:
        return r, mk("hm", v)
    raise Lim("map of " + v.op)


def setmap(eng, st, r, v):
    st = st.fork()
    eng.write(st, r.a[0], r.a[1], v)
    return st


def keyval(eng, st, k, ty):
    ti = tinfo(ty)
    while ti["k"] == "ref":
        if tinfo(ti["e"])["k"] in ("str", "slice"):
            return content(eng, st, k)
        k = eng.read(st, k.a[0], k.a[1])
        ti = tinfo(ti["e"])
    if ti["k"] in ("int", "char", "bool"):
        return k
    if ti.get("def") in ("std::string::String", "std::vec::Vec"):
        return k.a[0] if k.op == "vec" else whole(k)
    raise Lim("map key " + ti["s"])


def keyeq(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return eqi(a, b)
    if a.op == "seq" or b.op == "seq":
        return eqv(a, b)
    return eqi(a, b)


def lookup(eng, st, r, key, vty, yes, no):
    """yes(state, index), no(state, map term)"""
    r, m = hm(eng, st, r)

    def go(s, i):
        if i < 0:
            if m.a[0] == 0:
                return no(s, r, m)
            l = mk("pred", "has", m.a[0], key)

            def found(x):
                v = mat(mk("call", vty, "map::get", m.a[0], key))
                x = setmap(eng, x, r, mk("hm", *m.a, key, v))
                return yes(x, r, (len(m.a) - 1) // 2)
            return fork2(s, l, found, lambda x: no(x, r, m))
        gone = m.a[2 + 2 * i] is GONE
        return fork2(s, keyeq(m.a[1 + 2 * i], key), lambda x: no(x, r, m) if gone else yes(x, r, i), lambda x: go(x, i - 1))
    if m.a[0] != 0:
        st = setmap(eng, st, r, m)
    return go(st, (len(m.a) - 1) // 2 - 1)


def vty_of(eng, at0):
    t = tinfo(at0)
    while t["k"] == "ref":
        t = tinfo(t["e"])
    return t["a"][1]


@prim(*both("new", "with_capacity"), *["<" + n[:-2] + x + " as std::default::Default>::default" for n, x in zip(NS, ("<K, V, S>", "<K, V>"))])
def p_mnew(eng, st, a, cal, at, dt):
    return ret(st, mk("hm", 0))


@prim(*both("get", "get_mut", "contains_key"))
def p_mget(eng, st, a, cal, at, dt):
    key = keyval(eng, st, a[1], at[1])
    isq = tinfo(dt)["k"] == "bool"
    return lookup(eng, st, a[0], key, vty_of(eng, at[0]),
                  lambda s, r, i: ret(s, 1 if isq else some(mk("ref", r.a[0], r.a[1] + (pm(i),)))),
                  lambda s, r, m: ret(s, 0 if isq else NONE))


def store(eng, s, r, m, i, key, v):
    a = list(m.a)
    if i is None:
        a += [key, v]
    else:
        a[2 + 2 * i] = v
    return setmap(eng, s, r, mk("hm", *a))


@prim(*both("insert"))
def p_minsert(eng, st, a, cal, at, dt):
    key = keyval(eng, st, a[1], at[1])
    KEYS[key] = a[1]

    def old(s, r, i):
        m = hm(eng, s, r)[1]
        return ret(store(eng, s, r, m, i, key, a[2]), some(m.a[2 + 2 * i]))
    return lookup(eng, st, a[0], key, vty_of(eng, at[0]), old, lambda s, r, m: ret(store(eng, s, r, m, None, key, a[2]), NONE))


@prim(*both("remove"))
def p_mremove(eng, st, a, cal, at, dt):
    key = keyval(eng, st, a[1], at[1])

    def old(s, r, i):
        m = hm(eng, s, r)[1]
        b = list(m.a)
        v = b[2 + 2 * i]
        if m.a[0] != 0:
            b += [key, GONE]
            return ret(setmap(eng, s, r, mk("hm", *b)), some(v))
        del b[1 + 2 * i:3 + 2 * i]
        return ret(setmap(eng, s, r, mk("hm", *b)), some(v))
    return lookup(eng, st, a[0], key, vty_of(eng, at[0]), old, lambda s, r, m: ret(s, NONE))


@prim(*both("clear"))
def p_mclear(eng, st, a, cal, at, dt):
    r, m = hm(eng, st, a[0])
    return ret(setmap(eng, st, r, mk("hm", 0)), UNIT)


@prim(*both("len", "is_empty"))
def p_mlen(eng, st, a, cal, at, dt):
    r, m = hm(eng, st, a[0])
    n = (len(m.a) - 1) // 2
    if m.a[0] != 0:
        if GONE in m.a:
            raise Lim("size of unknown map")
        new = 0
        for k in m.a[1::2]:
            l = mk("pred", "has", m.a[0], k)
            if st.facts.ent(neg(l)):
                new += 1
            elif not st.facts.ent(l):
                raise Lim("size of unknown map")
        n = add(mk("call", ty_by_name("usize"), "map::len", m.a[0]), new)
        if tinfo(dt)["k"] == "bool":
            return ret(st, le(n, 0))
        return ret(st, n)
    return ret(st, int(n == 0) if tinfo(dt)["k"] == "bool" else n)


@prim(*both("entry"))
def p_mentry(eng, st, a, cal, at, dt):
    key = keyval(eng, st, a[1], at[1])
    vs = {v["n"]: i for i, v in enumerate(tinfo(dt)["v"])}
    return lookup(eng, st, a[0], key, vty_of(eng, at[0]),
                  lambda s, r, i: ret(s, agg(vs["Occupied"], mk("ment", r.a[0], r.a[1], key, i))),
                  lambda s, r, m: ret(s, agg(vs["Vacant"], mk("ment", r.a[0], r.a[1], key, -1))))


def entry_of(eng, st, v):
    while isT(v) and v.op == "ref":
        v = eng.read(st, v.a[0], v.a[1])
    if not isT(v) or v.op != "ment":
        raise Lim("map entry")
    return v


@prim(*ent("OccupiedEntry", "get", "get_mut", "into_mut"))
def p_oget(eng, st, a, cal, at, dt):
    e = entry_of(eng, st, a[0])
    return ret(st, mk("ref", e.a[0], e.a[1] + (pm(e.a[3]),)))


@prim(*ent("OccupiedEntry", "insert"))
def p_oinsert(eng, st, a, cal, at, dt):
    e = entry_of(eng, st, a[0])
    r = mk("ref", e.a[0], e.a[1])
    m = hm(eng, st, r)[1]
    return ret(store(eng, st, r, m, e.a[3], e.a[2], a[1]), m.a[2 + 2 * e.a[3]])


@prim(*ent("VacantEntry", "insert"))
def p_vinsert(eng, st, a, cal, at, dt):
    e = entry_of(eng, st, a[0])
    r, m = hm(eng, st, mk("ref", e.a[0], e.a[1]))
    s = store(eng, st, r, m, None, e.a[2], a[1])
    return ret(s, mk("ref", r.a[0], r.a[1] + (pm((len(m.a) - 1) // 2),)))


@prim(*ent("VacantEntry", "into_key"))
def p_vkey(eng, st, a, cal, at, dt):
    k = entry_of(eng, st, a[0]).a[2]
    return ret(st, mk("vec", k) if isT(k) and k.op == "seq" else k)


# ---------------------------------------------------------------- ordered iteration
BM = "std::collections::btree_map::"
prims.ITS += tuple(BM + x for x in ("IntoIter", "Iter", "IterMut", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues"))


def keylt(a, b):
    """a literal, or True or False, for: key a is smaller than key b (they differ)"""
    if isinstance(a, int) or isinstance(b, int) or a.op != "seq" or b.op != "seq":
        return lt(a, b)
    x, y = const_bytes(a), const_bytes(b)
    if x is not None and y is not None:
        return 1 if x < y else 0
    return mk("pred", "key<", a, b) if a.id < b.id else neg(mk("pred", "key<", b, a))


def const_bytes(q):
    out = []
    for s in q.a:
        if s.op != "c":
            return None
        out += list(s.a)
    return out


def in_order(eng, st, m, k):
    """continue with k(state, indices of the entries by increasing key)"""
    if m.a[0] != 0 or GONE in m.a:
        raise Lim("order of an unknown map")
    n = (len(m.a) - 1) // 2
    if n > 4:
        raise Lim("order of a large map")

    def place(s, done, i):
        if i == n:
            return k(s, done)

        def at(x, j):
            if j == len(done):
                return place(x, done + [i], i + 1)
            return fork2(x, keylt(m.a[1 + 2 * i], m.a[1 + 2 * done[j]]), lambda y: place(y, done[:j] + [i] + done[j:], i + 1), lambda y: at(y, j + 1))
        return at(s, 0)
    return place(st, [], 0)


def walk(eng, st, r, m, dt, item):
    ety = tinfo(dt)["a"][0] if tinfo(dt).get("a") else -1
    return in_order(eng, st, m, lambda s, o: ret(s, prims.mkiter("val", (mkseq(tuple(elem(item(i)) for i in o)), ety), 0, len(o))))


@prim("std::collections::BTreeMap::iter", "std::collections::BTreeMap::iter_mut", "std::collections::BTreeMap::keys", "std::collections::BTreeMap::values", "std::collections::BTreeMap::values_mut",
      "<&'a std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter")
def p_miter(eng, st, a, cal, at, dt):
    r, m = hm(eng, st, a[0])
    what = cal["def"].split("::")[-1]

    def item(i):
        k, v = (mk("ref", r.a[0], r.a[1] + (mk(p, i),)) for p in ("pk", "pm"))
        return k if what == "keys" else v if what.startswith("values") else agg(0, k, v)
    return walk(eng, st, r, m, dt, item)


@prim("<std::collections::BTreeMap<K, V, A> as std::iter::IntoIterator>::into_iter", "std::collections::BTreeMap::into_keys", "std::collections::BTreeMap::into_values")
def p_minto(eng, st, a, cal, at, dt):
    m = a[0]
    if not (isT(m) and m.op == "hm"):
        raise Lim("map")
    what = cal["def"].split("::")[-1]

    def item(i):
        k, v = map_key(m.a[1 + 2 * i]), m.a[2 + 2 * i]
        return k if what == "into_keys" else v if what == "into_values" else agg(0, k, v)
    return walk(eng, st, None, m, dt, item)
