"""Transfer functions for the standard-library (and third-party) operations the
analysed code relies on.  Each one states the documented meaning of the API in
the value domain; anything not listed is either analysed from its own MIR or
treated as an uninterpreted function."""
from terms import *
import terms as T
from engine import *

P = {}


def prim(*names):
    def d(f):
        for n in names:
            P[n] = f
        return f
    return d


def ret(st, v):
    return [Out("ret", st, v)]


def panic(st, what):
    return Out("panic", st, None, (what, "std"))


def branch(st, lit):
    """-> (state where lit, state where not lit), None when infeasible"""
    return st.with_(lit), st.with_(neg(lit))


def fork2(st, lit, yes, no):
    a, b = branch(st, lit)
    r = []
    if a:
        r += yes(a)
    if b:
        r += no(b)
    return r


def guard(st, lit, what, k):
    """continue with k(st) where lit holds, panic elsewhere"""
    a, b = branch(st, lit)
    r = []
    if a:
        r += k(a)
    if b:
        r.append(panic(b, what))
    return r


def as_slice(eng, st, v):
    for _ in range(6):
        if not isT(v):
            raise Lim("slice of int")
        if v.op == "sref":
            return v
        if v.op == "ref":
            c = eng.read(st, v.a[0], v.a[1])
            if not isT(c):
                raise Lim("slice of scalar")
            if c.op == "vec":
                return mk("sref", v.a[0], v.a[1] + (PV,), 0, seq_len(c.a[0]))
            if c.op == "seq":
                return mk("sref", v.a[0], v.a[1], 0, seq_len(c))
            if c.op == "box":
                v = mk("ref", v.a[0], v.a[1] + (PB,))
                continue
            if c.op in ("ref", "sref"):
                v = c
                continue
            if c.op == "agg" and len(c.a) == 2:
                v = mk("ref", v.a[0], v.a[1] + (pf(c.a[0], 0, -1),))
                continue
            if c.op in TYPED and c.op != "S":
                ti = tinfo(tyof(c))
                if ti["k"] in ("str", "slice"):
                    q = whole(mk("S", u8ty() if ti["k"] == "str" else ti["e"], c))
                    return mk("sref", ("C", q), (), 0, seq_len(q))
        break
    raise Lim("slice of %s" % (v.op if isT(v) else v))


def content(eng, st, v):
    s = as_slice(eng, st, v)
    return seq_slice(eng.read(st, s.a[0], s.a[1]), s.a[2], s.a[3], st.facts)


def vecloc(eng, st, v):
    """(root, path) of the Vec/String behind a reference"""
    for _ in range(4):
        if isT(v) and v.op == "ref":
            c = eng.read(st, v.a[0], v.a[1])
            if isT(c) and c.op == "vec":
                return v.a[0], v.a[1], c.a[0]
            if isT(c) and c.op == "ref":
                v = c
                continue
        break
    raise Lim("not a vec")


def setvec(eng, st, v, s):
    root, path, _ = vecloc(eng, st, v)
    st = st.fork()
    eng.write(st, root, path, mk("vec", s))
    return st


def ty0(cal, i=0):
    a = [x for x in cal.get("a", []) if isinstance(x, int)]
    return a[i] if i < len(a) else -1


def crate_ty(ty):
    s = tinfo(ty)["s"]
    return s.startswith("stacks_rs") or s.startswith("sharness")


# ---------------------------------------------------------------- identity-like
@prim("std::hint::must_use", "std::convert::identity", "std::mem::ManuallyDrop::new", "std::hint::black_box",
      "std::iter::IntoIterator::into_iter#id", "<I as std::iter::IntoIterator>::into_iter",
      "<T as std::convert::From<T>>::from", "<T as std::convert::Into<T>>::into",
      "std::string::String::into_bytes", "std::string::String::from_utf8_unchecked", "std::boxed::Box::leak",
      "std::vec::Vec::into_boxed_slice#no", "std::string::String::as_mut_vec", "std::borrow::Cow::into_owned#no")
def p_id(eng, st, a, cal, at, dt):
    return ret(st, a[0])


@prim("std::mem::drop", "core::mem::drop", "std::mem::forget", "<std::boxed::Box<T, A> as std::ops::Drop>::drop")
def p_drop(eng, st, a, cal, at, dt):
    return ret(st, UNIT)


@prim("std::boxed::Box::new", "<std::boxed::Box<T> as std::convert::From<T>>::from")
def p_box(eng, st, a, cal, at, dt):
    return ret(st, mk("box", a[0]))


@prim("<std::boxed::Box<T> as std::default::Default>::default")
def p_boxdefault(eng, st, a, cal, at, dt):
    f = eng.fns[cal["i"]]
    for b in f.get("bbs") or ():
        t = b["t"]
        if t[0] == "call" and t[1].get("def", "").endswith("Default::default"):
            r = []
            for o in eng.apply(st, t[1], [], [], t[7], None):
                r.append(Out("ret", o.st, mk("box", o.val)) if o.kind == "ret" else o)
            return r
    return None


@prim("dyn_clone::clone_box", "dyn_clone::clone")
def p_dynclone(eng, st, a, cal, at, dt):
    # a clone denotes the same value; that every implementor's clone does is an
    # obligation of its own
    if tinfo(dt).get("box"):
        v = a[0]
        if v.op == "ref":
            v = eng.read(st, v.a[0], v.a[1])
        else:
            return None
        return ret(st, mk("box", v))
    return None


@prim("std::boxed::Box::new_uninit", "std::boxed::Box::new_uninit_in")
def p_boxu(eng, st, a, cal, at, dt):
    return ret(st, mk("box", UNDEF))


def unwrap_uninit(v):
    while isT(v) and v.op == "agg":
        fs = [x for x in v.a[1:] if x is not UNDEF]
        if len(fs) != 1:
            raise Lim("uninit")
        v = fs[0]
    return v


@prim("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::into_vec", "std::slice::hack::into_vec")
def p_boxvec(eng, st, a, cal, at, dt):
    v = unwrap_uninit(a[0].a[0])
    if v.op != "seq":
        raise Lim("boxvec")
    return ret(st, mk("vec", v))


@prim("std::vec::Vec::into_boxed_slice", "std::string::String::into_boxed_str")
def p_vecbox(eng, st, a, cal, at, dt):
    return ret(st, mk("box", a[0].a[0]))


@prim("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
      "std::borrow::Borrow::borrow", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_bytes",
      "std::string::String::as_str", "core::str::as_bytes", "std::string::String::as_mut_str", "core::array::as_slice",
      "core::array::as_mut_slice", "std::array::as_slice", "core::str::as_bytes_mut",
      "core::slice::as_ref", "std::boxed::Box::as_ref")
def p_deref(eng, st, a, cal, at, dt):
    ti = tinfo(dt)
    if ti["k"] != "ref":
        return None
    e = tinfo(ti["e"])
    if e["k"] in ("slice", "str"):
        src = tinfo(at[0])
        s = pointee(src)
        n = s["s"]
        if s["k"] in ("slice", "str", "array") or is_vec(s) or s.get("box") or s["k"] == "ref":
            return ret(st, as_slice(eng, st, a[0]))
        return None
    v = a[0]
    src = pointee(tinfo(at[0]))
    if isT(v) and v.op == "ref":
        if src.get("box"):
            c = mk("ref", v.a[0], v.a[1] + (PB,))
            return ret(st, c)
        if src["k"] == "ref":
            c = eng.read(st, v.a[0], v.a[1])
            # <&T as AsRef<U>> forwards to T's implementation
            if cal.get("i") is not None and src["e"] != ti["e"]:
                return None
            return ret(st, c)
        if is_vec(src) and is_vec(e):
            return ret(st, v)
    return None


def pointee(ti):
    return tinfo(ti.get("e", -1))


# ---------------------------------------------------------------- Vec / String / slices
@prim("std::vec::Vec::new", "std::string::String::new", "std::vec::Vec::with_capacity", "std::string::String::with_capacity",
      "<std::vec::Vec<T> as std::default::Default>::default", "<std::string::String as std::default::Default>::default")
def p_new(eng, st, a, cal, at, dt):
    if a and not isinstance(a[0], int):
        # capacity overflow when the requested bytes exceed isize::MAX
        el = u8ty() if tinfo(dt)["def"] == "std::string::String" else tinfo(dt)["a"][0]
        r = rng(a[0])
        eng.note("with_capacity")
        lim = eng.alloc_limit
        if lim is not None:
            return guard(st, le(a[0], lim), "alloc", lambda s: ret(s, mk("vec", EMPTY)))
    return ret(st, mk("vec", EMPTY))


Engine.alloc_limit = None


@prim("std::vec::Vec::push", "std::vec::Vec::push_mut")
def p_push(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    return ret(setvec(eng, st, a[0], mkseq(s.a + (elem(a[1]),))), UNIT)


def ascii_char(f, c):
    """entailed below 128, by the facts or by one that speaks about every element"""
    if f.ent(lt(c, 128)):
        return True
    if not isT(c) or c.op != "at":
        return False
    for l in f.order:
        if l.op != "all":
            continue
        n, b, h = l.a
        for x in T.find_at(b, c.a[1]):
            i = sub(c.a[2], T.inst(x.a[2], h, 0))
            if T.inst(x, h, i) is not c or not f.ent(le(0, i)) or not f.ent(lt(i, n)):
                continue
            g = f.add(T.inst(b, h, i))
            if g is not None and g.ent(lt(c, 128)):
                return True
    return False


@prim("std::string::String::push")
def p_spush(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    c = a[1]
    if isinstance(c, int):
        return ret(setvec(eng, st, a[0], cat(s, mkseq([mk("c", *chr(c).encode())]))), UNIT)
    if ascii_char(st.facts, c):
        return ret(setvec(eng, st, a[0], mkseq(s.a + (elem(c),))), UNIT)
    q = mk("fmt", "char", c)
    return ret(setvec(eng, st, a[0], cat(s, whole(q))), UNIT)


@prim("std::vec::Vec::extend_from_slice", "std::string::String::push_str", "std::string::String::extend_from_slice#no")
def p_extend(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    x = content(eng, st, a[1])
    x = eng_clone_seq(eng, st, x)
    return ret(setvec(eng, st, a[0], cat(s, x)), UNIT)


def eng_clone_seq(eng, st, x):
    return x


@prim("<std::string::String as std::ops::Add<&str>>::add")
def p_sadd(eng, st, a, cal, at, dt):
    v = a[0]
    return ret(st, mk("vec", cat(v.a[0] if v.op == "vec" else whole(v), content(eng, st, a[1]))))


@prim("<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def p_sadda(eng, st, a, cal, at, dt):
    return p_extend(eng, st, a, cal, at, dt)


@prim("core::str::to_lowercase", "core::str::to_uppercase", "std::str::to_lowercase", "std::str::to_uppercase", "std::str::to_ascii_lowercase", "std::str::to_ascii_uppercase",
      "std::slice::to_ascii_lowercase", "std::slice::to_ascii_uppercase")
def p_case(eng, st, a, cal, at, dt):
    """known for one text only"""
    c = content(eng, st, a[0])
    up = cal["def"].endswith("uppercase")
    b = bytes_of(c) if all(isT(x) and x.op == "c" for x in c.a) else None
    if b is not None:
        return ret(st, mk("vec", mkseq([mk("c", *(b.upper() if up else b.lower()).encode())] if b else [])))
    x, y = (97, 65) if up else (65, 97)
    return fork2(st, eqv(c, mkseq([mk("c", x)])), lambda s: ret(s, mk("vec", mkseq([mk("c", y)]))),
                 lambda s: eng.opaque_call(s, "lim:" + cal["def"], a, at, dt))


@prim("std::vec::Vec::append")
def p_append(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    r2, p2, s2 = vecloc(eng, st, a[1])
    st = setvec(eng, st, a[0], cat(s, s2))
    return ret(setvec(eng, st, a[1], EMPTY), UNIT)


@prim("std::vec::Vec::clear", "std::string::String::clear")
def p_clear(eng, st, a, cal, at, dt):
    return ret(setvec(eng, st, a[0], EMPTY), UNIT)


@prim("std::vec::Vec::reserve", "std::string::String::reserve", "std::vec::Vec::shrink_to_fit", "std::vec::Vec::reserve_exact")
def p_nop(eng, st, a, cal, at, dt):
    return ret(st, UNIT)


@prim("std::vec::Vec::len", "core::slice::len", "std::string::String::len", "core::str::len")
def p_len(eng, st, a, cal, at, dt):
    return ret(st, as_slice(eng, st, a[0]).a[3])


@prim("std::vec::Vec::capacity", "std::string::String::capacity")
def p_cap(eng, st, a, cal, at, dt):
    raise Lim("capacity")


@prim("std::vec::Vec::is_empty", "core::slice::is_empty", "std::string::String::is_empty", "core::str::is_empty")
def p_isempty(eng, st, a, cal, at, dt):
    return ret(st, eqi(as_slice(eng, st, a[0]).a[3], 0))


@prim("std::vec::Vec::pop")
def p_pop(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)

    def yes(x):
        ety = tinfo(dt)["a"][0]
        v = seq_at(s, sub(n, 1), ety, x.facts)
        x = setvec(eng, x, a[0], seq_slice(s, 0, sub(n, 1), x.facts))
        return ret(x, some(v))
    return fork2(st, lt(0, n), yes, lambda x: ret(x, NONE))


@prim("std::vec::Vec::insert")
def p_insert(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)

    def k(x):
        pre = seq_slice(s, 0, a[1], x.facts)
        suf = seq_slice(s, a[1], sub(n, a[1]), x.facts)
        return ret(setvec(eng, x, a[0], mkseq(pre.a + (elem(a[2]),) + suf.a)), UNIT)
    return guard(st, le(a[1], n), "Vec::insert index", k)


@prim("std::vec::Vec::remove")
def p_remove(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)

    def k(x):
        v = seq_at(s, a[1], dt, x.facts)
        pre = seq_slice(s, 0, a[1], x.facts)
        suf = seq_slice(s, add(a[1], 1), sub(n, add(a[1], 1)), x.facts)
        return ret(setvec(eng, x, a[0], mkseq(pre.a + suf.a)), v)
    return guard(st, lt(a[1], n), "Vec::remove index", k)


@prim("std::vec::Vec::swap_remove")
def p_swap_remove(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)

    def k(x):
        v = seq_at(s, a[1], dt, x.facts)
        pre = seq_slice(s, 0, a[1], x.facts)

        def mid(y):
            last = seq_at(s, sub(n, 1), dt, y.facts)
            rest = seq_slice(s, add(a[1], 1), sub(n, add(a[1], 2)), y.facts)
            return ret(setvec(eng, y, a[0], mkseq(pre.a + (elem(last),) + rest.a)), v)
        return fork2(x, eqi(a[1], sub(n, 1)), lambda y: ret(setvec(eng, y, a[0], pre), v), mid)
    return guard(st, lt(a[1], n), "swap_remove index", k)


@prim("std::vec::Vec::truncate", "std::string::String::truncate")
def p_truncate(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)
    return fork2(st, lt(a[1], n), lambda x: ret(setvec(eng, x, a[0], seq_slice(s, 0, a[1], x.facts)), UNIT), lambda x: ret(x, UNIT))


@prim("std::vec::Vec::resize")
def p_resize(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)
    return fork2(st, lt(a[1], n), lambda x: ret(setvec(eng, x, a[0], seq_slice(s, 0, a[1], x.facts)), UNIT),
                 lambda x: ret(setvec(eng, x, a[0], mkseq(s.a + (mk("fill", a[2], sub(a[1], n)),))), UNIT))


@prim("std::vec::from_elem")
def p_fromelem(eng, st, a, cal, at, dt):
    return ret(st, mk("vec", mkseq([mk("fill", a[0], a[1])])))


@prim("std::slice::to_vec", "std::slice::hack::to_vec", "core::slice::to_vec", "std::borrow::ToOwned::to_owned", "std::str::to_owned", "std::slice::to_owned",
      "std::str::to_string", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "<std::string::String as std::convert::From<&str>>::from",
      "<std::string::String as std::convert::From<&std::string::String>>::from",
      "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from", "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from",
      "<std::vec::Vec<u8> as std::convert::From<&str>>::from", "std::str::into_string#no")
def p_tovec(eng, st, a, cal, at, dt):
    if not is_vec(tinfo(dt)):
        return None
    return ret(st, mk("vec", eng_clone_seq(eng, st, content(eng, st, a[0]))))


@prim("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "<std::vec::Vec<u8> as std::convert::From<std::string::String>>::from",
      "<std::vec::Vec<T> as std::convert::From<std::boxed::Box<[T]>>>::from")
def p_vecfrom(eng, st, a, cal, at, dt):
    v = a[0]
    if v.op == "box":
        v = v.a[0]
    return ret(st, v if v.op == "vec" else mk("vec", v))


@prim("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def p_copyfrom(eng, st, a, cal, at, dt):
    d = as_slice(eng, st, a[0])
    s = as_slice(eng, st, a[1])

    def k(x):
        src = content(eng, x, s)
        x = x.fork()
        eng.write(x, d.a[0], d.a[1], seq_write(eng.read(x, d.a[0], d.a[1]), d.a[2], src, x.facts))
        return ret(x, UNIT)
    return guard(st, eqi(d.a[3], s.a[3]), "copy_from_slice length", k)


@prim("core::slice::fill")
def p_fill(eng, st, a, cal, at, dt):
    d = as_slice(eng, st, a[0])
    x = st.fork()
    eng.write(x, d.a[0], d.a[1], seq_write(eng.read(x, d.a[0], d.a[1]), d.a[2], mkseq([mk("fill", a[1], d.a[3])]), x.facts))
    return ret(x, UNIT)


def rev_seq(s):
    c = const_bytes(s)
    if c is not None:
        return mkseq([mk("c", *reversed(c))]) if c else EMPTY
    if all(g.op in ("e", "c", "fill") or (g.op == "sub" and g.a[2] == 1) for g in s.a):
        out = []
        for g in reversed(s.a):
            out.append(mk("c", *reversed(g.a)) if g.op == "c" else g)
        return mkseq(out)
    if len(s.a) == 1 and s.a[0].op == "sub" and s.a[0].a[0].op == "revq" and s.a[0].a[1] == 0 and s.a[0].a[2] == qlen(s.a[0].a[0]):
        return s.a[0].a[0].a[0]
    return whole(mk("revq", s))


_ql = T.qlen


def qlen2(q):
    if q.op == "revq":
        return seq_len(q.a[0])
    if q.op == "fixed":
        return q.a[1]
    return _ql(q)


T.qlen = qlen2
T.REB["revq"] = lambda s: mk("revq", s)


@prim("core::slice::reverse")
def p_reverse(eng, st, a, cal, at, dt):
    d = as_slice(eng, st, a[0])
    x = st.fork()
    full = eng.read(x, d.a[0], d.a[1])
    eng.write(x, d.a[0], d.a[1], seq_write(full, d.a[2], rev_seq(seq_slice(full, d.a[2], d.a[3], x.facts)), x.facts))
    return ret(x, UNIT)


@prim("std::slice::sort", "std::slice::sort_by", "std::slice::sort_by_key", "std::slice::sort_by_cached_key",
      "core::slice::sort_unstable", "core::slice::sort_unstable_by", "core::slice::sort_unstable_by_key")
def p_sort(eng, st, a, cal, at, dt):
    """an order-dependent rearrangement: same length, contents an uninterpreted
    function of the old contents and of the ordering used"""
    d = as_slice(eng, st, a[0])
    ety = tinfo(tinfo(at[0])["e"])["e"]
    if tinfo(ety)["k"] == "ptr":
        raise Lim("sort of pointers")
    if len(a) > 1 and not (isT(a[1]) and a[1].op == "agg" and len(a[1].a) == 1):
        raise Lim("sort by a capturing closure")
    usz = ty_by_name("usize")
    key = "perm:" + ":".join(str(x) for x in cal.get("a", []))

    def go(x):
        x = x.fork()
        full = eng.read(x, d.a[0], d.a[1])
        old = seq_slice(full, d.a[2], d.a[3], x.facts)
        if tinfo(ety)["k"] == "ref":
            # which references end up where is not followed beyond two
            q = mk("S", ety, mk("call", tinfo(at[0])["e"], "lim:" + key, old))
            x.facts = x.facts.add(eqi(mk("len", q), d.a[3])) or x.facts
            eng.write(x, d.a[0], d.a[1], seq_write(full, d.a[2], mkseq((mk("sub", q, 0, d.a[3]),)), x.facts))
            return ret(x, UNIT)
        if len(old.a) != 1 or old.a[0].op not in ("sub", "rep") or old.a[0].op == "rep" and seq_len(old.a[0].a[1]) != 1:
            raise Lim("sort of a composite sequence")
        new = mkseq((T.close_rep(d.a[3], lambda k: mkseq((elem(seq_at(old, mk("call", usz, key, old, d.a[3], k), ety)),))),))
        eng.write(x, d.a[0], d.a[1], seq_write(full, d.a[2], new, x.facts))
        return ret(x, UNIT)

    def two(x):
        full = eng.read(x, d.a[0], d.a[1])
        vi, vj = seq_at(full, d.a[2], ety, x.facts), seq_at(full, add(d.a[2], 1), ety, x.facts)
        whole_ = d.a[2] == 0 and x.facts.ent(eqi(seq_len(full), 2))
        if not whole_ or any(isT(v) and v.op in ("at", "atq") and v.a[1].op != "S" for v in (vi, vj)):
            return go(x)

        def put(a, b):
            def f(y):
                y = y.fork()
                eng.write(y, d.a[0], d.a[1], mkseq((elem(a), elem(b))))
                return ret(y, UNIT)
            return f
        e = [eng.read(x, v.a[0], v.a[1]) if isT(v) and v.op == "ref" else v for v in (vi, vj)]
        return fork2(x, mk("pred", key, *e), put(vi, vj), put(vj, vi))
    return fork2(st, le(d.a[3], 1), lambda x: ret(x, UNIT), lambda x: fork2(x, eqi(d.a[3], 2), two, go))


@prim("core::slice::swap")
def p_swap(eng, st, a, cal, at, dt):
    d = as_slice(eng, st, a[0])

    def k(x):
        x = x.fork()
        i, j = add(d.a[2], a[1]), add(d.a[2], a[2])
        ety = -1
        vi = eng.read(x, d.a[0], d.a[1] + (pi(i, ety),))
        vj = eng.read(x, d.a[0], d.a[1] + (pi(j, ety),))
        eng.write(x, d.a[0], d.a[1] + (pi(i, ety),), vj)
        eng.write(x, d.a[0], d.a[1] + (pi(j, ety),), vi)
        return ret(x, UNIT)
    r = []
    for o in guard(st, lt(a[1], d.a[3]), "swap", lambda x: guard(x, lt(a[2], d.a[3]), "swap", k)):
        r.append(o)
    return r


# ---- indexing
def rangespec(eng, v, ty, n):
    """(start, end, exact) of an index value of type ty over length n"""
    nm = tinfo(ty).get("def", "")
    if nm.endswith("RangeFull"):
        return 0, n
    if nm.endswith("RangeFrom"):
        return fget(v, 0), n
    if nm.endswith("RangeToInclusive"):
        return 0, add(fget(v, 0), 1)
    if nm.endswith("RangeTo"):
        return 0, fget(v, 0)
    if nm.endswith("RangeInclusive"):
        return fget(v, 0), add(fget(v, 1), 1)
    if nm.endswith("Range"):
        return fget(v, 0), fget(v, 1)
    raise Lim("index type " + tinfo(ty)["s"])


def fget(v, i):
    if v.op == "agg":
        return v.a[i + 1]
    e = expand(v, 0)
    return e.a[i + 1]


def elemty(t):
    if t["k"] == "ref":
        t = pointee(t)
    if is_vec(t):
        return vec_elem(t)
    if t["k"] == "str":
        return u8ty()
    if t.get("box"):
        return elemty(tinfo(t["a"][0]))
    return t.get("e", -1)


def boundary(eng, st, s, i, n):
    """literal: byte offset i is a char boundary"""
    if i == 0 or i == n:
        return 1
    full = seq_slice(eng.read(st, s.a[0], s.a[1]), s.a[2], s.a[3], st.facts)
    if isinstance(i, int) and const_bytes(full) is not None:
        return int(i >= len(const_bytes(full)) or (const_bytes(full)[i] & 0xC0) != 0x80)
    if st.facts.ent(eqi(i, n)):
        return 1
    if st.facts.ent(lt(0, i)):
        prev = seq_at(full, sub(i, 1), u8ty(), st.facts)
        if st.facts.ent(lt(prev, 128)):
            return 1
    return mk("pred", "charb", full, i)


@prim("std::ops::Index::index", "std::ops::IndexMut::index_mut", "core::str::traits::index", "core::slice::index::index")
def p_index(eng, st, a, cal, at, dt):
    src = tinfo(at[0])
    src = pointee(src)
    isstr = src["k"] == "str" or src.get("def") == "std::string::String"
    if not (isstr or is_vec(src) or src["k"] in ("slice", "array")):
        return None
    s = as_slice(eng, st, a[0])
    n = s.a[3]
    ity = at[1]
    if tinfo(ity)["k"] == "int":
        i = a[1]
        return guard(st, lt(i, n), "index out of bounds", lambda x: ret(x, mk("ref", s.a[0], s.a[1] + (pi(add(s.a[2], i), elemty(src)),))))
    lo, hi = rangespec(eng, a[1], ity, n)

    def k(x):
        return ret(x, mk("sref", s.a[0], s.a[1], add(s.a[2], lo), sub(hi, lo)))

    def k1(x):
        if isstr:
            return guard(x, boundary(eng, x, s, lo, n), "char boundary", lambda y: guard(y, boundary(eng, y, s, hi, n), "char boundary", k))
        return k(x)
    return guard(st, le(lo, hi), "slice index order", lambda x: guard(x, le(hi, n), "slice index out of range", k1))


@prim("core::slice::get", "core::slice::get_mut", "core::str::get", "std::vec::Vec::get")
def p_get(eng, st, a, cal, at, dt):
    src = pointee(tinfo(at[0]))
    isstr = src["k"] == "str"
    s = as_slice(eng, st, a[0])
    n = s.a[3]
    if tinfo(at[1])["k"] == "int":
        i = a[1]
        return fork2(st, lt(i, n), lambda x: ret(x, some(mk("ref", s.a[0], s.a[1] + (pi(add(s.a[2], i), elemty(src)),)))), lambda x: ret(x, NONE))
    lo, hi = rangespec(eng, a[1], at[1], n)
    no = lambda x: ret(x, NONE)
    k = lambda x: ret(x, some(mk("sref", s.a[0], s.a[1], add(s.a[2], lo), sub(hi, lo))))
    k1 = k if not isstr else (lambda x: fork2(x, boundary(eng, x, s, lo, n), lambda y: fork2(y, boundary(eng, y, s, hi, n), k, no), no))
    return fork2(st, le(lo, hi), lambda x: fork2(x, le(hi, n), k1, no), no)


@prim("core::slice::first", "core::slice::last")
def p_first(eng, st, a, cal, at, dt):
    s = as_slice(eng, st, a[0])
    n = s.a[3]
    i = 0 if cal["def"].endswith("first") else sub(n, 1)
    ety = pointee(tinfo(at[0])).get("e", -1)
    return fork2(st, lt(0, n), lambda x: ret(x, some(mk("ref", s.a[0], s.a[1] + (pi(add(s.a[2], i), ety),)))), lambda x: ret(x, NONE))


@prim("core::slice::split_first", "core::slice::split_last")
def p_splitfirst(eng, st, a, cal, at, dt):
    s = as_slice(eng, st, a[0])
    n = s.a[3]
    ety = pointee(tinfo(at[0])).get("e", -1)

    def yes(x):
        if cal["def"].endswith("first"):
            return ret(x, some(agg(0, mk("ref", s.a[0], s.a[1] + (pi(s.a[2], ety),)), mk("sref", s.a[0], s.a[1], add(s.a[2], 1), sub(n, 1)))))
        return ret(x, some(agg(0, mk("ref", s.a[0], s.a[1] + (pi(add(s.a[2], sub(n, 1)), ety),)), mk("sref", s.a[0], s.a[1], s.a[2], sub(n, 1)))))
    return fork2(st, lt(0, n), yes, lambda x: ret(x, NONE))


@prim("core::slice::split_at", "core::str::split_at", "core::slice::split_at_mut", "core::slice::split_at_unchecked", "core::slice::split_at_mut_unchecked")
def p_splitat(eng, st, a, cal, at, dt):
    s = as_slice(eng, st, a[0])
    n, i = s.a[3], a[1]

    def k(x):
        return ret(x, agg(0, mk("sref", s.a[0], s.a[1], s.a[2], i), mk("sref", s.a[0], s.a[1], add(s.a[2], i), sub(n, i))))
    k1 = k
    if "str" in cal["def"].split("::")[1]:
        k1 = lambda x: guard(x, boundary(eng, x, s, i, n), "char boundary", k)
    return guard(st, le(i, n), "split_at", k1)


@prim("core::slice::split_at_checked", "core::str::split_at_checked")
def p_splitatc(eng, st, a, cal, at, dt):
    s = as_slice(eng, st, a[0])
    n, i = s.a[3], a[1]
    k = lambda x: ret(x, some(agg(0, mk("sref", s.a[0], s.a[1], s.a[2], i), mk("sref", s.a[0], s.a[1], add(s.a[2], i), sub(n, i)))))
    no = lambda x: ret(x, NONE)
    if "str" in cal["def"].split("::")[1]:
        k0 = k
        k = lambda x: fork2(x, boundary(eng, x, s, i, n), k0, no)
    return fork2(st, le(i, n), k, no)


@prim("core::slice::first_chunk", "core::slice::last_chunk", "core::slice::split_first_chunk")
def p_chunk(eng, st, a, cal, at, dt):
    s = as_slice(eng, st, a[0])
    n = s.a[3]
    ot = tinfo(tinfo(dt)["a"][0])
    d = cal["def"]
    if d.endswith("split_first_chunk"):
        m = pointee(tinfo(ot["f"][0]))["n"]
    else:
        m = pointee(ot)["n"]

    def yes(x):
        root = eng.newroot()
        x = x.fork()
        o = s.a[2] if "first" in d else add(s.a[2], sub(n, m))
        x.mem[root] = seq_slice(eng.read(x, s.a[0], s.a[1]), o, m, x.facts)
        r = mk("ref", root, ())
        if d.endswith("split_first_chunk"):
            return ret(x, some(agg(0, r, mk("sref", s.a[0], s.a[1], add(s.a[2], m), sub(n, m)))))
        return ret(x, some(r))
    return fork2(st, le(m, n), yes, lambda x: ret(x, NONE))


@prim("core::slice::concat", "std::slice::concat", "std::slice::Concat::concat", "<[V] as std::slice::Concat<T>>::concat", "<[S] as std::slice::Concat<str>>::concat")
def p_concat(eng, st, a, cal, at, dt):
    s = content(eng, st, a[0])
    depth = [0]

    def one(v):
        if isT(v) and v.op in ("sref", "ref"):
            return content(eng, st, v)
        if isT(v) and v.op == "vec":
            return v.a[0]
        if isT(v) and v.op == "seq":
            return v
        raise Lim("concat element")

    def flat(s):
        out = []
        for g in s.a:
            if g.op == "e":
                out += list(one(g.a[0]).a)
            elif g.op in ("sub", "rep") and seg_len(g) is not None:
                if g.op == "rep" and seq_len(g.a[1]) != 1:
                    k = mk("k", "cc%d" % depth[0])
                    depth[0] += 1
                    out.append(bind_rep(g.a[0], flat(inst(g.a[1], g.a[2], k)), k))
                    continue
                ety = g.a[0].a[0] if g.op == "sub" and g.a[0].op == "S" else -1
                k = mk("k", "cc%d" % depth[0])
                depth[0] += 1
                body = seq_at(mk("seq", g), k, ety)
                out.append(bind_rep(g.a[0] if g.op == "rep" else g.a[2], one(body), k))
            elif g.op == "cs":
                out.append(mkcs([(x[0], flat(x[1])) for x in g.a]))
            else:
                raise Lim("concat " + g.op)
        return mkseq(out)
    return ret(st, mk("vec", flat(s)))


@prim("core::slice::contains")
def p_contains(eng, st, a, cal, at, dt):
    s = content(eng, st, a[0])
    v = eng.deep(st, a[1])
    cs = const_bytes(s)
    if cs is not None and isinstance(v, int):
        return ret(st, int(v in cs))
    if cs is not None and len(cs) <= 8 and not isinstance(v, int) and rng(v):
        return ret(st, disj([eqi(v, x) for x in sorted(set(cs))]))
    if all(g.op == "e" for g in s.a) and len(s.a) <= 8:
        return ret(st, disj([eqv(v, eng.deep(st, g.a[0])) for g in s.a]))
    return ret(st, mk("pred", "contains", s, v))


def conj(ls):
    out = []
    for l in ls:
        if l == 0:
            return 0
        if l == 1:
            continue
        if l not in out:
            out.append(l)
    if not out:
        return 1
    if len(out) == 1:
        return out[0]
    return mk("pred", "and", *sorted(out, key=lambda t: t.id))


def disj(ls):
    return neg(conj([neg(l) for l in ls]))


@prim("core::slice::starts_with", "core::slice::ends_with")
def p_sstarts(eng, st, a, cal, at, dt):
    s, n = content(eng, st, a[0]), content(eng, st, a[1])
    return prefix_test(eng, st, s, n, cal["def"].endswith("ends_with"))


@prim("std::intrinsics::compare_bytes", "core::intrinsics::compare_bytes")
def p_cmpbytes(eng, st, a, cal, at, dt):
    x, y = (seq_slice(content(eng, st, v), 0, a[2], st.facts) for v in a[:2])

    def differ(s):
        out = []
        for o in eng.opaque_call(s, "bytecmp", [x, y], at[:2], dt):
            t = o.st.with_(neg(eqi(o.val, 0)))
            if t is not None:
                out += ret(t, o.val)
        return out
    return fork2(st, eqv(x, y), lambda s: ret(s, 0), differ)


def prefix_test(eng, st, s, n, end):
    ls, ln = seq_len(s), seq_len(n)

    def yes(x):
        w = seq_slice(s, sub(ls, ln) if end else 0, ln, x.facts)
        return ret(x, eqv(w, n))
    return fork2(st, le(ln, ls), yes, lambda x: ret(x, 0))


def char_list(eng, st, v, pt):
    """the ASCII characters of a char array or slice pattern; None: not constant"""
    try:
        q = content(eng, st, v) if pt["k"] == "ref" else T.whole(v)
    except Exception:
        return None
    out = []
    for g in q.a:
        if g.op != "c" and not (g.op == "e" and isinstance(g.a[0], int)):
            return None
        out += list(g.a)
    return out if all(isinstance(x, int) and x < 128 for x in out) else None


@prim("core::str::starts_with", "core::str::ends_with", "core::str::strip_prefix", "core::str::contains")
def p_starts(eng, st, a, cal, at, dt):
    s = as_slice(eng, st, a[0])
    c = content(eng, st, a[0])
    d = cal["def"].split("::")[-1]
    pt = tinfo(at[1])
    if pt["k"] == "char" and isinstance(a[1], int):
        n = mkseq([mk("c", *chr(a[1]).encode())])
    elif pt["k"] == "char" and st.facts.ent(lt(a[1], 128)):
        n = mkseq([elem(a[1])])
    elif pt["k"] == "ref" and pointee(pt)["k"] in ("str", "ref") or pointee(pt).get("def") == "std::string::String":
        n = content(eng, st, a[1])
    else:
        cs = char_list(eng, st, a[1], pt)
        if cs is None or d not in ("starts_with", "ends_with"):
            raise Lim("pattern")
        n1 = seq_len(c)
        return fork2(st, eqi(n1, 0), lambda x: ret(x, 0),
                     lambda x: ret(x, disj([eqi(seq_at(c, 0 if d == "starts_with" else sub(n1, 1), ty_by_name("u8")), k) for k in cs])))
    if d == "contains":
        return ret(st, mk("pred", "strcontains", c, n))
    if d == "strip_prefix":
        ls, ln = s.a[3], seq_len(n)

        def yes(x):
            return fork2(x, eqv(seq_slice(c, 0, ln, x.facts), n),
                         lambda y: ret(y, some(mk("sref", s.a[0], s.a[1], add(s.a[2], ln), sub(ls, ln)))), lambda y: ret(y, NONE))
        return fork2(st, le(ln, ls), yes, lambda x: ret(x, NONE))
    return prefix_test(eng, st, c, n, d == "ends_with")


def one_char(eng, st, v, ti):
    """an ASCII character given as a char or a one-character text"""
    if ti["k"] == "char" and isinstance(v, int) and v < 128:
        return v
    if ti["k"] == "ref" and pointee(ti)["k"] == "str":
        b = content(eng, st, v).a
        if len(b) == 1 and b[0].op == "c" and len(b[0].a) == 1 and b[0].a[0] < 128:
            return b[0].a[0]
    raise Lim("pattern")


@prim("core::str::find", "core::str::split_once", "std::str::replace")
def p_find(eng, st, a, cal, at, dt):
    """known for texts that start with the character and for texts without it"""
    d = cal["def"].split("::")[-1]
    k = one_char(eng, st, a[1], tinfo(at[1]))
    sr = as_slice(eng, st, a[0])
    c = content(eng, st, a[0])
    n = seq_len(c)

    def absent(x):
        return ret(x, mk("vec", c) if d == "replace" else NONE)

    def front(x):
        if d == "find":
            return ret(x, some(0))
        if d == "split_once":
            return ret(x, some(mk("agg", 0, mk("sref", sr.a[0], sr.a[1], sr.a[2], 0), mk("sref", sr.a[0], sr.a[1], add(sr.a[2], 1), sub(n, 1)))))
        return fork2(x, eqi(n, 1), lambda y: ret(y, mk("vec", content(eng, y, a[2]))), lambda y: eng.opaque_call(y, "lim:" + cal["def"], a, at, dt))

    def some_byte(x):
        return fork2(x, eqi(seq_at(c, 0, ty_by_name("u8"), x.facts), k), front,
                     lambda y: fork2(y, mk("pred", "strcontains", c, mkseq([mk("c", k)])), lambda z: eng.opaque_call(z, "lim:" + cal["def"], a, at, dt), absent))
    return fork2(st, eqi(n, 0), absent, some_byte)


WS = (32, 9, 10, 11, 12, 13)


@prim("core::str::trim", "core::str::trim_start", "core::str::trim_end", "core::str::trim_matches", "core::str::trim_start_matches", "core::str::trim_end_matches")
def p_trim(eng, st, a, cal, at, dt):
    """a text whose ends are ASCII and not trimmed is returned as it is; when an end is
    trimmed the result is some strictly shorter text"""
    d = cal["def"].split("::")[-1]
    cs = list(WS)
    if d.endswith("matches"):
        pt = tinfo(at[1])
        if pt["k"] == "char" and isinstance(a[1], int) and a[1] < 128:
            cs = [a[1]]
        else:
            cs = char_list(eng, st, a[1], pt) if pt["k"] in ("array", "ref", "slice") else None
            if pt["k"] == "ref" and pointee(pt)["k"] == "str" and cs is not None and len(cs) != 1:
                cs = None
        if not cs and pt["k"] == "ref" and pointee(pt)["k"] == "str":
            # a text equal to the pattern is trimmed away
            p = content(eng, st, a[1])
            if not st.facts.ent(le(1, seq_len(p))):
                raise Lim("trim pattern")
            return fork2(st, eqv(content(eng, st, a[0]), p), lambda s: ret(s, mk("sref", ("C", mkseq([])), (), 0, 0)),
                         lambda s: eng.opaque_call(s, "lim:" + cal["def"], a, at, dt))
        if not cs:
            raise Lim("trim pattern")
    sr = as_slice(eng, st, a[0])
    c = content(eng, st, a[0])
    n = seq_len(c)
    u8 = ty_by_name("u8")
    ends = [e for e, k in ((0, "start"), (1, "end")) if k in d or not ("start" in d or "end" in d)]

    def cut(x):
        q = whole(mk("fmt", d + ",".join(map(str, cs)), c))
        y = x.with_(lt(seq_len(q), n))
        return ret(y, mk("sref", ("C", q), (), 0, seq_len(q))) if y else []

    def go(x, k):
        if k == len(ends):
            return ret(x, sr)
        b = seq_at(c, 0 if ends[k] == 0 else sub(n, 1), u8, x.facts)

        def keep(y):
            if "matches" in d or y.facts.ent(lt(b, 128)):
                return go(y, k + 1)

            def high(z):
                return eng.opaque_call(z, "lim:core::str::trim", a, at, dt)
            return fork2(y, lt(b, 128), lambda z: go(z, k + 1), high)
        return fork2(x, disj([eqi(b, v) for v in cs]), cut, keep)
    return fork2(st, eqi(n, 0), lambda x: ret(x, sr), lambda x: go(x, 0))


def all_lit(n, f):
    """the fact that f(k) holds for every k < n"""
    v = mk("k", "al")
    l = f(v)
    return bind_all(n, l, v)


def bind_all(n, l, v):
    if isinstance(l, int):
        if l == 1:
            return 1
        return eqi(n, 0)
    if not occurs(l, v):
        return disj([l, le(n, 0)])
    if n == 0:
        return 1
    if n == 1:
        return subst(l, {v: 0})
    if l.op == "le":
        # linear in the bound variable: the extreme instance implies the others
        c, d = T.lin(l.a[0])
        w = d.get(v, 0)
        if w and not any(occurs(x, v) for x in d if x is not v):
            if isinstance(n, int):
                return subst(l, {v: n - 1 if w > 0 else 0})
            if w > 0 and subst(l, {v: -1}) == 1:
                return subst(l, {v: sub(n, 1)})
    if isT(n) and n.op == "len" and T.is_chars(n.a[0]) and l is le(mk("at", ty_by_name("char"), n.a[0], v), 127):
        # all characters ASCII <=> all bytes ASCII
        return ascii_lit(n.a[0].a[1].a[2])
    h = height(l) + 1
    return mk("all", n, subst(l, {v: mk("bv", h)}), h)


@prim("core::str::is_ascii", "core::slice::ascii::is_ascii", "core::slice::is_ascii")
def p_isascii(eng, st, a, cal, at, dt):
    return ret(st, ascii_lit(content(eng, st, a[0])))


def ascii_lit(s):
    ls = []
    for g in s.a:
        if g.op == "c":
            if any(x > 127 for x in g.a):
                return 0
        elif g.op in ("sub", "rep"):
            ls.append(all_lit(seg_len(g), lambda k: le(seq_at(mk("seq", g), k, u8ty()), 127)))
        elif g.op in ("e", "fill"):
            ls.append(le(g.a[0], 127))
        else:
            raise Lim("ascii")
    return conj(ls)


@prim("core::num::is_ascii")
def p_isasciib(eng, st, a, cal, at, dt):
    return ret(st, le(eng.deep(st, a[0]), 127))


@prim("core::char::methods::is_ascii")
def p_isasciic(eng, st, a, cal, at, dt):
    return ret(st, le(eng.deep(st, a[0]), 127))


# ---------------------------------------------------------------- strings
@prim("std::string::String::from_utf8", "std::str::from_utf8", "core::str::converts::from_utf8")
def p_fromutf8(eng, st, a, cal, at, dt):
    own = a[0].op == "vec"
    s = a[0].a[0] if own else content(eng, st, a[0])
    ety = tinfo(dt)["a"][1]
    good = a[0] if own else as_slice(eng, st, a[0])
    if const_bytes(s) is not None:
        try:
            bytes(const_bytes(s)).decode()
            return ret(st, ok(good))
        except Exception:
            pass
    l = mk("pred", "utf8", s)
    if utf8_known(st, s):
        l = 1
    return fork2(st, l, lambda x: ret(x, ok(good)), lambda x: ret(x, err(mat(mk("call", ety, "utf8err", s)))))


def utf8_known(st, s):
    """every segment is text by construction: ASCII, or a whole string"""
    for g in s.a:
        if g.op == "sub" and g.a[1] == 0 and g.a[2] == qlen(g.a[0]):
            q = g.a[0]
            if q.op == "fmt" or q.op == "S" and tinfo(tyof(q.a[1])).get("k") == "str":
                continue
            if q.op == "S" and tinfo(tyof(q.a[1])).get("def") == "std::string::String":
                continue
        if not is_ascii_known(st, mk("seq", g)):
            return False
    return True


def is_ascii_known(st, s):
    for g in s.a:
        if g.op == "c" and all(x < 128 for x in g.a):
            continue
        if g.op in ("e", "be", "sub") and seg_len(g) == 1:
            v = seq_at(mk("seq", g), 0, u8ty())
            if not isT(v) or T.intlike_term(v) and st.facts.ent(le(v, 127)):
                continue
        if g.op == "sub" and isT(g.a[0]) and T.input_text(g.a[0]):
            continue
        if g.op == "fill" and (st.facts.ent(le(g.a[0], 127)) if isT(g.a[0]) else 0 <= g.a[0] < 128):
            continue
        if g.op in ("sub", "rep"):
            l = all_lit(seg_len(g), lambda k: le(seq_at(mk("seq", g), k, u8ty()), 127))
            if st.facts.ent(l):
                continue
        return False
    return True


@prim("std::string::String::from_utf8_lossy")
def p_lossy(eng, st, a, cal, at, dt):
    s = content(eng, st, a[0])
    sty = tinfo(tinfo(dt)["v"][1]["f"][0][1])
    if sty.get("def") != "std::string::String":
        raise Lim("lossy")
    l = 1 if utf8_known(st, s) else mk("pred", "utf8", s)
    oty = tinfo(dt)["v"][1]["f"][0][1]
    return fork2(st, l, lambda x: ret(x, agg(0, as_slice(eng, x, a[0]))),
                 lambda x: ret(x, agg(1, mat(mk("call", oty, "lossy", s)))))


@prim("std::string::ToString::to_string", "<T as std::string::ToString>::to_string", "<T as std::string::SpecToString>::spec_to_string")
def p_tostring(eng, st, a, cal, at, dt):
    ty = pointee(tinfo(at[0]))
    tid = tinfo(at[0])["e"]
    while ty["k"] == "ref" and not ty["k"] == "str":
        tid = ty["e"]
        ty = tinfo(tid)
        a = [eng.read(st, a[0].a[0], a[0].a[1])]
    if ty["k"] == "str" or ty.get("def") == "std::string::String":
        return ret(st, mk("vec", content(eng, st, a[0])))
    fid = find_display(eng, cal, tid)
    root = eng.newroot()
    st = st.fork()
    st.mem[root] = mk("vec", EMPTY)
    res = []
    for o in fmt_one(eng, st, "Display", fid, a[0], tid, None, mk("ref", root, ())):
        if o.kind != "ret":
            res.append(o)
            continue
        if o.val is FMTERR:
            res.append(panic(o.st, "to_string fmt error"))
            continue
        v = o.st.mem[root]
        s = o.st.fork()
        del s.mem[root]
        res.append(Out("ret", s, v))
    return res


def find_display(eng, cal, tid, trait="std::fmt::Display::fmt"):
    i = cal.get("i")
    seen = set()
    work = [i] if i is not None else []
    while work:
        i = work.pop()
        if i in seen or len(seen) > 40:
            continue
        seen.add(i)
        f = eng.fns[i]
        for b in f.get("bbs", []):
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                if c.get("def") == trait and c.get("a") and c["a"][0] == tid:
                    return c.get("i")
                if c.get("i") is not None and eng.fns[c["i"]].get("crate") in ("alloc", "core", "std"):
                    work.append(c["i"])
            for s in b["s"]:
                fp = find_fnp(s)
                if fp is not None:
                    return fp
    return None


def find_fnp(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "fn" and isinstance(x[1], dict):
            return x[1].get("i")
        if len(x) == 2 and x[0] == "fnp":
            return x[1]
        for y in x:
            r = find_fnp(y)
            if r is not None:
                return r
    return None


FMTERR = err(UNIT)
FMTOK = ok(UNIT)


def sink_of(eng, st, w):
    """the ref to the String a formatter finally writes to"""
    for _ in range(8):
        if w.op == "dref":
            w = mk("ref", w.a[1], w.a[2])
        if w.op == "ref":
            c = eng.read(st, w.a[0], w.a[1])
            if c.op == "vec":
                return w
            if c.op == "fmtr":
                w = c.a[0]
                continue
            if c.op in ("ref", "dref"):
                w = c
                continue
        break
    raise Lim("sink")


def append_sink(eng, st, w, s):
    w = sink_of(eng, st, w)
    r, p, old = vecloc(eng, st, w)
    return setvec(eng, st, w, cat(old, s))


def fmt_one(eng, st, kind, fid, ref, tid, spec, w):
    """append the formatted value; w is a ref to the sink (String / formatter)"""
    ti = tinfo(tid)
    v = ref
    while ti["k"] == "ref":
        v = eng.read(st, v.a[0], v.a[1])
        tid = ti["e"]
        ti = tinfo(tid)
        fid = inner_fmt(eng, fid) if fid is not None and not crate_fn(eng, fid) else fid
    if kind == "Display" and spec is None and (ti["k"] == "str" or ti.get("def") == "std::string::String"):
        return ret(append_sink(eng, st, w, content(eng, st, v)), FMTOK)
    if ti.get("box") and kind == "Display" and not (fid is not None and crate_fn(eng, fid)):
        inner = ti["a"][0]
        nv = mk("ref", v.a[0], v.a[1] + (PB,)) if v.op == "ref" else v
        return fmt_one(eng, st, kind, inner_fmt(eng, fid), nv, inner, spec, w)
    if ti.get("def") == "std::borrow::Cow" and kind == "Display" and spec is None and "str" in ti["s"]:
        c = eng.deep(st, v)
        if not isT(c) or c.op != "agg":
            raise Lim("fmt cow")
        c = c.a[1]
        while isT(c) and c.op == "agg" and len(c.a) == 2:
            c = c.a[1]
        if not isT(c) or c.op not in ("vec", "seq", "slc"):
            raise Lim("fmt cow")
        return ret(append_sink(eng, st, w, c if c.op == "seq" else c.a[0] if c.op == "vec" else content(eng, st, c)), FMTOK)
    if ti["k"] == "bool" and kind in ("Display", "Debug") and spec is None:
        c = eng.deep(st, v)
        word = lambda x, t: ret(append_sink(eng, x, w, mkseq([mk("c", *t)])), FMTOK)
        if isinstance(c, int):
            return word(st, b"true" if c else b"false")
        return fork2(st, c if c.op in ("le", "eq", "not", "isv", "eqv", "dynis", "pred", "all") else eqi(c, 1), lambda x: word(x, b"true"), lambda x: word(x, b"false"))
    if ti["k"] == "char" and kind == "Display" and spec is None:
        c = eng.deep(st, v)
        if isinstance(c, int):
            return ret(append_sink(eng, st, w, mkseq([mk("c", *chr(c).encode())])), FMTOK)
        if ascii_char(st.facts, c):
            return ret(append_sink(eng, st, w, mkseq([elem(c)])), FMTOK)
        return ret(append_sink(eng, st, w, whole(mk("fmt", "char", c))), FMTOK)
    if ti["k"] == "int" and kind == "Display" and spec is None:
        c = eng.deep(st, v)
        if isinstance(c, int):
            return ret(append_sink(eng, st, w, mkseq([mk("c", *str(c).encode())])), FMTOK)
        return ret(append_sink(eng, st, w, whole(mk("fmt", "dec", c))), FMTOK)
    if kind in ("Display", "LowerHex") and fid is not None and crate_fn(eng, fid) and spec is None:
        root = eng.newroot()
        st = st.fork()
        st.mem[root] = mk("fmtr", w)
        f = eng.fns[fid]
        rs = eng.apply_id(st, fid, [v, mk("ref", root, ())], [f["locals"][1], f["locals"][2]], f["locals"][0]) if "bbs" in f else None
        if rs is None:
            raise Lim("fmt body")
        return rs
    if ti["k"] == "dyn" and kind in ("Display", "Debug"):
        c = eng.read(st, v.a[0], v.a[1]) if v.op == "ref" else None
        if v.op == "dref" or (c is not None and c.op == "dynv"):
            raise Lim("fmt dyn")
        return ret(append_sink(eng, st, w, whole(mk("fmt", kind, eng.reify(st, v)))), FMTOK)
    x = eng.reify(st, v)
    if isinstance(x, int) and ti["k"] == "int" and kind == "LowerHex" and spec is not None:
        width, flags = spec[1], spec[0]
        s = "%x" % x
        if width:
            s = s.rjust(width, "0" if flags and flags & (1 << 24) else " ")
        return ret(append_sink(eng, st, w, mkseq([mk("c", *s.encode())])), FMTOK)
    q = mk("fmt", kind + ("" if spec is None else ":%s:%s:%s" % spec), x)
    if kind in ("LowerHex", "UpperHex") and spec is not None and spec[1] == 2 and ti["s"] == "u8" and spec[0] and (spec[0] & (1 << 24) or spec[0] & 0x1fffff == 48 and spec[0] >> 29 & 3 in (1, 3)):
        tb = mk("seq", mk("c", *(b"0123456789abcdef" if kind == "LowerHex" else b"0123456789ABCDEF")))
        d = [seq_at(tb, binop(o, x, 16, u8ty()), u8ty()) for o in ("Div", "Rem")]
        return ret(append_sink(eng, st, w, mkseq([mk("e", y) for y in d])), FMTOK)
    if ti["k"] not in ("int", "char", "bool", "str") and not (ti.get("def", "").startswith("std::")) and kind != "Debug":
        eng.note("opaque fmt %s" % ti["s"])
        q = mk("call", -1, "lim:fmt", kind, x)
    return ret(append_sink(eng, st, w, whole(q)), FMTOK)


def crate_fn(eng, fid):
    return eng.fns[fid].get("crate") in ("stacks_rs", "sharness")


def inner_fmt(eng, fid):
    if fid is None:
        return None
    for b in eng.fns[fid].get("bbs", []):
        t = b["t"]
        if t[0] == "call" and t[1].get("def", "").endswith("::fmt"):
            return t[1].get("i")
    return None


@prim("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
      "core::fmt::rt::Argument::new_upper_hex", "core::fmt::rt::Argument::new_binary", "core::fmt::rt::Argument::new_octal",
      "core::fmt::rt::Argument::new_lower_exp", "core::fmt::rt::Argument::new_upper_exp")
def p_argnew(eng, st, a, cal, at, dt):
    k = {"new_display": "Display", "new_debug": "Debug", "new_lower_hex": "LowerHex", "new_upper_hex": "UpperHex", "new_binary": "Binary",
         "new_octal": "Octal", "new_lower_exp": "LowerExp", "new_upper_exp": "UpperExp"}[cal["def"].split("::")[-1]]
    tid = tinfo(at[0])["e"]
    fid = None
    for b in eng.fns[cal["i"]].get("bbs", []):
        for s in b["s"]:
            fid = fid if fid is not None else find_fnp(s)
        for o in (b["t"][2] if b["t"][0] == "call" else []):
            fid = fid if fid is not None else find_fnp(o)
    if fid is None:
        fid = fnp_from_types(eng, cal, tid)
    return ret(st, mk("fmtarg", k, fid if fid is not None else -1, a[0], tid))


def fnp_from_types(eng, cal, tid):
    return None


@prim("core::fmt::rt::Argument::from_usize")
def p_argusize(eng, st, a, cal, at, dt):
    return ret(st, mk("fmtarg", "usize", -1, a[0], -1))


@prim("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const", "std::fmt::Arguments::from_str_nonconst")
def p_argstr(eng, st, a, cal, at, dt):
    return ret(st, mk("fmtargs", content(eng, st, a[0]), None))


@prim("std::fmt::Arguments::new")
def p_args(eng, st, a, cal, at, dt):
    t = content(eng, st, a[0])
    args = content(eng, st, a[1])
    b = const_bytes(t)
    if b is None or not all(g.op == "e" for g in args.a):
        raise Lim("fmt template")
    return ret(st, mk("fmtargs", t, tuple(g.a[0] for g in args.a)))


def run_args(eng, st, fa, w):
    """-> outcomes (Ok/Err(fmt::Error)) of writing Arguments fa to sink ref w"""
    if isT(fa) and fa.op == "ref":
        fa = eng.read(st, fa.a[0], fa.a[1])
    if fa.op != "fmtargs":
        raise Lim("arguments")
    t, args = fa.a
    if args is None:
        return ret(append_sink(eng, st, w, t), FMTOK)
    b = const_bytes(t)
    i = 0
    nxt = 0
    cur = [st]
    done = []
    while i < len(b) and b[i] != 0:
        x = b[i]
        i += 1
        if x < 0x80:
            lit = b[i:i + x]
            i += x
            cur = [append_sink(eng, s, w, mkseq([mk("c", *lit)])) for s in cur]
            continue
        if x == 0x80:
            n = b[i] | b[i + 1] << 8
            lit = b[i + 2:i + 2 + n]
            i += 2 + n
            cur = [append_sink(eng, s, w, mkseq([mk("c", *lit)])) for s in cur]
            continue
        flags = width = prec = None
        if x & 1:
            flags = int.from_bytes(bytes(b[i:i + 4]), "little")
            i += 4
        if x & 2:
            width = b[i] | b[i + 1] << 8
            i += 2
        if x & 4:
            prec = b[i] | b[i + 1] << 8
            i += 2
        if x & 8:
            nxt = b[i] | b[i + 1] << 8
            i += 2
        if x & 0x30:
            raise Lim("indirect width")
        arg = args[nxt]
        nxt += 1
        spec = None if (flags is None and width is None and prec is None) else (flags, width, prec)
        new = []
        for s in cur:
            for o in fmt_one(eng, s, arg.a[0], arg.a[1] if isinstance(arg.a[1], int) and arg.a[1] >= 0 else None, arg.a[2], arg.a[3], spec, w):
                if o.kind != "ret":
                    done.append(o)
                elif o.val is FMTOK or (isT(o.val) and o.val.op == "agg" and o.val.a[0] == 0):
                    new.append(o.st)
                elif isT(o.val) and o.val.op == "agg":
                    done.append(o)
                else:
                    # result of an opaque formatter: assume it may fail
                    new.append(o.st)
        cur = new
    return done + [Out("ret", s, FMTOK) for s in cur]


@prim("std::fmt::format", "std::fmt::format::format_inner")
def p_format(eng, st, a, cal, at, dt):
    root = eng.newroot()
    st = st.fork()
    st.mem[root] = mk("vec", EMPTY)
    res = []
    for o in run_args(eng, st, a[0], mk("ref", root, ())):
        if o.kind != "ret":
            res.append(o)
        elif o.val is FMTOK:
            v = o.st.mem[root]
            s = o.st.fork()
            del s.mem[root]
            res.append(Out("ret", s, v))
        else:
            res.append(panic(o.st, "format! error"))
    return res


@prim("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def p_writefmt(eng, st, a, cal, at, dt):
    return run_args(eng, st, a[1], a[0])


@prim("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str", "<std::string::String as std::fmt::Write>::write_str")
def p_writestr(eng, st, a, cal, at, dt):
    return ret(append_sink(eng, st, a[0], content(eng, st, a[1])), FMTOK)


@prim("std::fmt::Formatter::write_char", "std::fmt::Write::write_char")
def p_writechar(eng, st, a, cal, at, dt):
    if isinstance(a[1], int):
        return ret(append_sink(eng, st, a[0], mkseq([mk("c", *chr(a[1]).encode())])), FMTOK)
    raise Lim("write_char")


@prim("std::fmt::Display::fmt", "std::fmt::LowerHex::fmt", "std::fmt::Debug::fmt")
def p_fmtcall(eng, st, a, cal, at, dt):
    i = cal.get("i")
    if i is not None and crate_fn(eng, i):
        return None
    kind = cal["def"].split("::")[-2]
    tid = tinfo(at[0])["e"]
    return fmt_one(eng, st, kind, i, a[0], tid, None, a[1])


# ---------------------------------------------------------------- equality / clone / mem
def plain_eq(ty, d=0):
    """is == on this type structural equality of the value terms?"""
    ti = tinfo(ty)
    k = ti["k"]
    if d > 8:
        return False
    if k in ("int", "bool", "char", "str"):
        return True
    if k in ("ref", "slice", "array"):
        return plain_eq(ti["e"], d + 1)
    if k == "tuple":
        return all(plain_eq(x, d + 1) for x in ti["f"])
    if k == "adt":
        if is_vec(ti):
            return plain_eq(vec_elem(ti), d + 1)
        if ti["def"] in ("std::option::Option", "std::result::Result"):
            return all(plain_eq(f[1], d + 1) for v in ti["v"] for f in v["f"])
        if ti.get("box"):
            return plain_eq(ti["a"][0], d + 1)
        if ti["def"].startswith("secp256k1"):
            return True
    return False


@prim("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def p_eq(eng, st, a, cal, at, dt):
    i = cal.get("i")
    if i is not None and crate_fn(eng, i):
        return None
    ta, tb = pointee(tinfo(at[0])), pointee(tinfo(at[1]))
    if not (plain_eq(tinfo(at[0])["e"]) and plain_eq(tinfo(at[1])["e"])):
        if cal.get("kind") == "virtual" or i is None:
            return None
        return None
    x, y = eng.deep(st, a[0]), eng.deep(st, a[1])
    if isT(x) and x.op == "vec":
        x = x.a[0]
    if isT(y) and y.op == "vec":
        y = y.a[0]
    r = eqv(eta(x), eta(y))
    if cal["def"].endswith("ne"):
        r = neg(r)
    return ret(st, r)


@prim("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def p_cmp(eng, st, a, cal, at, dt):
    if tinfo(at[0]).get("k") == "ref" and pointee(tinfo(at[0]))["k"] in ("int", "char"):
        x, y = eng.deep(st, a[0]), eng.deep(st, a[1])
        return ret(st, {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[cal["def"].split("::")[-1]])
    return None


@prim("std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max", "core::num::min", "core::num::max")
def p_minmax(eng, st, a, cal, at, dt):
    if tinfo(dt)["k"] != "int":
        return None
    mn = cal["def"].endswith("min")
    return fork2(st, le(a[0], a[1]), lambda x: ret(x, a[0] if mn else a[1]), lambda x: ret(x, a[1] if mn else a[0]))


@prim("std::clone::Clone::clone")
def p_clone(eng, st, a, cal, at, dt):
    ti = tinfo(dt)
    if ti["k"] in ("int", "bool", "char", "array", "ref"):
        return ret(st, eng.read(st, a[0].a[0], a[0].a[1]) if a[0].op == "ref" else a[0])
    i = cal.get("i")
    if i is not None and crate_fn(eng, i):
        return None
    if ti["k"] == "adt" and (is_vec(ti) or ti["def"].startswith(("secp256k1", "std::option", "std::slice", "std::ops", "std::iter", "std::str", "std::vec", "bip39", "bip32", "ring"))):
        if is_vec(ti) or ti["def"].startswith("secp256k1") or ti["def"].startswith("ring"):
            return ret(st, eng.read(st, a[0].a[0], a[0].a[1]))
        if ti["def"].startswith("std::option"):
            return None
        return ret(st, eng.read(st, a[0].a[0], a[0].a[1]))
    if ti.get("box"):
        v = eng.read(st, a[0].a[0], a[0].a[1])
        if v.op == "box" and isT(v.a[0]) and v.a[0].op not in ("dynv",):
            e = tinfo(ti["a"][0])
            if e["k"] in ("dyn", "str", "slice"):
                return None if crate_fn(eng, i) else ret(st, v)
    return None


@prim("std::mem::take")
def p_take(eng, st, a, cal, at, dt):
    ti = tinfo(dt)
    v = eng.read(st, a[0].a[0], a[0].a[1])
    if is_vec(ti):
        z = mk("vec", EMPTY)
    elif ti.get("def") == "std::option::Option":
        z = NONE
    elif ti["k"] in ("int", "bool"):
        z = 0
    else:
        raise Lim("take")
    st = st.fork()
    eng.write(st, a[0].a[0], a[0].a[1], z)
    return ret(st, v)


@prim("std::mem::replace", "std::ptr::replace#no")
def p_replace(eng, st, a, cal, at, dt):
    v = eng.read(st, a[0].a[0], a[0].a[1])
    st = st.fork()
    eng.write(st, a[0].a[0], a[0].a[1], a[1])
    return ret(st, v)


@prim("std::mem::swap")
def p_mswap(eng, st, a, cal, at, dt):
    x = eng.read(st, a[0].a[0], a[0].a[1])
    y = eng.read(st, a[1].a[0], a[1].a[1])
    st = st.fork()
    eng.write(st, a[0].a[0], a[0].a[1], y)
    eng.write(st, a[1].a[0], a[1].a[1], x)
    return ret(st, UNIT)


@prim("std::mem::size_of")
def p_sizeof(eng, st, a, cal, at, dt):
    ti = tinfo(ty0(cal))
    if ti["k"] == "int":
        return ret(st, ti["bits"] // 8)
    if ti["k"] == "array" and tinfo(ti["e"])["k"] == "int":
        return ret(st, ti["n"] * tinfo(ti["e"])["bits"] // 8)
    raise Lim("size_of")


# ---------------------------------------------------------------- integers
def int_ty(cal, at, dt):
    return tinfo(at[0])


@prim("core::num::to_be_bytes")
def p_tobe(eng, st, a, cal, at, dt):
    w = tinfo(at[0])["bits"] // 8
    return ret(st, be_seq(a[0], w))


@prim("core::num::to_le_bytes")
def p_tole(eng, st, a, cal, at, dt):
    w = tinfo(at[0])["bits"] // 8
    s = be_seq(a[0], w)
    vals = [seq_at(s, i, u8ty()) for i in range(w)]
    return ret(st, mkseq([elem(v) for v in reversed(vals)]))


@prim("core::num::from_be_bytes", "core::num::from_le_bytes")
def p_frombe(eng, st, a, cal, at, dt):
    w = tinfo(dt)["bits"] // 8
    vals = [seq_at(a[0], i, u8ty(), st.facts) for i in range(w)]
    if cal["def"].endswith("le_bytes"):
        vals = vals[::-1]
    return ret(st, be_int(vals, dt))


@prim("core::num::is_negative")
def p_isneg(eng, st, a, cal, at, dt):
    return ret(st, lt(a[0], 0))


@prim("core::num::checked_add", "core::num::checked_sub", "core::num::checked_mul")
def p_checked(eng, st, a, cal, at, dt):
    ty = at[0]
    op = cal["def"].split("_")[-1]
    v = add(a[0], a[1]) if op == "add" else sub(a[0], a[1]) if op == "sub" else mul(a[0], a[1])
    if v is None:
        raise Lim("checked_mul")
    lo, hi = ty_range(ty)
    no = lambda x: ret(x, NONE)
    return fork2(st, le(lo, v), lambda x: fork2(x, le(v, hi), lambda y: ret(y, some(v)), no), no)


@prim("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::wrapping_mul")
def p_wrapping(eng, st, a, cal, at, dt):
    return ret(st, binop({"add": "Add", "sub": "Sub", "mul": "Mul"}[cal["def"].split("_")[-1]], a[0], a[1], dt, st.facts))


@prim("core::num::saturating_sub", "core::num::saturating_add")
def p_sat(eng, st, a, cal, at, dt):
    lo, hi = ty_range(dt)
    if cal["def"].endswith("sub"):
        v = sub(a[0], a[1])
        return fork2(st, le(lo, v), lambda x: ret(x, v), lambda x: ret(x, lo))
    v = add(a[0], a[1])
    return fork2(st, le(v, hi), lambda x: ret(x, v), lambda x: ret(x, hi))


@prim("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def p_tryfrom(eng, st, a, cal, at, dt):
    src = tinfo(at[0])
    okt = tinfo(dt)["a"][0]
    ety = tinfo(dt)["a"][1]
    tt = tinfo(okt)
    if src["k"] == "int" and tt["k"] == "int":
        lo, hi = ty_range(okt)
        no = lambda x: ret(x, err(mat(mk("call", ety, "tryfromint", a[0]))))
        return fork2(st, le(lo, a[0]), lambda x: fork2(x, le(a[0], hi), lambda y: ret(y, ok(a[0])), no), no)
    if tt["k"] == "array" or (tt["k"] == "ref" and pointee(tt)["k"] == "array"):
        n = (tt if tt["k"] == "array" else pointee(tt))["n"]
        sv = a[0]
        if isT(sv) and sv.op == "vec":
            s, ln = sv.a[0], seq_len(sv.a[0])
            get = lambda x: s
            sl = None
        elif src["k"] == "ref":
            sl = as_slice(eng, st, sv)
            ln = sl.a[3]
            get = lambda x: seq_slice(eng.read(x, sl.a[0], sl.a[1]), sl.a[2], n, x.facts)
        else:
            return None

        def yes(x):
            c = get(x)
            if seq_len(c) != n:
                c = seq_slice(c, 0, n, x.facts)
            if tt["k"] == "array":
                return ret(x, ok(c))
            root = eng.newroot()
            x = x.fork()
            x.mem[root] = c
            return ret(x, ok(mk("ref", root, ())))

        def no(x):
            e = sv if (isT(sv) and sv.op == "vec") else mat(mk("call", ety, "tryfromslice", ln))
            return ret(x, err(e))
        return fork2(st, eqi(ln, n), yes, no)
    return None


@prim("std::convert::From::from", "std::convert::Into::into")
def p_from(eng, st, a, cal, at, dt):
    src, tt = tinfo(at[0]), tinfo(dt)
    if at[0] == dt:
        return ret(st, a[0])
    if src["k"] in ("int", "bool", "char") and tt["k"] in ("int", "char"):
        return ret(st, a[0])
    if tt["k"] == "adt" and tt["def"] == "std::string::String" and src["k"] == "ref" and pointee(src)["k"] == "str":
        return ret(st, mk("vec", content(eng, st, a[0])))
    if tt["k"] == "adt" and tt["def"] == "std::string::String" and src["k"] == "char":
        root = eng.newroot()
        x = st.fork()
        x.mem[root] = mk("vec", EMPTY)
        return [Out("ret", o.st, o.st.mem[root]) for o in p_spush(eng, x, [mk("ref", root, ()), a[0]], cal, at, dt)]
    if is_vec(tt) and src["k"] == "ref" and (pointee(src)["k"] in ("slice", "array", "str") or is_vec(pointee(src))):
        return ret(st, mk("vec", content(eng, st, a[0])))
    if is_vec(tt) and src["k"] == "array":
        return ret(st, mk("vec", a[0]))
    if is_vec(tt) and is_vec(src):
        return ret(st, a[0])
    if tt["k"] == "adt" and tt.get("box") and src["k"] == "ref" and pointee(src)["k"] in ("str", "slice"):
        return ret(st, mk("box", content(eng, st, a[0])))
    if tt.get("def") == "std::option::Option" and tt["a"][0] == at[0]:
        return ret(st, some(a[0]))
    if tt.get("box") and tt["a"][0] == at[0]:
        return ret(st, mk("box", a[0]))
    return None


@prim("core::char::methods::is_ascii_digit", "core::num::is_ascii_digit")
def p_isdig(eng, st, a, cal, at, dt):
    c = eng.deep(st, a[0])
    return ret(st, conj([le(48, c), le(c, 57)]))


@prim("core::char::methods::to_ascii_lowercase", "core::num::to_ascii_lowercase", "core::char::methods::to_ascii_uppercase", "core::num::to_ascii_uppercase")
def p_lower(eng, st, a, cal, at, dt):
    c = eng.deep(st, a[0])
    up = "upper" in cal["def"]
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
    if isinstance(c, int):
        return ret(st, c + d if lo <= c <= hi else c)
    no = lambda x: ret(x, c)
    return fork2(st, le(lo, c), lambda x: fork2(x, le(c, hi), lambda y: ret(y, add(c, d)), no), no)


# ---------------------------------------------------------------- iterators
# iter(kind, data..., lo, hi): kinds  ref(root,path,ety) | val(seq,ety) | chars(q) | bytes(seq)
def mkiter(kind, data, lo, hi):
    return mk("iter", kind, data, lo, hi)


def iter_get(eng, st, it, i):
    kind, data = it.a[0], it.a[1]
    if kind == "ref":
        return mk("ref", data[0], data[1] + (pi(i, data[2]),))
    if kind == "val":
        return seq_at(data[0], i, data[1], st.facts)
    raise Lim("iter kind")


def it_next(eng, st, ref, back=False):
    it = eng.read(st, ref.a[0], ref.a[1])
    if it.op != "iter":
        raise Lim("not an iter: %s" % it.op)
    lo, hi = it.a[2], it.a[3]

    def yes(x):
        i = sub(hi, 1) if back else lo
        v = iter_get(eng, x, it, i)
        x = x.fork()
        eng.write(x, ref.a[0], ref.a[1], mk("iter", it.a[0], it.a[1], lo if back else add(lo, 1), sub(hi, 1) if back else hi))
        return ret(x, some(v))
    return fork2(st, lt(lo, hi), yes, lambda x: ret(x, NONE))


@prim("core::slice::iter", "core::slice::iter_mut", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "core::slice::iter::into_iter", "core::array::iter#no", "std::array::into_iter")
def p_iter(eng, st, a, cal, at, dt):
    if not (isT(a[0]) and a[0].op in ("ref", "sref")):
        if isT(a[0]) and a[0].op == "seq":
            return ret(st, mkiter("val", (a[0], tinfo(at[0]).get("e", -1)), 0, seq_len(a[0])))
        return None
    s = as_slice(eng, st, a[0])
    ety = elemty(tinfo(at[0]))
    return ret(st, mkiter("ref", (s.a[0], s.a[1], ety), s.a[2], add(s.a[2], s.a[3])))


@prim("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<[T; N] as std::iter::IntoIterator>::into_iter", "core::array::iter::into_iter", "std::array::iter::into_iter")
def p_intoiter(eng, st, a, cal, at, dt):
    s = a[0].a[0] if a[0].op == "vec" else a[0]
    if s.op != "seq":
        raise Lim("into_iter")
    return ret(st, mkiter("val", (s, elemty(tinfo(at[0]))), 0, seq_len(s)))


@prim("std::vec::Vec::drain")
def p_drain(eng, st, a, cal, at, dt):
    r, p, s = vecloc(eng, st, a[0])
    n = seq_len(s)
    lo, hi = rangespec(eng, a[1], at[1], n)

    def k(x):
        mid = seq_slice(s, lo, sub(hi, lo), x.facts)
        rest = cat(seq_slice(s, 0, lo, x.facts), seq_slice(s, hi, sub(n, hi), x.facts))
        x = setvec(eng, x, a[0], rest)
        return ret(x, mkiter("val", (mid, elemty(pointee(tinfo(at[0])))), 0, sub(hi, lo)))
    return guard(st, le(lo, hi), "drain", lambda x: guard(x, le(hi, n), "drain", k))


@prim("core::str::bytes")
def p_bytes(eng, st, a, cal, at, dt):
    s = content(eng, st, a[0])
    return ret(st, mkiter("val", (s, u8ty()), 0, seq_len(s)))


@prim("core::str::chars")
def p_chars(eng, st, a, cal, at, dt):
    s = content(eng, st, a[0])
    if is_ascii_known(st, s):
        q = s
    else:
        q = whole(mk("S", ty_by_name("char"), mk("view", -1, "chars", s)))
    return ret(st, mkiter("val", (q, ty_by_name("char")), 0, seq_len(q)))


ITS = ("std::slice::Iter", "std::slice::IterMut", "std::vec::IntoIter", "std::str::Chars", "std::str::Bytes", "std::vec::Drain", "std::array::IntoIter")


def iter_self(at):
    return pointee(tinfo(at[0])).get("def", "")


@prim("std::iter::Iterator::next")
def p_next(eng, st, a, cal, at, dt):
    n = iter_self(at)
    if n in ITS:
        return it_next(eng, st, a[0])
    if n == "std::ops::Range":
        v = eng.read(st, a[0].a[0], a[0].a[1])
        if v.op != "agg":
            v = expand(v, 0)
        lo, hi = v.a[1], v.a[2]
        if not (isinstance(lo, int) or rng(lo)):
            raise Lim("range")

        def yes(x):
            x = x.fork()
            eng.write(x, a[0].a[0], a[0].a[1], agg(0, add(lo, 1), hi))
            return ret(x, some(lo))
        return fork2(st, lt(lo, hi), yes, lambda x: ret(x, NONE))
    if n == "std::ops::RangeInclusive":
        v = eng.read(st, a[0].a[0], a[0].a[1])
        lo, hi, ex = v.a[1], v.a[2], v.a[3]
        if not isinstance(ex, int) or ex:
            if ex == 1:
                return ret(st, NONE)
        # kept as a half-open range: exhausted is represented by lo = hi + 1

        def yes(x):
            x = x.fork()
            eng.write(x, a[0].a[0], a[0].a[1], agg(0, add(lo, 1), hi, 0))
            return ret(x, some(lo))
        return fork2(st, le(lo, hi), yes, lambda x: ret(x, NONE))
    return None


@prim("std::iter::DoubleEndedIterator::next_back")
def p_nextback(eng, st, a, cal, at, dt):
    n = iter_self(at)
    if n in ITS:
        return it_next(eng, st, a[0], True)
    if n == "std::ops::Range":
        v = eng.read(st, a[0].a[0], a[0].a[1])
        lo, hi = v.a[1], v.a[2]

        def yes(x):
            x = x.fork()
            eng.write(x, a[0].a[0], a[0].a[1], agg(0, lo, sub(hi, 1)))
            return ret(x, some(sub(hi, 1)))
        return fork2(st, lt(lo, hi), yes, lambda x: ret(x, NONE))
    return None


@prim("std::iter::ExactSizeIterator::len", "std::iter::Iterator::count#no")
def p_itlen(eng, st, a, cal, at, dt):
    it = eng.read(st, a[0].a[0], a[0].a[1])
    if it.op == "iter":
        return ret(st, sub(it.a[3], it.a[2]))
    return None


@prim("core::slice::iter::as_slice", "std::slice::Iter::as_slice")
def p_itslice(eng, st, a, cal, at, dt):
    it = eng.read(st, a[0].a[0], a[0].a[1])
    if it.op == "iter" and it.a[0] == "ref":
        d = it.a[1]
        return ret(st, mk("sref", d[0], d[1], it.a[2], sub(it.a[3], it.a[2])))
    return None


@prim("std::ops::RangeInclusive::new")
def p_rinew(eng, st, a, cal, at, dt):
    return ret(st, agg(0, a[0], a[1], 0))


@prim("std::ops::RangeInclusive::contains", "std::ops::Range::contains")
def p_rcontains(eng, st, a, cal, at, dt):
    r = eng.deep(st, a[0])
    v = eng.deep(st, a[1])
    inc = "Inclusive" in cal["def"]
    if not (isinstance(v, int) or rng(v)):
        raise Lim("contains")
    return ret(st, conj([le(r.a[1], v), le(v, r.a[2]) if inc else lt(v, r.a[2])]))


# ---------------------------------------------------------------- hashing (ring, ripemd)
HCTX = {}


@prim("ring::digest::Context::new")
def p_ctxnew(eng, st, a, cal, at, dt):
    alg = a[0]
    nm = None
    if alg.op == "ref" and alg.a[0][0] == "G":
        nm = alg.a[0][1].split("::")[-1].lower()
    if nm not in HASHLEN:
        nm = nm or "?"
    return ret(st, mk("hctx", nm, EMPTY))


@prim("ring::digest::Context::update")
def p_ctxup(eng, st, a, cal, at, dt):
    c = eng.read(st, a[0].a[0], a[0].a[1])
    if c.op != "hctx":
        raise Lim("ctx")
    st = st.fork()
    eng.write(st, a[0].a[0], a[0].a[1], mk("hctx", c.a[0], cat(c.a[1], content(eng, st, a[1]))))
    return ret(st, UNIT)


@prim("ring::digest::Context::finish")
def p_ctxfin(eng, st, a, cal, at, dt):
    return ret(st, mk("digest", hashseq(a[0].a[0], a[0].a[1])))


@prim("ring::digest::digest")
def p_digest(eng, st, a, cal, at, dt):
    nm = a[0].a[0][1].split("::")[-1].lower()
    return ret(st, mk("digest", hashseq(nm, content(eng, st, a[1]))))


def hashseq(alg, s):
    if alg in HASHLEN:
        return whole(mk("hash", alg, s))
    q = mk("fixed", mk("hash?", alg, s), mk("len", mk("hash?", alg, s)))
    return mk("seq", mk("sub", q, 0, q.a[1]))


@prim("<ring::digest::Digest as std::convert::AsRef<[u8]>>::as_ref")
def p_digref(eng, st, a, cal, at, dt):
    d = eng.read(st, a[0].a[0], a[0].a[1])
    if d.op != "digest":
        raise Lim("digest")
    return ret(st, mk("sref", ("C", d.a[0]), (), 0, seq_len(d.a[0])))




@prim("<D as digest::digest::Digest>::digest", "digest::digest::Digest::digest")
def p_rdigest(eng, st, a, cal, at, dt):
    nm = "".join(tinfo(x)["s"].lower() for x in cal.get("a", []) if isinstance(x, int))
    if "ripemd160" not in nm:
        raise Lim("digest " + nm)
    return ret(st, mk("digest", hashseq("ripemd160", content(eng, st, a[0]))))


@prim("generic_array::GenericArray::as_slice", "<generic_array::GenericArray<T, N> as std::ops::Deref>::deref", "<generic_array::GenericArray<T, N> as std::convert::AsRef<[T]>>::as_ref")
def p_garr(eng, st, a, cal, at, dt):
    d = eng.read(st, a[0].a[0], a[0].a[1])
    if not isT(d) or d.op != "digest":
        raise Lim("generic array")
    return ret(st, mk("sref", ("C", d.a[0]), (), 0, seq_len(d.a[0])))


@prim("<generic_array::GenericArray<T, N> as std::convert::Into<[T; N]>>::into", "generic_array::GenericArray::to_vec#no")
def p_garrinto(eng, st, a, cal, at, dt):
    if not isT(a[0]) or a[0].op != "digest":
        raise Lim("generic array")
    return ret(st, a[0].a[0])


# ---------------------------------------------------------------- secp256k1
def ufn(eng, st, name, args, dt):
    return mat(mk("call", dt, name, *[seqarg(eng.reify(st, x)) for x in args]))


@prim("secp256k1::ecdsa::recovery::sign_ecdsa_recoverable", "secp256k1::Secp256k1::sign_ecdsa_recoverable")
def p_signrec(eng, st, a, cal, at, dt):
    return ret(st, ufn(eng, st, "secp::sign_recoverable", a[1:], dt))


@prim("secp256k1::ecdsa::recovery::recover_ecdsa", "secp256k1::Secp256k1::recover_ecdsa")
def p_recover(eng, st, a, cal, at, dt):
    return ret(st, ufn(eng, st, "secp::recover", a[1:], dt))


@prim("secp256k1::SecretKey::public_key")
def p_pubkey(eng, st, a, cal, at, dt):
    return ret(st, ufn(eng, st, "secp::public_key", [a[0]], dt))


@prim("secp256k1::PublicKey::from_secret_key")
def p_pubkey2(eng, st, a, cal, at, dt):
    return ret(st, ufn(eng, st, "secp::public_key", [a[1]], dt))


@prim("secp256k1::Message::from_digest_slice", "secp256k1::Message::from_slice")
def p_msg(eng, st, a, cal, at, dt):
    s = content(eng, st, a[0])
    return fork2(st, eqi(seq_len(s), 32), lambda x: ret(x, mk("agg", 0, mk("agg", 0, s))),
                 lambda x: ret(x, mk("agg", 1, mk("call", tinfo(dt)["a"][1], "secp::InvalidMessage"))))


@prim("secp256k1::Message::from_digest")
def p_msg2(eng, st, a, cal, at, dt):
    return ret(st, mk("agg", 0, a[0]))


@prim("secp256k1::ecdsa::RecoveryId::from_i32")
def p_recid(eng, st, a, cal, at, dt):
    def no(x):
        return ret(x, mk("agg", 1, mk("call", tinfo(dt)["a"][1], "secp::InvalidRecoveryId")))
    return fork2(st, le(0, a[0]), lambda x: fork2(x, le(a[0], 3), lambda y: ret(y, mk("agg", 0, mk("agg", 0, a[0]))), no), no)


@prim("secp256k1::ecdsa::RecoveryId::to_i32")
def p_recid2(eng, st, a, cal, at, dt):
    v = a[0]
    v = v.a[1] if isT(v) and v.op == "agg" else _fldof(v, dt)
    st = st.with_(le(0, v))
    st = st.with_(le(v, 3)) if st else None
    return ret(st, v) if st else []


def _fldof(v, ty):
    return mat(mk("fld", ty, v, 0, 0))


# ---------------------------------------------------------------- dyn Codec defaults, dyn Any
def find_ty(s):
    for i, t in enumerate(T.TYPES):
        if t["s"] == s:
            return i
    return -1


def virt_encode(eng, st, recv, argty):
    dt = find_ty("std::result::Result<std::vec::Vec<u8>, stacks_rs::clarity::Error>")
    if dt < 0:
        raise Lim("encode type")
    return eng.opaque_call(st, "virt:stacks_rs::clarity::Codec::encode", [recv], [argty], dt)


def on_result(outs, f):
    """apply f(st, ok value) to Ok results, pass Err through"""
    res = []
    for o in outs:
        v = o.val
        if v.op == "agg":
            res += f(o.st, v.a[1]) if v.a[0] == 0 else [Out("ret", o.st, v)]
            continue
        a, b = branch(o.st, isv(v, 0))
        if a:
            res += f(a, expand(v, 0).a[1])
        if b:
            res.append(Out("ret", b, err(expand(v, 1).a[1])))
    return res


@prim("virt:stacks_rs::clarity::Codec::len")
def v_len(eng, st, a, cal, at, dt):
    return on_result(virt_encode(eng, st, a[0], at[0]), lambda s, v: ret(s, ok(seq_len(vseq(v)))))


@prim("virt:stacks_rs::clarity::Codec::is_empty")
def v_emp(eng, st, a, cal, at, dt):
    return on_result(virt_encode(eng, st, a[0], at[0]), lambda s, v: ret(s, ok(eqi(seq_len(vseq(v)), 0))))


def vseq(v):
    if v.op in TYPED:
        v = mat(v)
    return v.a[0] if v.op == "vec" else v


@prim("virt:stacks_rs::clarity::Any::as_any", "virt:stacks_rs::clarity::Any::into_any")
def v_any(eng, st, a, cal, at, dt):
    return ret(st, a[0])


@prim("<(dyn std::any::Any + 'static)>::downcast_ref", "<(dyn std::any::Any + 'static)>::is", "<(dyn std::any::Any + 'static)>::downcast_mut", "std::any::downcast_ref", "std::any::downcast_mut", "std::any::is", "core::any::downcast_ref", "core::any::is")
def p_downcast_ref(eng, st, a, cal, at, dt):
    want = ty0(cal)
    isq = tinfo(dt)["k"] == "bool"
    r = a[0]
    if r.op == "dref":
        hit = r.a[0] == want
        if isq:
            return ret(st, int(hit))
        return ret(st, some(mk("ref", r.a[1], r.a[2])) if hit else NONE)
    v = eng.read(st, r.a[0], r.a[1])
    if v.op == "dynv":
        hit = v.a[0] == want
        if isq:
            return ret(st, int(hit))
        return ret(st, some(mk("ref", r.a[0], r.a[1] + (mk("pd", want),))) if hit else NONE)
    if v.op not in TYPED:
        raise Lim("downcast of " + v.op)
    l = mk("dynis", v, want)
    if isq:
        return ret(st, l)
    return fork2(st, l, lambda s: ret(s, some(mk("ref", r.a[0], r.a[1] + (mk("pd", want),)))), lambda s: ret(s, NONE))


@prim("std::boxed::downcast", "std::boxed::Box::downcast", "std::boxed::convert::downcast")
def p_downcast(eng, st, a, cal, at, dt):
    want = tinfo(tinfo(dt)["a"][0])["a"][0]
    b = mat(a[0]) if a[0].op in TYPED else a[0]
    if b.op != "box":
        raise Lim("downcast box")
    v = b.a[0]
    if v.op == "dynv":
        return ret(st, ok(mk("box", v.a[1])) if v.a[0] == want else err(b))
    if v.op not in TYPED:
        raise Lim("downcast of " + v.op)
    l = mk("dynis", v, want)
    return fork2(st, l, lambda s: ret(s, ok(mk("box", mat(mk("down", want, v))))), lambda s: ret(s, err(b)))


# ---------------------------------------------------------------- analysis intrinsics
@prim("sharness::intr::field", "sharness::intr::field_mut")
def p_field(eng, st, a, cal, at, dt):
    nm = bytes_of(content(eng, st, a[1]))
    sty = tinfo(at[0])["e"]
    fty = tinfo(dt)["e"]
    vs = tinfo(sty).get("v")
    if not vs or len(vs) != 1:
        raise Lim("field of " + tinfo(sty)["s"])
    fs = vs[0]["f"]
    hit = [i for i, f in enumerate(fs) if f[0] == nm and f[1] == fty]
    if not hit:
        hit = [i for i, f in enumerate(fs) if f[1] == fty]
        if len(hit) != 1:
            eng.note("field %s of %s not found" % (nm, tinfo(sty)["s"]))
            raise Lim("field %s not found" % nm)
    i = hit[0]
    r = a[0]
    return ret(st, eng.ref_place(st, Loc(r.a[0], r.a[1] + (pf(0, i, fty),), fty)))


@prim("sharness::intr::takefield")
def p_takefield(eng, st, a, cal, at, dt):
    nm = bytes_of(content(eng, st, a[1]))
    hits = []

    def walk(ty, v, name, d):
        if d > 6:
            return
        if ty == dt and name == nm:
            hits.append(v)
            return
        if not (isT(v) and v.op == "agg"):
            return
        vs = tinfo(ty).get("v") if ty >= 0 else None
        if not vs or not isinstance(v.a[0], int) or v.a[0] >= len(vs):
            return
        for (fn, ft), x in zip(vs[v.a[0]]["f"], v.a[1:]):
            if fn in ("frontiter", "backiter"):
                if not (isT(x) and x.op == "agg" and x.a[0] == 0):
                    raise Lim("started flat iterator")
                continue
            walk(ft, x, fn, d + 1)
    whole_v = eng.read(st, a[0].a[0], a[0].a[1])
    if not (isT(whole_v) and whole_v.op == "agg"):
        vs = tinfo(tinfo(at[0])["e"]).get("v") or []
        ix = [i for v in vs for i, f in enumerate(v["f"]) if f[1] == dt] if len(vs) == 1 else []
        if len(ix) != 1:
            raise Lim("takefield %s" % nm)
        return ret(st, eng.read(st, a[0].a[0], a[0].a[1] + (pf(0, ix[0], dt),)))
    walk(tinfo(at[0])["e"], whole_v, "", 0)
    if len(hits) != 1:
        raise Lim("takefield %s: %d" % (nm, len(hits)))
    return ret(st, hits[0])


@prim("sharness::intr::mkzip")
def p_mkzip(eng, st, a, cal, at, dt):
    fs = tinfo(dt)["v"][0]["f"]
    return ret(st, agg(0, *[a[0] if f[0] == "a" else a[1] if f[0] == "b" else 0 for f in fs]))


@prim("sharness::intr::prim_hash")
def p_primhash(eng, st, a, cal, at, dt):
    h = hashseq(bytes_of(content(eng, st, a[0])), content(eng, st, a[1]))
    return ret(st, mk("sref", ("C", h), (), 0, seq_len(h)))


@prim("sharness::intr::assume")
def p_assume(eng, st, a, cal, at, dt):
    if a[0] == 1:
        return ret(st, UNIT)
    s = st.with_(a[0])
    return ret(s, UNIT) if s else []


def vfield(eng, st, r, sty, nm):
    vs = tinfo(sty).get("v")
    if not vs or len(vs) != 1:
        raise Lim("field of " + tinfo(sty)["s"])
    fs = vs[0]["f"]
    hit = [i for i, f in enumerate(fs) if f[0] == nm and is_vec(tinfo(f[1]))]
    if len(hit) != 1:
        hit = [i for i, f in enumerate(fs) if is_vec(tinfo(f[1])) and tinfo(f[1])["def"].endswith("Vec")]
    if len(hit) != 1:
        raise Lim("field %s not found" % nm)
    fty = fs[hit[0]][1]
    return eng.ref_place(st, Loc(r.a[0], r.a[1] + (pf(0, hit[0], fty),), fty)), tinfo(fty)["a"][0]


def variant(ety, var):
    for i, v in enumerate(tinfo(ety).get("v") or []):
        if v["n"] == var:
            return i, v["f"]
    raise Lim("variant %s not found" % var)


@prim("sharness::intr::vlen")
def p_vlen(eng, st, a, cal, at, dt):
    r, ety = vfield(eng, st, a[0], tinfo(at[0])["e"], bytes_of(content(eng, st, a[1])))
    return ret(st, as_slice(eng, st, r).a[3])


@prim("sharness::intr::vis")
def p_vis(eng, st, a, cal, at, dt):
    r, ety = vfield(eng, st, a[0], tinfo(at[0])["e"], bytes_of(content(eng, st, a[1])))
    k, _ = variant(ety, bytes_of(content(eng, st, a[3])))
    v = seq_at(content(eng, st, r), a[2], ety, st.facts)
    return ret(st, isv(v, k))


@prim("sharness::intr::vget")
def p_vget(eng, st, a, cal, at, dt):
    r, ety = vfield(eng, st, a[0], tinfo(at[0])["e"], bytes_of(content(eng, st, a[1])))
    k, fs = variant(ety, bytes_of(content(eng, st, a[3])))
    if len(fs) != 1 or fs[0][1] != tinfo(dt)["e"]:
        raise Lim("variant payload type")
    v = seq_at(content(eng, st, r), a[2], ety, st.facts)
    v = v if v.op == "agg" else expand(v, k)
    return ret(st, mk("ref", ("C", v.a[1]), ()))


@prim("sharness::intr::vpush")
def p_vpush(eng, st, a, cal, at, dt):
    r, ety = vfield(eng, st, a[0], tinfo(at[0])["e"], bytes_of(content(eng, st, a[1])))
    k, fs = variant(ety, bytes_of(content(eng, st, a[2])))
    if len(fs) != 1 or fs[0][1] != at[3]:
        raise Lim("variant payload type")
    _, _, s = vecloc(eng, st, r)
    return ret(setvec(eng, st, r, mkseq(s.a + (elem(mk("agg", k, a[3])),))), UNIT)


@prim("sharness::intr::vclear")
def p_vclear(eng, st, a, cal, at, dt):
    r, ety = vfield(eng, st, a[0], tinfo(at[0])["e"], bytes_of(content(eng, st, a[1])))
    return ret(setvec(eng, st, r, EMPTY), UNIT)


def bytes_of(s):
    out = []
    for g in s.a:
        if g.op == "c":
            out += g.a
        elif g.op == "e" and isinstance(g.a[0], int):
            out.append(g.a[0])
        else:
            raise Lim("not a constant string")
    return bytes(out).decode()
