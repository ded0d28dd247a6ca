"""HTTP requests (ureq) and JSON values: what is sent is recorded in order, what comes
back is an uninterpreted function of everything sent so far"""
from terms import *
from engine import *
from prims import prim, ret, content
import prims, maps

ROOT = ("N", 0, 0)
J = "ureq::serde_json::"


def variant(ty, name):
    for i, v in enumerate(tinfo(ty)["v"]):
        if v["n"] == name:
            return i
    raise Lim("variant " + name)


def json(eng, st, v, ty, vty):
    ti = tinfo(ty)
    if ty == vty:
        return v
    if ti["k"] == "ref":
        e = tinfo(ti["e"])
        if e["k"] == "str":
            return agg(variant(vty, "String"), mk("vec", content(eng, st, v)))
        if e["k"] == "slice":
            return lst(eng, st, content(eng, st, v), e["e"], vty)
        return json(eng, st, eng.read(st, v.a[0], v.a[1]), ti["e"], vty)
    if ti["k"] == "bool":
        return agg(variant(vty, "Bool"), v)
    if ti["k"] == "int":
        return agg(variant(vty, "Number"), mk("call", vty, "json::number", v))
    if ti.get("def") == "std::string::String":
        return agg(variant(vty, "String"), mk("vec", v.a[0] if v.op == "vec" else whole(v)))
    if ti.get("def") == "std::vec::Vec":
        return lst(eng, st, v.a[0] if v.op == "vec" else whole(v), ti["a"][0], vty)
    raise Lim("json of " + ti["s"])


def lst(eng, st, q, ety, vty):
    if tinfo(ety).get("def") != "std::string::String":
        raise Lim("json of list of " + tinfo(ety)["s"])
    return agg(variant(vty, "Array"), mk("call", vty, "json::list", q))


@prim(J + "to_value", "serde_json::to_value")
def p_tov(eng, st, a, cal, at, dt):
    vty = tinfo(dt)["a"][0]
    return ret(st, agg(0, json(eng, st, a[0], at[0], vty)))


for _n in ("std::string::String", "&'a str", "&str", "bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "std::vec::Vec<T>", "&'a [T]", "&[T]"):
    @prim("<%sValue as std::convert::From<%s>>::from" % (J, _n))
    def p_from(eng, st, a, cal, at, dt):
        return ret(st, json(eng, st, a[0], at[0], dt))


@prim(J + "Map::new", J + "Map::with_capacity", "<%sMap<std::string::String, %sValue> as std::default::Default>::default" % (J, J))
def p_new(eng, st, a, cal, at, dt):
    return ret(st, mk("hm", 0))


@prim(J + "Map::insert")
def p_ins(eng, st, a, cal, at, dt):
    key = maps.keyval(eng, st, a[1], at[1])
    r, m = maps.hm(eng, st, a[0])
    if m.a[0] != 0:
        raise Lim("unknown map")

    def old(s, r, i):
        m = maps.hm(eng, s, r)[1]
        return ret(maps.store(eng, s, r, m, i, key, a[2]), prims.some(m.a[2 + 2 * i]))
    return maps.lookup(eng, st, a[0], key, -1, old, lambda s, r, m: ret(maps.store(eng, s, r, m, None, key, a[2]), prims.NONE))


def canon(v):
    """objects are sorted by key"""
    if isT(v) and v.op == "agg":
        return agg(v.a[0], *[canon(x) for x in v.a[1:]])
    if isT(v) and v.op == "hm" and v.a[0] == 0:
        es = sorted(((v.a[i], canon(v.a[i + 1])) for i in range(1, len(v.a), 2)), key=lambda e: show(e[0]))
        return mk("seq", *[mk("lit", mk("agg", 0, k, x)) for k, x in es]) if False else mk("agg", 0, *[mk("agg", 0, k, x) for k, x in es])
    return v


for _m in ("get", "post", "put", "delete", "head", "patch"):
    @prim("ureq::" + _m, "ureq::Agent::" + _m)
    def p_req(eng, st, a, cal, at, dt, m=_m):
        return ret(st, mat(mk("call", dt, "ureq::request", mkseq([mk("c", *m.upper().encode())]), content(eng, st, a[-1]))))


@prim("ureq::request", "ureq::Agent::request")
def p_request(eng, st, a, cal, at, dt):
    return ret(st, mat(mk("call", dt, "ureq::request", content(eng, st, a[-2]), content(eng, st, a[-1]))))


@prim("ureq::Request::call", "ureq::Request::send_bytes", "ureq::Request::send_string", "ureq::Request::send_json", "ureq::Request::send_form", "ureq::Request::send")
def p_send(eng, st, a, cal, at, dt):
    nm = cal["def"]
    eng.calls_seen.add(nm)
    if nm.endswith("send_json"):
        if not tinfo(at[1])["s"].endswith("serde_json::Value"):
            raise Lim("request body of type " + tinfo(at[1])["s"])
        body = [canon(eng.deep(st, a[1]))]
    elif nm.endswith("call"):
        body = []
    else:
        body = [seqarg(eng.reify(st, a[1]))]
    req = mk("call", -1, nm, seqarg(eng.reify(st, a[0])), *body)
    old = st.mem.get(ROOT, mk("trace"))
    st = st.fork()
    new = mk("trace", *old.a, req)
    st.mem[ROOT] = new
    return ret(st, mat(mk("call", dt, "ureq::response", *new.a)))


@prim("sharness::intr::net")
def p_net(eng, st, a, cal, at, dt):
    t = st.mem.get(ROOT, mk("trace"))
    return ret(st, agg(0, mk("call", -1, "trace", len(t.a), *t.a)))
