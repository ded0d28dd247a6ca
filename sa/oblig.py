"""Obligations: comparison of an implementation entry with its reference, absence
of panicking outcomes, and the machinery to run them in parallel."""
import json, os, time, signal, multiprocessing as mp
from terms import *
from engine import *
import prims, maps, net, compare, witness

M = None
POLY = None


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def limited(secs, fn, *a, **k):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        return fn(*a, **k)
    finally:
        signal.alarm(0)


def _valarm(*a):
    raise OutOfTime()


class within:
    """ends what is inside after so many seconds of processor time"""
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _valarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def entry(name):
    return M["entries"].get("sharness::" + name)


def keys_of(*entries):
    """keys of the library function each named entry point calls first"""
    out = []
    for n in entries:
        f = M["fns"][entry(n)]
        for b in f["bbs"]:
            t = b["t"]
            if t[0] == "call" and t[1].get("i") is not None:
                g = M["fns"][t[1]["i"]]
                if g["crate"] == "stacks_rs":
                    out.append(fkey(g["name"]))
                    break
    return out


def has_sized(name):
    """does an argument hold a sequence or a string?"""
    f = M["fns"][entry(name)]
    seen = set()

    def w(ty):
        if ty in seen:
            return False
        seen.add(ty)
        ti = tinfo(ty)
        if ti["k"] in ("str", "slice") or ti["k"] == "adt" and is_vec(ti):
            return True
        if ti["k"] in ("ref", "ptr", "array"):
            return w(ti["e"])
        if ti["k"] == "tuple":
            return any(w(x) for x in ti["f"])
        if ti["k"] == "adt":
            return any(w(x[1]) for v in ti.get("v") or () for x in v["f"]) or any(
                w(x) for x in ti.get("a") or () if isinstance(x, int))
        return False
    return any(w(f["locals"][i + 1]) for i in range(f["argc"]))


def summarise(name, opaque, peel=0, budget=None, facts=TRUE, sample=0, size=None):
    e = Engine(M, opaque, prims.P)
    if isinstance(peel, tuple):
        # (iterations, partitions kept): few partitions, many iterations
        peel, keep = peel
        if facts is TRUE:
            sample, e.limit = keep, 4 * keep
    e.peel = peel
    e.sample = sample
    e.deadline = time.time() + GUARD / 4 if peel else None
    if budget:
        e.budget = budget
    fid = entry(name)
    if fid is None:
        raise Lim("missing entry " + name)
    f = M["fns"][fid]
    args = [mat(mk("sym", f["locals"][i + 1], "a%d" % i + ("" if size is None else "#%s" % size))) for i in range(f["argc"])]
    if size is not None:
        e.deadline = time.time() + 4
    outs = e.call_fn(St({}, facts), fid, args)
    cases = [(o.kind, o.st.facts, e.deep(o.st, o.val) if o.val is not None else None, o.info) for o in outs]
    return e, cases


def visited(e):
    return sorted({M["fns"][i]["name"] for i in e.visited if M["fns"][i]["crate"] == "stacks_rs"})


def describe(b):
    v, j, why, (ki, vi, inf), (ks, vs) = b
    return {"facts": [show(l)[:200] for l in j.order][:40],
            "found": "%s %s %s" % (ki, show(vi)[:400] if vi is not None else "", inf or ""),
            "expected": "%s %s" % (ks, show(vs)[:400] if vs is not None else ""),
            "differs": [show(x)[:300] if isT(x) else str(x) for x in why] if why else []}


GUARD = 40
# dev: look at the partitions by size also when the property is already decided
FORCE = os.environ.get("VP_FORCE")
PEELS = (1, 2, (20, 6), (70, 3), 3, 4)


# libraries whose functions are not interpreted at all
FOREIGN = ("bip32::", "bip39::", "ureq::", "url::")


def run_eq(impl, spec, opaque, peels=None, ignore_err=True):
    # which error is returned is not compared; the type must be a Result for that (1 is also Some)
    fid = entry(impl)
    if fid is not None and M["types"][M["fns"][fid]["locals"][0]].get("def") != "std::result::Result":
        ignore_err = False
    r = _run_eq(impl, spec, opaque, peels, ignore_err)
    if r["status"] == "violated" and r.get("foreign") and not r["clean"]:
        # another library's function of which nothing is known, which the reference does
        # not use: it may well compute the same
        r["status"], r["why"] = "undecided", "uninterpreted calls of other libraries"
    if r["status"] == "violated" and r.get("only") and not r["clean"]:
        # a function that was left uninterpreted is called on one side only (it may have
        # been written out in place on the other): look inside it
        q = _run_eq(impl, spec, [k for k in opaque if k not in r["only"]], peels, ignore_err)
        q["s"] += r["s"]
        if q["status"] == "violated" and q.get("only") and not q["clean"]:
            q["status"], q["why"] = "undecided", "different uninterpreted calls"
        return q
    return r


def mentions(t, names, seen=None):
    """does t contain the result of a call of one of names?"""
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        return any(mentions(x, names, seen) for x in t)
    if not isT(t) or t in seen:
        return False
    seen.add(t)
    return any(x in names if isinstance(x, str) else mentions(x, names, seen) for x in t.a)


def verdict(r, ei, es, opaque, bad):
    r["only"] = sorted((ei.calls_seen ^ es.calls_seen) & set(opaque))
    r["foreign"] = sorted(k for k in ei.calls_seen - es.calls_seen if any(c in k for c in FOREIGN))
    clean = [x for x in bad if not any(mentions(t, r["only"] + r["foreign"]) for t in list(x[1].order) + [x[3][1], x[4][1]])]
    r["clean"] = bool(clean)
    r["bad"] = [describe(x) for x in (clean or bad)[:4]]


def _run_eq(impl, spec, opaque, peels, ignore_err):
    r = {"impl": impl, "rule": "summary of %s equals summary of reference %s" % (impl, spec)}
    t0 = time.time()
    for peel in (0,) + tuple(peels or PEELS):
        if peel and time.time() - t0 > GUARD:
            break
        try:
            ei, ci = summarise(impl, opaque, peel, sample=48)
            es, cs = summarise(spec, opaque, peel, sample=48)
        except (Lim, OutOfTime) as x:
            r.setdefault("status", "undecided")
            r.setdefault("why", str(x))
            if peel == 0:
                t1 = time.time()
                if by_size(impl, spec, opaque, ignore_err, r):
                    break
                t0 += time.time() - t1
            continue
        if peel and (ei.truncated or es.truncated):
            pairs, res = guided(impl, ci, spec, cs, opaque, peel, ignore_err, t0)
        else:
            compare.INSTANCES = 8 if peel == 0 else 2
            pairs, res = compare.compare(ci, cs, ignore_err)
        if ei.lims:
            # an operation without transfer function may itself be where the panic is
            res = [("?",) + tuple(x[1:]) if x[0] == "ne" and x[3][0] == "ret" and x[4][0] == "panic" else x for x in res]
        bad = [x for x in res if x[0] == "ne"]
        unk = [x for x in res if x[0] == "?"]
        if peel == 0:
            r.update(cases=len(ci), ref_cases=len(cs), pairs=pairs, functions=visited(ei), notes=sorted(ei.notes))
            r["status"] = "violated" if bad else ("undecided" if unk or pairs == 0 else "holds")
            r["unk"] = [describe(x) for x in unk[:3]]
            if ei.lims:
                r["assumes"] = sorted(ei.lims)
            if r["status"] == "holds" and not FORCE:
                break
        elif bad:
            r["status"] = "violated"
        if bad:
            verdict(r, ei, es, opaque, bad)
            r["mode"] = "first %d iterations of each loop" % (peel[0] if isinstance(peel, tuple) else peel) if peel else "fixpoint"
            break
        if "unrolled" not in ei.notes and peel:
            break
        if peel == 0:
            t1 = time.time()
            if by_size(impl, spec, opaque, ignore_err, r):
                break
            t0 += time.time() - t1
        if FORCE:
            break
    r["s"] = round(time.time() - t0, 3)
    return r


# n: n elements; nu: n elements of which all but the first and the last are the same
SIZES = ("0", "1", "2", "3", "12u", "34u", "4", "66u", "130u", "5", "6", "8", "16", "258u", "33", "65", "129")


def by_size(impl, spec, opaque, ignore_err, r):
    """comparison on the partitions in which the sequences and strings passed in have a
    particular number of elements (and the strings are ASCII)"""
    if r.get("status") != "undecided" and not FORCE or not has_sized(impl):
        return None
    t0 = time.time()
    stop = [False, False]
    try:
        for n in SIZES:
            left = GUARD / 2 - (time.time() - t0)
            if left <= 0:
                break
            kind, peel = n[-1] == "u", 4 * int(n.rstrip("u")) + 8
            if stop[kind]:
                continue
            compare.UNTIL = t0 + GUARD / 2
            compare.INSTANCES = 2
            try:
                with within(max(left, 1)):
                    ei, ci = summarise(impl, opaque, peel, size=n, sample=48)
                    es, cs = summarise(spec, opaque, peel, size=n, sample=48)
                    if ei.truncated or es.truncated:
                        pairs, res = guided(impl, ci, spec, cs, opaque, peel, ignore_err, time.time() - GUARD + min(left, 4), size=n)
                    else:
                        pairs, res = compare.compare(ci, cs, ignore_err)
            except (Lim, OutOfTime) as x:
                if FORCE:
                    print("size", impl, n, repr(x))
                stop[kind] = True
                continue
            bad = [x for x in res if x[0] == "ne" and not (ei.lims and x[3][0] == "ret" and x[4][0] == "panic")]
            if FORCE:
                print("size", impl, n, pairs, len(ci), len(cs), ei.truncated, es.truncated, "%.1f" % (time.time() - t0), [x[0] for x in res][:3], sorted(ei.lims)[:2])
            if bad:
                r["status"] = "violated"
                verdict(r, ei, es, opaque, bad)
                r["mode"] = "sequences and strings of %s elements" % n
                return True
            if ei.truncated and es.truncated and peel > 80:
                stop[kind] = True
    finally:
        compare.UNTIL = None


def guided(impl, ci, spec, cs, opaque, peel, ignore_err, t0, size=None):
    """comparison when the partitions of one side were only sampled: the other side is
    analysed again under the facts of each sampled case"""
    pairs, res = 0, []
    compare.INSTANCES = 0
    for side, cases in ((0, ci), (1, cs)):
        good = [c for c in cases if not any(compare.fuzzy(l) for l in c[1].order)]
        # panics and errors first: they are the rare ones
        n = max(1, len(good) // 60)
        for c in good[::n]:
            if time.time() - t0 > GUARD:
                return pairs, res
            try:
                e, other = summarise(spec if side == 0 else impl, opaque, peel, facts=c[1], size=size)
            except (Lim, OutOfTime):
                continue
            p, x = compare.compare([c], other, ignore_err) if side == 0 else compare.compare(other, [c], ignore_err)
            pairs += p
            res += x
            if any(y[0] == "ne" for y in x):
                return pairs, res
    return pairs, res


def run_nopanic(impl, opaque, peels=None):
    r = {"impl": impl, "rule": "no outcome of %s is a panic" % impl}
    t0 = time.time()
    for peel in (0,) + tuple(peels or PEELS):
        if peel and time.time() - t0 > GUARD:
            break
        try:
            e, cs = summarise(impl, opaque, peel, sample=48)
        except (Lim, OutOfTime) as x:
            r.setdefault("status", "undecided")
            r.setdefault("why", str(x))
            continue
        pan = [c for c in cs if c[0] == "panic"]
        bad, unk = [], []
        for k, f, v, inf in pan:
            f2 = compare.instantiate(f, ())
            if f2 is None or compare.neg_all(f2):
                continue
            (unk if any(compare.fuzzy(l) for l in f2.order) else bad).append((f2, inf))
        d = [{"facts": [show(l)[:200] for l in f.order][:40], "panic": str(inf)} for f, inf in (bad or unk)[:4]]
        if peel == 0:
            r.update(cases=len(cs), functions=visited(e), notes=sorted(e.notes))
            r["status"] = "violated" if bad else ("undecided" if unk or e.lims else "holds")
            if e.lims:
                r["assumes"] = sorted(e.lims)
            if unk and not bad:
                r["unk"] = d
            if r["status"] == "holds":
                break
        elif bad:
            r["status"] = "violated"
        if bad:
            r["bad"] = d
            r["mode"] = "first %d iterations of each loop" % (peel[0] if isinstance(peel, tuple) else peel) if peel else "fixpoint"
            break
        if "unrolled" not in e.notes and peel:
            break
        if peel == 0 and nopanic_size(impl, opaque, r):
            break
    r["s"] = round(time.time() - t0, 3)
    return r


def nopanic_size(impl, opaque, r):
    """the same on the partitions in which the sequences and strings passed in have a
    particular number of elements"""
    if not has_sized(impl):
        return None
    t0 = time.time()
    for n in SIZES:
        if time.time() - t0 > GUARD / 4:
            break
        try:
            with within(GUARD / 4):
                e, cs = summarise(impl, opaque, 4 * int(n.rstrip("u")) + 8, size=n, sample=48)
        except (Lim, OutOfTime):
            break
        for k, f, v, inf in cs:
            f2 = compare.instantiate(f, ()) if k == "panic" else None
            if f2 is None or compare.neg_all(f2) or any(compare.fuzzy(l) for l in f2.order) or not witness.sat(f2):
                continue
            r["status"] = "violated"
            r["bad"] = [{"facts": [show(l)[:200] for l in f2.order][:40], "panic": str(inf)}]
            r["mode"] = "sequences and strings of %s elements" % n
            return True


def run_effects(what):
    import effects
    return effects.run_effects(what, POLY)


def run_type(kind, name):
    import typew
    return typew.run(kind, name)


KINDS = {"eq": run_eq, "nopanic": run_nopanic, "effects": run_effects, "type": run_type}


def _job(x):
    i, secs, o = x
    try:
        fn = KINDS[o["kind"]]
        a = o["args"]
        r = limited(secs, fn, *a, **o.get("kw", {}))
    except Timeout:
        r = {"status": "undecided", "why": "time limit", "impl": str(o["args"][0])}
    except RecursionError:
        r = {"status": "undecided", "why": "recursion limit", "impl": str(o["args"][0])}
    except Exception as x:
        import traceback
        r = {"status": "error", "why": "%s: %s" % (type(x).__name__, x), "tb": traceback.format_exc()[-1500:], "impl": str(o["args"][0])}
    return i, r


def run_all(obls, secs=100, jobs=8):
    res = [None] * len(obls)
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=4) as pool:
        for i, r in pool.imap_unordered(_job, [(i, secs, o) for i, o in enumerate(obls)]):
            res[i] = r
    return res
