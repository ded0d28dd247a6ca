"""effect analysis of the whole crate: what every function calls, which statics it touches"""
import re, os

# calls that read or change something besides their arguments
DENY = [
    (r"^(std|core)::env::", "environment"),
    (r"^std::fs::", "file system"), (r"^std::os::", "operating system"), (r"^std::net::", "network"),
    (r"^std::process::", "process"), (r"^std::thread::", "threads or thread-local state"),
    (r"^std::time::(Instant|SystemTime)::(now|elapsed)", "clock"), (r"^std::time::.*(Instant|SystemTime).*::(now|elapsed)", "clock"),
    (r"^std::io::(_print|_eprint|stdin|stdout|stderr|stdio::)", "standard streams"),
    (r"^std::panic::(set_hook|take_hook)", "panic hook"), (r"^std::backtrace::", "backtrace"),
    (r"^std::hash::.*RandomState", "random hash keys"), (r"^std::collections::hash_map::RandomState", "random hash keys"),
    (r"^(rand|rand_core|getrandom|fastrand)::", "randomness"), (r"^ring::(rand|signature|agreement|hmac::Key::generate)", "randomness"),
    (r"^secp256k1::rand|^secp256k1::.*::(randomize|seeded_randomize|generate_keypair|generate)\b|^secp256k1::(SecretKey|KeyPair|Keypair)(::<.*>)?::new$|^secp256k1::generate|^secp256k1::.*global", "randomness or global state"),
    (r"^bip32::.*::random", "randomness"), (r"^bip39::.*::generate", "randomness"),
    (r"^(std|core)::fmt::rt::Argument.*::new_pointer|^(std|core)::fmt::Pointer::", "addresses"),
    (r"::(expose_provenance|addr)$", "addresses"),
    (r"^(std|core)::sync::(atomic::|(poison::|nonpoison::)?(mutex::|rwlock::|condvar::)?(Mutex|RwLock|Condvar)\b|mpsc|mpmc|barrier|Barrier)", "state shared behind a reference"),
    (r"^libc::|^<asm>$", "foreign code"),
]
NET = re.compile(r"^ureq::(?!serde_json::)")
ITER = re.compile(r"^std::collections::(HashMap|HashSet)(::<.*>)?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|union|intersection|difference|symmetric_difference)$")
HASHT = re.compile(r"^\"?(&'?\w* ?(mut )?)*std::collections::Hash(Map|Set)<")
ORDERLESS = re.compile(r"::(any|all|count|sum|product|max|min|max_by|min_by|max_by_key|min_by_key|sort\w*)$|BTree")
LAZY = re.compile(r"^std::sync::(OnceLock|LazyLock|Once)\b|^std::sync::(once|lazy)")
CELLS = re.compile(r"Mutex|RwLock|RefCell|Cell<|Atomic|UnsafeCell|\*mut ")


def module(f):
    return os.path.relpath(f["file"], "/repo") if f["file"].startswith("/repo") else f["file"].split("/stacks/src/")[-1] if "/stacks/src/" in f["file"] else f["file"]


def src(x):
    return x.split("/stacks/src/")[-1]


def modules(poly):
    return sorted({src(f["file"]) for f in poly["fns"] if "/stacks/src/" in f["file"]})


def closures(poly):
    d = {}
    for f in poly["fns"]:
        for n, k in f["closures"]:
            d[n] = max(d.get(n, 0), k)
    return d


def run_effects(what, poly):
    """what: a source file, or 'statics', or 'unsafe'"""
    bad = []
    n = 0
    if what == "statics":
        rule = "no static of the crate can change, except constants computed once from nothing"
        clo = closures(poly)
        lazy = False
        for s in poly["statics"]:
            n += 1
            if s["mut"]:
                bad.append({"static": s["name"], "at": s["line"], "why": "mutable static"})
            elif not s["freeze"]:
                if LAZY.search(s["ty"]) and not CELLS.search(s["ty"]):
                    lazy = True
                else:
                    bad.append({"static": s["name"], "at": s["line"], "why": "static with interior mutability: " + s["ty"]})
        if lazy:
            for f in poly["fns"]:
                for c in f["callees"]:
                    if re.search(r"^std::sync::.*::(get_or_init|get_or_try_init|call_once|call_once_force)$", c["def"]) and any(clo.get(x, 0) for x in c.get("clos", [])):
                        bad.append({"function": f["name"], "at": c["line"], "why": "a static initialised from a caller's values"})
                    if re.search(r"^std::sync::OnceLock(::<.*>)?::(set|take|get_mut|try_insert)$", c["def"]):
                        bad.append({"function": f["name"], "at": c["line"], "why": "a static set by a caller"})
        for f in poly["fns"]:
            for s in f["statics"]:
                if s.startswith("thread_local"):
                    bad.append({"function": f["name"], "at": f["line"], "why": s})
    elif what == "unsafe":
        rule = "no unsafe block, function or foreign declaration in the crate"
        for u in poly["unsafe"]:
            n += 1
            if not u.startswith("unsafe impl"):
                bad.append({"why": u})
    else:
        rule = "no function of %s has effects or hidden inputs" % what
        for f in poly["fns"]:
            if src(f["file"]) != what:
                continue
            n += 1
            for c in f["callees"]:
                d = c["def"]
                for rx, w in DENY:
                    if re.search(rx, d):
                        bad.append({"function": f["name"], "at": c["line"], "calls": d, "why": w})
                if NET.search(d) and what != "rpc.rs":
                    bad.append({"function": f["name"], "at": c["line"], "calls": d, "why": "network"})
                it = ITER.search(d) or (d.endswith("IntoIterator::into_iter") and HASHT.search(c["self"]))
                if it and not any(ORDERLESS.search(x["def"]) for x in f["callees"]):
                    bad.append({"function": f["name"], "at": c["line"], "calls": d, "why": "order of a hash table"})
            for a in f["addr"]:
                bad.append({"function": f["name"], "at": f["line"], "why": "address turned into a number"})
    return {"impl": what, "rule": rule, "status": "violated" if bad else "holds", "pairs": n, "s": 0, "obligation": "%d definitions inspected" % n,
            "bad": bad[:10], "functions": [f["name"] for f in poly["fns"] if src(f["file"]) == what]}
