"""Type-level witnesses: programs that must not type-check against the current tree, each
next to a twin that differs only in the offending place and must type-check.  Nothing is
run: the programs are only handed to the compiler's front end."""
import glob, os, re, shutil, subprocess, tempfile
import build

PRE = """#![allow(unused, dead_code, deprecated)]
extern crate stacks_rs;
use stacks_rs::clarity;
use stacks_rs::clarity::*;
use stacks_rs::crypto::*;
use stacks_rs::crypto::c32::{Address, Mode, Version};
use stacks_rs::transaction::*;
use stacks_rs::post_condition;
use stacks_rs::wallet::{StacksAccount, StacksWallet};
use stacks_rs::rpc::*;
use stacks_rs::derive::FromTuple;
use stacks_rs::{PublicKey, SecretKey};
fn any<T>() -> T { loop {} }
"""


def fn(body):
    return "fn w() { %s }\n" % body


W = []      # (name, what must be refused, twin that compiles, program that must not)
P = []      # (name, what must be accepted, control, program that must compile)


def no(name, what, ok, bad):
    W.append((name, what, ok, bad))


def _builder(kind, ty, sets, fin):
    def prog(ss, tail="let _ = b;"):
        return fn("let b = %s::builder()%s.build(); %s" % (ty, "".join(ss), tail))
    full = [".%s(%s)" % s for s in sets]
    for i, (n, _) in enumerate(sets):
        no("%s-without-%s" % (kind, n), "a %s built without setting its %s" % (kind, n.replace("_", " ")), prog(full), prog(full[:i] + full[i + 1:]))
        no("%s-twice-%s" % (kind, n), "a %s with its %s set twice" % (kind, n.replace("_", " ")), prog(full), prog(full + [full[i]]))
    for n, v in (("fee", "1"), ("nonce", "1"), ("post_condition_mode", "PostConditionMode::Deny")):
        no("%s-twice-%s" % (kind, n), "a %s with its %s set twice" % (kind, n.replace("_", " ")), prog(full + [".%s(%s)" % (n, v)]), prog(full + [".%s(%s)" % (n, v)] * 2))
    no("%s-reused" % kind, "a %s turned into a transaction twice" % kind, prog(full, "let t = b.transaction();"), prog(full, "let t = b.transaction(); let u = b.transaction();"))

    def swap(n, v):
        return prog([".%s(%s)" % (m, v if m == n else w) for m, w in sets])
    no("%s-key" % kind, "a public key given as the sender's secret key of a %s" % kind, prog(full), swap("sender", "any::<PublicKey>()"))
    no("%s-net" % kind, "a text given as the network of a %s" % kind, prog(full), swap("network", '"testnet"'))
    for n in ("fee", "nonce"):
        no("%s-%s-neg" % (kind, n), "a negative %s of a %s" % (n, kind), prog(full + [".%s(1)" % n]), prog(full + [".%s(-1)" % n]))
    return prog, full, swap


_t = [("recipient", 'clarity!(PrincipalStandard, "ST")'), ("amount", "1"), ("sender", "any::<SecretKey>()"), ("network", "StacksTestnet::new()")]
_p, _f, _s = _builder("transfer", "STXTokenTransfer", _t, "")
no("transfer-recipient", "a recipient of a transfer that is not a Clarity value", _p(_f), _s("recipient", '"ST"'))
no("transfer-amount-neg", "a negative amount of a transfer", _p(_f), _s("amount", "-1"))
no("transfer-amount-wide", "an amount of a transfer wider than 64 bits", _p(_f), _s("amount", "1u128"))
_c = [("address", '"ST"'), ("contract", '"c"'), ("fn_name", '"f"'), ("fn_args", "clarity!(FnArguments)"), ("sender", "any::<SecretKey>()"), ("network", "StacksTestnet::new()")]
_p, _f, _s = _builder("call", "STXContractCall", _c, "")
no("call-args", "arguments of a call that are not Clarity values", _p(_f), _s("fn_args", "vec![1u8]"))

for k, ok, bad, what in (
        ("uint-neg", "clarity!(UInt, 1)", "clarity!(UInt, -1)", "a negative unsigned integer"),
        ("int-text", "clarity!(Int, 1)", 'clarity!(Int, "1")', "an integer made of a text"),
        ("list", "clarity!(List, clarity!(Int, 1))", "clarity!(List, 1i128)", "a list element that is not a Clarity value"),
        ("tuple", 'clarity!(Tuple, ("a", clarity!(Int, 1)))', 'clarity!(Tuple, ("a", 1i128))', "a tuple member that is not a Clarity value"),
        ("ok", "clarity!(ResponseOk, clarity!(Int, 1))", "clarity!(ResponseOk, 1i128)", "a response of something that is not a Clarity value"),
        ("err", "clarity!(ResponseErr, clarity!(Int, 1))", "clarity!(ResponseErr, 1i128)", "a response of something that is not a Clarity value"),
        ("some", "clarity!(OptionalSome, clarity!(Int, 1))", "clarity!(OptionalSome, 1i128)", "an optional of something that is not a Clarity value"),
        ("args", "clarity!(FnArguments, clarity!(Int, 1))", "clarity!(FnArguments, 1i128)", "an argument that is not a Clarity value")):
    no("value-" + k, what, fn("let _ = %s;" % ok), fn("let _ = %s;" % bad))

_stx = 'post_condition!(STXCondition, clarity!(PrincipalStandard, "ST"), %s, ConditionCode::EQ)'
no("condition-neg", "a negative amount of a post-condition", fn("let _ = " + _stx % "1" + ";"), fn("let _ = " + _stx % "-1" + ";"))
no("condition-who", "a post-condition on something that is not a Clarity value", fn("let _ = " + _stx % "1" + ";"), fn('let _ = post_condition!(STXCondition, "ST", 1, ConditionCode::EQ);'))
no("address-hash", "an address of a digest that is not a 20-byte key hash", fn("let _ = Address::new(any::<Hash160>(), 22);"), fn("let _ = Address::new(any::<Sha256Hash>(), 22);"))
no("sign-public", "a transaction signed with a public key", fn("let t: Transaction = any(); let _ = t.sign(any::<SecretKey>());"), fn("let t: Transaction = any(); let _ = t.sign(any::<PublicKey>());"))
no("sign-consumed", "a transaction used after it was signed", fn("let t: Transaction = any(); let s = t.sign(any::<SecretKey>());"), fn("let t: Transaction = any(); let s = t.sign(any::<SecretKey>()); let _ = t.hash();"))
no("condition-key", "a spending condition of a secret key", fn("let _ = SpendingConditionStandard::new(any::<PublicKey>(), 0, 0, Mode::P2PKH);"), fn("let _ = SpendingConditionStandard::new(any::<SecretKey>(), 0, 0, Mode::P2PKH);"))

_d = "#[derive(FromTuple)]\n"
_dok = _d + 'struct S { #[stacks(key = "a")] a: i128 }\n'
for k, bad, what in (
        ("nokey", _d + "struct S { a: i128 }\n", "a derived conversion of a field without a key"),
        ("nokey2", _d + 'struct S { #[stacks(key = "a")] a: i128, b: u128 }\n', "a derived conversion with one field without a key"),
        ("unit", _d + "struct S;\n", "a derived conversion of a struct without fields"),
        ("tuple", _d + 'struct S(#[stacks(key = "a")] i128);\n', "a derived conversion of a struct with unnamed fields"),
        ("enum", _d + 'enum S { A { #[stacks(key = "a")] a: i128 } }\n', "a derived conversion of an enum"),
        ("u64", _d + 'struct S { #[stacks(key = "a")] a: u64 }\n', "a derived conversion of a field of unsupported type"),
        ("ref", _d + "struct S { #[stacks(key = \"a\")] a: &'static str }\n", "a derived conversion of a field of unsupported type"),
        ("arr", _d + 'struct S { #[stacks(key = "a")] a: [u8; 4] }\n', "a derived conversion of a field of unsupported type"),
        ("optu64", _d + 'struct S { #[stacks(key = "a")] a: Option<u64> }\n', "a derived conversion of a field of unsupported type"),
        ("vecu64", _d + 'struct S { #[stacks(key = "a")] a: Vec<u64> }\n', "a derived conversion of a field of unsupported type"),
        ("map", _d + 'struct S { #[stacks(key = "a")] a: std::collections::HashMap<String, i128> }\n', "a derived conversion of a field of unsupported type")):
    no("derive-" + k, what, _dok, bad)

for t in ("Box<dyn Clarity>", "Int", "UInt", "Buffer", "True", "False", "PrincipalStandard", "PrincipalContract", "ResponseOk", "ResponseErr", "OptionalSome",
          "OptionalNone", "List", "Tuple", "StringAscii", "StringUtf8", "FnArguments", "LengthPrefixedStr", "Box<dyn Condition>", "PostConditions",
          "STXPostCondition", "FungiblePostCondition", "NonFungiblePostCondition", "AssetInfo", "Address", "Hash160", "Sha256Hash", "DSha256Hash", "SignatureHash",
          "MessageSignature", "SpendingConditionStandard", "SpendingConditionMultiSig", "StacksRPC", "StacksMainnet", "StacksTestnet", "StacksMocknet"):
    P.append(("threads-" + re.sub(r"\W+", "-", t), "%s is not free to be copied, sent to and shared with other threads" % t,
              "fn w(x: %s) {}\n" % t, "fn is<T: Clone + Send + Sync + 'static>() {}\nfn w(x: %s) { is::<%s>(); }\n" % (t, t)))


def libs():
    tgt = os.environ.get("VP_TGT") or os.path.join(build.BUILD, "target")
    dirs = sorted({os.path.dirname(p) for x in ("rmeta", "so", "rlib") for p in glob.glob(tgt + "/debug/**/*." + x, recursive=True)})
    rm = sorted(glob.glob(tgt + "/debug/**/libstacks_rs-*.rmeta", recursive=True), key=os.path.getmtime)
    return dirs, rm[-1] if rm else None


def accepts(src):
    dirs, rm = libs()
    if rm is None:
        return None, "the library is not built"
    d = tempfile.mkdtemp(prefix="typew")
    try:
        p = os.path.join(d, "w.rs")
        open(p, "w").write(PRE + src)
        e = build.base_env()
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit", "metadata", "--out-dir", d, "--cap-lints", "allow",
                            "--extern", "stacks_rs=" + rm] + [a for x in dirs for a in ("-L", "dependency=" + x)] + [p], capture_output=True, text=True, env=e, cwd=d)
        er = [l for l in r.stderr.split("\n") if l.startswith("error")]
        return r.returncode == 0, (er[0] if er else r.stderr[:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(kind, name):
    _, what, a, b = next(x for x in (W if kind == "no" else P) if x[0] == name)
    r = {"rule": name, "impl": "program " + name, "what": what, "key": name}
    oka, ea = accepts(a)
    if not oka:
        return dict(r, status="undecided", why="the control program does not compile: " + str(ea))
    okb, eb = accepts(b)
    if kind == "no":
        if okb:
            return dict(r, status="violated", differs="accepted by the compiler: " + what, program=b)
        return dict(r, status="holds", s=eb)
    if not okb:
        return dict(r, status="violated", differs="refused by the compiler: " + what + ": " + str(eb), program=b)
    return dict(r, status="holds")
