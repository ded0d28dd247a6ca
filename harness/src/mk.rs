//! References for the construction macros, the networks and the builders.
use crate::{intr, HNet};
use secp256k1::SecretKey;
use stacks_rs::clarity::*;
use stacks_rs::crypto::c32::{Address, Mode};
use stacks_rs::transaction::*;
use std::str::FromStr;
type Bx = Box<dyn Clarity>;
type CR<T> = Result<T, stacks_rs::clarity::Error>;

pub fn mc_int(x: i128) -> Int { Int::new(x) }
pub fn mc_uint(x: u128) -> UInt { UInt::new(x) }
pub fn mc_buf(x: &[u8]) -> Buffer { Buffer::new(x.to_vec()) }
pub fn mc_buf0() -> Buffer { Buffer::new(vec![]) }
pub fn mc_true() -> True { True::new() }
pub fn mc_false() -> False { False::new() }
pub fn mc_none() -> OptionalNone { OptionalNone::new() }
pub fn mc_pstd(x: &str) -> PrincipalStandard { PrincipalStandard::new(String::from(x)) }
pub fn mc_pcon(x: &str, y: &str) -> PrincipalContract { PrincipalContract::new((String::from(x), String::from(y))) }
pub fn mc_ok(x: UInt) -> ResponseOk { ResponseOk::new(Box::new(x)) }
pub fn mc_err(x: UInt) -> ResponseErr { ResponseErr::new(Box::new(x)) }
pub fn mc_some(x: UInt) -> OptionalSome { OptionalSome::new(Box::new(x)) }
pub fn mc_ascii(x: &str) -> StringAscii { StringAscii::new(String::from(x)) }
pub fn mc_utf8(x: &str) -> StringUtf8 { StringUtf8::new(String::from(x)) }
pub fn mc_lps(x: &str) -> LengthPrefixedStr { LengthPrefixedStr::new(String::from(x)) }
pub fn mc_list0() -> List { List::new(vec![]) }
pub fn mc_tuple0() -> Tuple { Tuple::new(vec![]) }
pub fn mc_fnargs0() -> FnArguments { FnArguments::new(vec![]) }
fn four(a: Int, b: StringUtf8, c: List, d: True) -> Vec<Bx> {
    let mut v: Vec<Bx> = Vec::new();
    v.push(Box::new(a)); v.push(Box::new(b)); v.push(Box::new(c)); v.push(Box::new(d));
    v
}
pub fn mc_list(a: Int, b: StringUtf8, c: List, d: True) -> List { List::new(four(a, b, c, d)) }
pub fn mc_fnargs(a: Int, b: StringUtf8, c: List, d: True) -> FnArguments { FnArguments::new(four(a, b, c, d)) }
pub fn mc_tuple(k: &str, l: &str, m: &str, a: Int, b: StringUtf8, c: Tuple) -> Tuple {
    let mut v: Vec<(String, Bx)> = Vec::new();
    v.push((String::from(k), Box::new(a))); v.push((String::from(l), Box::new(b))); v.push((String::from(m), Box::new(c)));
    Tuple::new(v)
}
pub fn mc_pcs0() -> PostConditions { PostConditions::new(vec![]) }
pub fn mc_pcs1(p: PrincipalStandard, n: u64, c: ConditionCode) -> PostConditions { PostConditions::new(vec![mc_pc_stx(p, n, c)]) }
pub fn mc_pcs3(p: PrincipalStandard, n: u64, c: ConditionCode, q: PrincipalContract, m: u64, d: ConditionCode, i: AssetInfo, r: PrincipalStandard, e: ConditionCode, v: UInt, j: AssetInfo) -> PostConditions {
    let mut w: Vec<Box<dyn Condition>> = Vec::new();
    w.push(Box::new(STXPostCondition::new(p, n, c)));
    w.push(Box::new(FungiblePostCondition::new(q, m, d, i)));
    w.push(Box::new(NonFungiblePostCondition::new(r, v, e, j)));
    PostConditions::new(w)
}
pub fn mc_pc_stx(p: PrincipalStandard, n: u64, c: ConditionCode) -> Box<dyn Condition> { Box::new(STXPostCondition::new(p, n, c)) }
pub fn mc_pc_ft(p: PrincipalStandard, n: u64, c: ConditionCode, i: AssetInfo) -> Box<dyn Condition> { Box::new(FungiblePostCondition::new(p, n, c, i)) }
pub fn mc_pc_nft(p: PrincipalStandard, c: ConditionCode, v: UInt, i: AssetInfo) -> Box<dyn Condition> { Box::new(NonFungiblePostCondition::new(p, v, c, i)) }

macro_rules! nets { ($($v:ident, $i:ident, $u:literal, $n:literal, $m:literal, $a:ident, $b:ident, $c:ident, $d:ident;)*) => { $(
    pub fn $a() -> (TransactionVersion, ChainID, String) { (TransactionVersion::$v, ChainID::$i, String::from($u)) }
    pub fn $b() -> (TransactionVersion, ChainID, String) { $a() }
    pub fn $c() -> (TransactionVersion, ChainID, String) { $a() }
    pub fn $d() -> (u8, u32) { ($n, $m) }
)* } }
nets! {
    Mainnet, Mainnet, "https://api.mainnet.hiro.so", 0u8, 1u32, nw_main1, nw_main2, nw_main3, nw_main4;
    Testnet, Testnet, "https://api.testnet.hiro.so", 0x80u8, 0x80000000u32, nw_test1, nw_test2, nw_test3, nw_test4;
    Testnet, Testnet, "http://localhost:3999", 0x80u8, 0x80000000u32, nw_mock1, nw_mock2, nw_mock3, nw_mock4;
}
fn auth(k: SecretKey, fee: u64, nonce: u64) -> Auth {
    let pk = k.public_key(&secp256k1::Secp256k1::new());
    Auth::Standard(Box::new(SpendingConditionStandard::new(pk, fee, nonce, Mode::P2PKH)))
}
pub fn bt_min(r: PrincipalStandard, n: u64, k: SecretKey, w: HNet) -> Transaction {
    Transaction::new(w.v, w.c, auth(k, 0, 0), AnchorMode::Any, PostConditionMode::Allow, PostConditions::new(vec![]), Box::new(TokenTransferPayload::new(r, n, String::new())))
}
pub fn bt_full(r: PrincipalContract, n: u64, k: SecretKey, w: HNet, fee: u64, nonce: u64, am: AnchorMode, memo: String, pm: PostConditionMode, pcs: PostConditions) -> Transaction {
    Transaction::new(w.v, w.c, auth(k, fee, nonce), am, pm, pcs, Box::new(TokenTransferPayload::new(r, n, memo)))
}
pub fn bt_memo(r: PrincipalStandard, n: u64, k: SecretKey, w: StacksTestnet, memo: &str) -> Transaction {
    Transaction::new(w.version(), w.chain_id(), auth(k, 0, 0), AnchorMode::Any, PostConditionMode::Allow, PostConditions::new(vec![]), Box::new(TokenTransferPayload::new(r, n, String::from(memo))))
}
pub fn bt_plain(x: STXTokenTransfer<PrincipalStandard, HNet>) -> Transaction {
    intr::assume(!x.sponsored);
    Transaction::new(x.network.v, x.network.c, auth(x.sender, x.fee, x.nonce), x.anchor_mode, x.post_condition_mode, x.post_conditions, Box::new(TokenTransferPayload::new(x.recipient, x.amount, x.memo)))
}
pub fn bc_min(a: &str, c: &str, f: &str, g: FnArguments, k: SecretKey, w: HNet) -> CR<Transaction> {
    bc_full(String::from(a), String::from(c), String::from(f), g, k, w, 0, 0, AnchorMode::Any, PostConditionMode::Allow, PostConditions::new(vec![]))
}
pub fn bc_full(a: String, c: String, f: String, g: FnArguments, k: SecretKey, w: HNet, fee: u64, nonce: u64, am: AnchorMode, pm: PostConditionMode, pcs: PostConditions) -> CR<Transaction> {
    let a = match Address::from_str(&a) { Ok(x) => x, Err(_) => return Err(stacks_rs::clarity::Error::BadDowncast) };
    Ok(Transaction::new(w.v, w.c, auth(k, fee, nonce), am, pm, pcs, Box::new(ContractCallPayload::new(a, c, f, g))))
}
pub fn bc_plain(x: STXContractCall<HNet>) -> CR<Transaction> {
    intr::assume(!x.sponsored);
    bc_full(x.address, x.contract, x.fn_name, x.fn_args, x.sender, x.network, x.fee, x.nonce, x.anchor_mode, x.post_condition_mode, x.post_conditions)
}
pub fn mc_list_1(a0: Int) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); List::new(v) }
pub fn mc_fnargs_1(a0: Int) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); FnArguments::new(v) }
pub fn mc_tuple_1(k0: &str, a0: Int) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); Tuple::new(v) }
pub fn mc_list_2(a0: Int, a1: StringUtf8) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); List::new(v) }
pub fn mc_fnargs_2(a0: Int, a1: StringUtf8) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); FnArguments::new(v) }
pub fn mc_tuple_2(k0: &str, k1: &str, a0: Int, a1: StringUtf8) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); Tuple::new(v) }
pub fn mc_list_3(a0: Int, a1: StringUtf8, a2: List) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); List::new(v) }
pub fn mc_fnargs_3(a0: Int, a1: StringUtf8, a2: List) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); FnArguments::new(v) }
pub fn mc_tuple_3(k0: &str, k1: &str, k2: &str, a0: Int, a1: StringUtf8, a2: List) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); Tuple::new(v) }
pub fn mc_list_5(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); List::new(v) }
pub fn mc_fnargs_5(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); FnArguments::new(v) }
pub fn mc_tuple_5(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); v.push((String::from(k3), Box::new(a3))); v.push((String::from(k4), Box::new(a4))); Tuple::new(v) }
pub fn mc_list_6(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); List::new(v) }
pub fn mc_fnargs_6(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); FnArguments::new(v) }
pub fn mc_tuple_6(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); v.push((String::from(k3), Box::new(a3))); v.push((String::from(k4), Box::new(a4))); v.push((String::from(k5), Box::new(a5))); Tuple::new(v) }
pub fn mc_list_7(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); List::new(v) }
pub fn mc_fnargs_7(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); FnArguments::new(v) }
pub fn mc_tuple_7(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); v.push((String::from(k3), Box::new(a3))); v.push((String::from(k4), Box::new(a4))); v.push((String::from(k5), Box::new(a5))); v.push((String::from(k6), Box::new(a6))); Tuple::new(v) }
pub fn mc_list_8(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); v.push(Box::new(a7)); List::new(v) }
pub fn mc_fnargs_8(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); v.push(Box::new(a7)); FnArguments::new(v) }
pub fn mc_tuple_8(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, k7: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); v.push((String::from(k3), Box::new(a3))); v.push((String::from(k4), Box::new(a4))); v.push((String::from(k5), Box::new(a5))); v.push((String::from(k6), Box::new(a6))); v.push((String::from(k7), Box::new(a7))); Tuple::new(v) }
pub fn mc_list_9(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); v.push(Box::new(a7)); v.push(Box::new(a8)); List::new(v) }
pub fn mc_fnargs_9(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); v.push(Box::new(a7)); v.push(Box::new(a8)); FnArguments::new(v) }
pub fn mc_tuple_9(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, k7: &str, k8: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); v.push((String::from(k3), Box::new(a3))); v.push((String::from(k4), Box::new(a4))); v.push((String::from(k5), Box::new(a5))); v.push((String::from(k6), Box::new(a6))); v.push((String::from(k7), Box::new(a7))); v.push((String::from(k8), Box::new(a8))); Tuple::new(v) }
pub fn mc_list_10(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard, a9: False) -> List { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); v.push(Box::new(a7)); v.push(Box::new(a8)); v.push(Box::new(a9)); List::new(v) }
pub fn mc_fnargs_10(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard, a9: False) -> FnArguments { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(a0)); v.push(Box::new(a1)); v.push(Box::new(a2)); v.push(Box::new(a3)); v.push(Box::new(a4)); v.push(Box::new(a5)); v.push(Box::new(a6)); v.push(Box::new(a7)); v.push(Box::new(a8)); v.push(Box::new(a9)); FnArguments::new(v) }
pub fn mc_tuple_10(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, k7: &str, k8: &str, k9: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard, a9: False) -> Tuple { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from(k0), Box::new(a0))); v.push((String::from(k1), Box::new(a1))); v.push((String::from(k2), Box::new(a2))); v.push((String::from(k3), Box::new(a3))); v.push((String::from(k4), Box::new(a4))); v.push((String::from(k5), Box::new(a5))); v.push((String::from(k6), Box::new(a6))); v.push((String::from(k7), Box::new(a7))); v.push((String::from(k8), Box::new(a8))); v.push((String::from(k9), Box::new(a9))); Tuple::new(v) }
pub fn mc_pcs_f(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(FungiblePostCondition::new(p0, n0, c0, i0))); PostConditions::new(w) }
pub fn mc_pcs_ft(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(FungiblePostCondition::new(p0, n0, c0, i0))); PostConditions::new(w) }
pub fn mc_pcs_n(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(NonFungiblePostCondition::new(p0, v0, c0, i0))); PostConditions::new(w) }
pub fn mc_pcs_ss(p0: PrincipalStandard, n0: u64, c0: ConditionCode, p1: PrincipalStandard, n1: u64, c1: ConditionCode) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(STXPostCondition::new(p0, n0, c0))); w.push(Box::new(STXPostCondition::new(p1, n1, c1))); PostConditions::new(w) }
pub fn mc_pcs_fs(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo, p1: PrincipalStandard, n1: u64, c1: ConditionCode) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(FungiblePostCondition::new(p0, n0, c0, i0))); w.push(Box::new(STXPostCondition::new(p1, n1, c1))); PostConditions::new(w) }
pub fn mc_pcs_fst(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo, p1: PrincipalStandard, n1: u64, c1: ConditionCode) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(FungiblePostCondition::new(p0, n0, c0, i0))); w.push(Box::new(STXPostCondition::new(p1, n1, c1))); PostConditions::new(w) }
pub fn mc_pcs_nf(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(NonFungiblePostCondition::new(p0, v0, c0, i0))); w.push(Box::new(FungiblePostCondition::new(p1, n1, c1, i1))); PostConditions::new(w) }
pub fn mc_pcs_nn(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalStandard, v1: UInt, c1: ConditionCode, i1: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(NonFungiblePostCondition::new(p0, v0, c0, i0))); w.push(Box::new(NonFungiblePostCondition::new(p1, v1, c1, i1))); PostConditions::new(w) }
pub fn mc_pcs_fff(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalContract, n2: u64, c2: ConditionCode, i2: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(FungiblePostCondition::new(p0, n0, c0, i0))); w.push(Box::new(FungiblePostCondition::new(p1, n1, c1, i1))); w.push(Box::new(FungiblePostCondition::new(p2, n2, c2, i2))); PostConditions::new(w) }
pub fn mc_pcs_nfs(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalStandard, n2: u64, c2: ConditionCode) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(NonFungiblePostCondition::new(p0, v0, c0, i0))); w.push(Box::new(FungiblePostCondition::new(p1, n1, c1, i1))); w.push(Box::new(STXPostCondition::new(p2, n2, c2))); PostConditions::new(w) }
pub fn mc_pcs_nfst(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalStandard, n2: u64, c2: ConditionCode) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(NonFungiblePostCondition::new(p0, v0, c0, i0))); w.push(Box::new(FungiblePostCondition::new(p1, n1, c1, i1))); w.push(Box::new(STXPostCondition::new(p2, n2, c2))); PostConditions::new(w) }
pub fn mc_pcs_sfsn(p0: PrincipalStandard, n0: u64, c0: ConditionCode, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalStandard, n2: u64, c2: ConditionCode, p3: PrincipalStandard, v3: UInt, c3: ConditionCode, i3: AssetInfo) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(STXPostCondition::new(p0, n0, c0))); w.push(Box::new(FungiblePostCondition::new(p1, n1, c1, i1))); w.push(Box::new(STXPostCondition::new(p2, n2, c2))); w.push(Box::new(NonFungiblePostCondition::new(p3, v3, c3, i3))); PostConditions::new(w) }
pub fn mc_pcs_sssss(p0: PrincipalStandard, n0: u64, c0: ConditionCode, p1: PrincipalStandard, n1: u64, c1: ConditionCode, p2: PrincipalStandard, n2: u64, c2: ConditionCode, p3: PrincipalStandard, n3: u64, c3: ConditionCode, p4: PrincipalStandard, n4: u64, c4: ConditionCode) -> PostConditions { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(STXPostCondition::new(p0, n0, c0))); w.push(Box::new(STXPostCondition::new(p1, n1, c1))); w.push(Box::new(STXPostCondition::new(p2, n2, c2))); w.push(Box::new(STXPostCondition::new(p3, n3, c3))); w.push(Box::new(STXPostCondition::new(p4, n4, c4))); PostConditions::new(w) }
pub fn mc_nest1(x: u128, y: i128) -> Tuple { let mut l: Vec<Bx> = Vec::new(); l.push(Box::new(UInt::new(x))); l.push(Box::new(OptionalSome::new(Box::new(Int::new(y))))); let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from("a"), Box::new(List::new(l)))); v.push((String::from("b"), Box::new(ResponseErr::new(Box::new(True::new()))))); Tuple::new(v) }
pub fn mc_arith(x: u8, y: u8) -> (UInt, Int) { (UInt::new(x as u128 + y as u128), Int::new(x as i128 - y as i128)) }
pub fn mc_lit() -> (Buffer, StringAscii, PrincipalStandard, PrincipalContract, LengthPrefixedStr) { (Buffer::new(vec![1u8, 2, 0xff]), StringAscii::new(String::from("a \"b\"")), PrincipalStandard::new(String::from("ST")), PrincipalContract::new((String::from("SP"), String::from("c-d"))), LengthPrefixedStr::new(String::from("x"))) }
pub fn mc_ev_list() -> (List, u64) { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(UInt::new(1))); v.push(Box::new(UInt::new(2))); v.push(Box::new(UInt::new(3))); (List::new(v), 3) }
pub fn mc_ev_args() -> (FnArguments, u64) { let mut v: Vec<Bx> = Vec::new(); v.push(Box::new(UInt::new(1))); v.push(Box::new(UInt::new(2))); (FnArguments::new(v), 2) }
pub fn mc_ev_tuple() -> (Tuple, u64) { let mut v: Vec<(String, Bx)> = Vec::new(); v.push((String::from("b"), Box::new(UInt::new(1)))); v.push((String::from("a"), Box::new(UInt::new(2)))); (Tuple::new(v), 2) }
pub fn mc_ev_one() -> (Int, UInt, ResponseOk, ResponseErr, OptionalSome, u64) { (Int::new(1), UInt::new(2), ResponseOk::new(Box::new(UInt::new(3))), ResponseErr::new(Box::new(UInt::new(4))), OptionalSome::new(Box::new(UInt::new(5))), 5) }
pub fn mc_ev_text(s: &str) -> (StringAscii, StringUtf8, PrincipalStandard, PrincipalContract, LengthPrefixedStr, Buffer, u64) { (StringAscii::new(String::from(s)), StringUtf8::new(String::from(s)), PrincipalStandard::new(String::from(s)), PrincipalContract::new((String::from(s), String::from(s))), LengthPrefixedStr::new(String::from(s)), Buffer::new(s.as_bytes().to_vec()), 7) }
pub fn mc_ev_pcs(p: PrincipalStandard, q: PrincipalStandard, c: ConditionCode) -> (PostConditions, u64) { let mut w: Vec<Box<dyn Condition>> = Vec::new(); w.push(Box::new(STXPostCondition::new(p, 1, c))); w.push(Box::new(STXPostCondition::new(q, 2, c))); (PostConditions::new(w), 2) }
