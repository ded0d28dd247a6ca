//! References for the convenience forms of the codec trait and for value accessors.
use stacks_rs::clarity::*;
use stacks_rs::transaction::*;
type R<T> = Result<T, stacks_rs::clarity::Error>;

macro_rules! codec {
    ($($t:ty, $l:ident, $em:ident, $h:ident, $hp:ident;)*) => { $(
        pub fn $l(x: &$t) -> R<usize> { match x.encode() { Ok(v) => Ok(v.len()), Err(e) => Err(e) } }
        pub fn $em(x: &$t) -> R<bool> { match x.encode() { Ok(v) => Ok(v.len() == 0), Err(e) => Err(e) } }
        pub fn $h(x: &$t) -> R<String> { match x.encode() { Ok(v) => Ok(stacks_rs::crypto::bytes_to_hex(v)), Err(e) => Err(e) } }
        pub fn $hp(x: &$t) -> R<String> { match x.encode() { Ok(v) => { let mut s = String::from("0x"); s.push_str(&stacks_rs::crypto::bytes_to_hex(v)); Ok(s) }, Err(e) => Err(e) } }
    )* }
}
codec! {
    Int, len_int, emp_int, hex_int, hexp_int;
    UInt, len_uint, emp_uint, hex_uint, hexp_uint;
    Buffer, len_buffer, emp_buffer, hex_buffer, hexp_buffer;
    True, len_true, emp_true, hex_true, hexp_true;
    False, len_false, emp_false, hex_false, hexp_false;
    PrincipalStandard, len_pstd, emp_pstd, hex_pstd, hexp_pstd;
    PrincipalContract, len_pcon, emp_pcon, hex_pcon, hexp_pcon;
    ResponseOk, len_ok, emp_ok, hex_ok, hexp_ok;
    ResponseErr, len_err, emp_err, hex_err, hexp_err;
    OptionalSome, len_some, emp_some, hex_some, hexp_some;
    OptionalNone, len_none, emp_none, hex_none, hexp_none;
    List, len_list, emp_list, hex_list, hexp_list;
    Tuple, len_tuple, emp_tuple, hex_tuple, hexp_tuple;
    StringAscii, len_ascii, emp_ascii, hex_ascii, hexp_ascii;
    StringUtf8, len_utf8, emp_utf8, hex_utf8, hexp_utf8;
    LengthPrefixedStr, len_lps, emp_lps, hex_lps, hexp_lps;
    FnArguments, len_fnargs, emp_fnargs, hex_fnargs, hexp_fnargs;
    TokenTransferPayload, len_ttp, emp_ttp, hex_ttp, hexp_ttp;
    ContractCallPayload, len_ccp, emp_ccp, hex_ccp, hexp_ccp;
    Box<dyn Payload>, len_bpl, emp_bpl, hex_bpl, hexp_bpl;
    Transaction, len_tx, emp_tx, hex_tx, hexp_tx;
    Auth, len_auth, emp_auth, hex_auth, hexp_auth;
    SpendingConditionStandard, len_scs, emp_scs, hex_scs, hexp_scs;
    SpendingConditionMultiSig, len_scm, emp_scm, hex_scm, hexp_scm;
    PostConditions, len_pcs, emp_pcs, hex_pcs, hexp_pcs;
    STXPostCondition, len_stxpc, emp_stxpc, hex_stxpc, hexp_stxpc;
    FungiblePostCondition, len_fpc, emp_fpc, hex_fpc, hexp_fpc;
    NonFungiblePostCondition, len_nfpc, emp_nfpc, hex_nfpc, hexp_nfpc;
    AssetInfo, len_asset, emp_asset, hex_asset, hexp_asset;
}
