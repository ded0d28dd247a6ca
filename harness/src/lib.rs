//! Analysis entry points: one monomorphic function per public operation of the
//! crate under analysis.  Nothing here is ever executed; the driver dumps the
//! MIR reachable from these functions and the analyser inspects it.
#![allow(dead_code, clippy::all, unused)]

pub mod intr;
pub mod models;
pub mod spec;
pub mod tx;
pub mod text;
pub mod conv;
pub mod api;
pub mod mk;
pub mod wal;
pub mod drv;
pub mod rp;
pub mod de;
pub mod witness;

use secp256k1::{PublicKey, SecretKey};
use stacks_rs::clarity::*;
use stacks_rs::crypto::c32::{Address, Mode, Version};
use stacks_rs::crypto::*;
use stacks_rs::transaction::*;

type CR<T> = Result<T, stacks_rs::clarity::Error>;
type TR<T> = Result<T, stacks_rs::transaction::Error>;

macro_rules! codec {
    ($($t:ty, $e:ident, $d:ident, $l:ident, $em:ident, $h:ident, $hp:ident;)*) => { $(
        pub fn $e(x: &$t) -> CR<Vec<u8>> { x.encode() }
        pub fn $d(b: &[u8]) -> CR<$t> { <$t as Codec>::decode(b) }
        pub fn $l(x: &$t) -> CR<usize> { Codec::len(x) }
        pub fn $em(x: &$t) -> CR<bool> { Codec::is_empty(x) }
        pub fn $h(x: &$t) -> CR<String> { x.hex() }
        pub fn $hp(x: &$t) -> CR<String> { x.hex_prefixed() }
    )* }
}
codec! {
    Int, enc_int, dec_int, len_int, emp_int, hex_int, hexp_int;
    UInt, enc_uint, dec_uint, len_uint, emp_uint, hex_uint, hexp_uint;
    Buffer, enc_buffer, dec_buffer, len_buffer, emp_buffer, hex_buffer, hexp_buffer;
    True, enc_true, dec_true, len_true, emp_true, hex_true, hexp_true;
    False, enc_false, dec_false, len_false, emp_false, hex_false, hexp_false;
    PrincipalStandard, enc_pstd, dec_pstd, len_pstd, emp_pstd, hex_pstd, hexp_pstd;
    PrincipalContract, enc_pcon, dec_pcon, len_pcon, emp_pcon, hex_pcon, hexp_pcon;
    ResponseOk, enc_ok, dec_ok, len_ok, emp_ok, hex_ok, hexp_ok;
    ResponseErr, enc_err, dec_err, len_err, emp_err, hex_err, hexp_err;
    OptionalSome, enc_some, dec_some, len_some, emp_some, hex_some, hexp_some;
    OptionalNone, enc_none, dec_none, len_none, emp_none, hex_none, hexp_none;
    List, enc_list, dec_list, len_list, emp_list, hex_list, hexp_list;
    Tuple, enc_tuple, dec_tuple, len_tuple, emp_tuple, hex_tuple, hexp_tuple;
    StringAscii, enc_ascii, dec_ascii, len_ascii, emp_ascii, hex_ascii, hexp_ascii;
    StringUtf8, enc_utf8, dec_utf8, len_utf8, emp_utf8, hex_utf8, hexp_utf8;
    LengthPrefixedStr, enc_lps, dec_lps, len_lps, emp_lps, hex_lps, hexp_lps;
    FnArguments, enc_fnargs, dec_fnargs, len_fnargs, emp_fnargs, hex_fnargs, hexp_fnargs;
    TokenTransferPayload, enc_ttp, dec_ttp, len_ttp, emp_ttp, hex_ttp, hexp_ttp;
    ContractCallPayload, enc_ccp, dec_ccp, len_ccp, emp_ccp, hex_ccp, hexp_ccp;
    Box<dyn Payload>, enc_bpl, dec_bpl, len_bpl, emp_bpl, hex_bpl, hexp_bpl;
}
macro_rules! enconly {
    ($($t:ty, $e:ident, $l:ident, $em:ident, $h:ident, $hp:ident;)*) => { $(
        pub fn $e(x: &$t) -> CR<Vec<u8>> { x.encode() }
        pub fn $l(x: &$t) -> CR<usize> { Codec::len(x) }
        pub fn $em(x: &$t) -> CR<bool> { Codec::is_empty(x) }
        pub fn $h(x: &$t) -> CR<String> { x.hex() }
        pub fn $hp(x: &$t) -> CR<String> { x.hex_prefixed() }
    )* }
}
enconly! {
    Transaction, enc_tx, len_tx, emp_tx, hex_tx, hexp_tx;
    Auth, enc_auth, len_auth, emp_auth, hex_auth, hexp_auth;
    SpendingConditionStandard, enc_scs, len_scs, emp_scs, hex_scs, hexp_scs;
    SpendingConditionMultiSig, enc_scm, len_scm, emp_scm, hex_scm, hexp_scm;
    PostConditions, enc_pcs, len_pcs, emp_pcs, hex_pcs, hexp_pcs;
    STXPostCondition, enc_stxpc, len_stxpc, emp_stxpc, hex_stxpc, hexp_stxpc;
    FungiblePostCondition, enc_fpc, len_fpc, emp_fpc, hex_fpc, hexp_fpc;
    NonFungiblePostCondition, enc_nfpc, len_nfpc, emp_nfpc, hex_nfpc, hexp_nfpc;
    AssetInfo, enc_asset, len_asset, emp_asset, hex_asset, hexp_asset;
}
pub fn dec_any(b: &[u8]) -> CR<Box<dyn Clarity>> { stacks_rs::clarity::decode_clarity_type(b) }
pub fn c32a(b: &[u8], v: u8) -> Result<String, stacks_rs::crypto::c32::Error> { c32_address(b, v) }
pub fn c32ad(s: &str) -> Result<(Vec<u8>, u8), stacks_rs::crypto::c32::Error> { c32_address_decode(s) }

// ---- transaction layer operations
type Scs = SpendingConditionStandard;
type Scm = SpendingConditionMultiSig;
type Sc = Box<dyn SpendingCondition>;
pub fn scs_new(pk: PublicKey, fee: u64, nonce: u64, mode: Mode) -> Scs { Scs::new(pk, fee, nonce, mode) }
pub fn scs_default() -> Scs { Scs::default() }
pub fn scs_verify(x: &Scs, h: SignatureHash, t: u8) -> TR<SignatureHash> { x.verify(h, t) }
pub fn scs_modify(mut x: Scs, m: Modification) -> (bool, Scs) { let r = x.modify(m).is_ok(); (r, x) }
pub fn scs_reset(mut x: Scs) -> Scs { x.reset(); x }
pub fn scs_get(x: &Scs) -> (u64, u64, Mode, u16, u16) { (x.fee(), x.nonce(), x.mode(), x.signatures(), x.req_signatures()) }
pub fn scs_set_fee(mut x: Scs, v: u64) -> Scs { x.set_fee(v); x }
pub fn scs_set_nonce(mut x: Scs, v: u64) -> Scs { x.set_nonce(v); x }
pub fn scm_new(pks: Vec<PublicKey>, fee: u64, nonce: u64, req: u8, mode: Mode) -> (Mode, u64, u64, Hash160, usize, u8) { tx::scm_obs(&Scm::new(pks, fee, nonce, req, mode)) }
pub fn scm_verify(x: &Scm, h: SignatureHash, t: u8) -> TR<SignatureHash> { x.verify(h, t) }
pub fn scm_modify(mut x: Scm, m: Modification) -> (bool, Scm) { let r = x.modify(m).is_ok(); (r, x) }
pub fn scm_reset(mut x: Scm) -> Scm { x.reset(); x }
pub fn scm_get(x: &Scm) -> (u64, u64, Mode, u16) { (x.fee(), x.nonce(), x.mode(), x.req_signatures()) }
pub fn scm_sigs(x: &Scm) -> u16 { x.signatures() }
pub fn scm_set_fee(mut x: Scm, v: u64) -> Scm { x.set_fee(v); x }
pub fn scm_set_nonce(mut x: Scm, v: u64) -> Scm { x.set_nonce(v); x }

// construction: what was given is what is encoded
pub fn ttp_mk(p: PrincipalContract, n: u64, m: String) -> CR<Vec<u8>> { TokenTransferPayload::new(p, n, m).encode() }
pub fn ttp_mks(p: PrincipalStandard, n: u64, m: &str) -> CR<Vec<u8>> { TokenTransferPayload::new(p, n, m).encode() }
pub fn ttp_obs(p: PrincipalStandard, n: u64, m: String) -> (u64, String) { let t = TokenTransferPayload::new(p, n, m); (t.amount, t.memo) }
pub fn ccp_mk(a: Address, c: String, f: String, g: FnArguments) -> CR<Vec<u8>> { ContractCallPayload::new(a, c, f, g).encode() }
pub fn ccp_mks(a: Address, c: &str, f: &str, g: FnArguments) -> CR<Vec<u8>> { ContractCallPayload::new(a, c, f, g).encode() }
pub fn stx_mk(p: PrincipalStandard, n: u64, c: ConditionCode) -> CR<Vec<u8>> { STXPostCondition::new(p, n, c).encode() }
pub fn stx_mkc(p: PrincipalContract, n: u64, c: ConditionCode) -> CR<Vec<u8>> { STXPostCondition::new(p, n, c).encode() }
pub fn asset_mk(a: String, b: String, d: String) -> CR<Vec<u8>> { AssetInfo::new(a, b, d).encode() }
pub fn asset_mks(a: &str, b: &str, d: &str) -> CR<Vec<u8>> { AssetInfo::new(a, b, d).encode() }
pub fn fpc_mk(p: PrincipalStandard, n: u64, c: ConditionCode, i: AssetInfo) -> CR<Vec<u8>> { FungiblePostCondition::new(p, n, c, i).encode() }
pub fn fpc_mkc(p: PrincipalContract, n: u64, c: ConditionCode, i: AssetInfo) -> CR<Vec<u8>> { FungiblePostCondition::new(p, n, c, i).encode() }
pub fn nfpc_mk(p: PrincipalStandard, v: StringUtf8, c: ConditionCode, i: AssetInfo) -> CR<Vec<u8>> { NonFungiblePostCondition::new(p, v, c, i).encode() }
pub fn nfpc_mkc(p: PrincipalContract, v: StringUtf8, c: ConditionCode, i: AssetInfo) -> CR<Vec<u8>> { NonFungiblePostCondition::new(p, v, c, i).encode() }
type Cn = Box<dyn Condition>;
pub fn pcs_new(v: Vec<Cn>) -> Vec<Cn> { PostConditions::new(v).into_value() }
pub fn pcs_ref(x: &PostConditions) -> &Vec<Cn> { x.value() }
pub fn pcs_val(x: PostConditions) -> Vec<Cn> { x.into_value() }
pub fn pcs_clone(x: &PostConditions) -> Vec<Cn> { x.clone().into_value() }
pub fn pcs_iter(x: PostConditions) -> Vec<Cn> { let mut v = Vec::new(); for c in x { v.push(c); } v }
pub fn pcs_default() -> Vec<Cn> { PostConditions::default().into_value() }

pub fn auth_verify(x: &Auth, h: SignatureHash) -> TR<()> { x.verify(h) }
pub fn auth_verify_origin(x: &Auth, h: SignatureHash) -> TR<SignatureHash> { x.verify_origin(h) }
pub fn auth_reset(x: Auth) -> Auth { x.reset() }
pub fn auth_set_fee(mut x: Auth, v: u64) -> Auth { x.set_fee(v); x }
pub fn auth_set_nonce(mut x: Auth, v: u64) -> Auth { x.set_nonce(v); x }
pub fn auth_set_sponsor(mut x: Auth, s: Sc) -> (bool, Auth) { let r = x.set_sponsor(s).is_ok(); (r, x) }
pub fn auth_is(x: &Auth) -> (bool, bool) { (x.is_standard(), x.is_sponsored()) }
pub fn auth_origin(x: &Auth) -> &dyn SpendingCondition { x.origin() }
pub fn auth_sponsor(x: &Auth) -> TR<&dyn SpendingCondition> { x.sponsor() }
pub fn auth_origin_mut(mut x: Auth, v: u64) -> Auth { x.origin_mut().set_fee(v); x }
pub fn auth_sponsor_mut(mut x: Auth, v: u64) -> (bool, Auth) {
    let r = match x.sponsor_mut() { Ok(s) => { s.set_fee(v); true } Err(_) => false };
    (r, x)
}

pub fn tx_new(v: TransactionVersion, c: ChainID, a: Auth, m: AnchorMode, pm: PostConditionMode, pc: PostConditions, p: Box<dyn Payload>) -> Transaction {
    Transaction::new(v, c, a, m, pm, pc, p)
}
pub fn tx_hash(x: &Transaction) -> TR<SignatureHash> { x.hash() }
pub fn tx_sign(x: Transaction, k: SecretKey) -> TR<Transaction> { x.sign(k) }
pub fn tx_set_fee(mut x: Transaction, v: u64) -> Transaction { x.set_fee(v); x }
pub fn tx_set_nonce(mut x: Transaction, v: u64) -> Transaction { x.set_nonce(v); x }
pub fn sg_new(x: Transaction) -> TR<TransactionSigner> { TransactionSigner::new(x) }
pub fn sg_new_sponsor(x: &Transaction, s: Sc) -> TR<TransactionSigner> { TransactionSigner::new_sponser(x, s) }
pub fn sg_sign_origin(mut x: TransactionSigner, k: SecretKey) -> (TR<()>, TransactionSigner) { let r = x.sign_origin(k); (r, x) }
pub fn sg_sign_sponsor(mut x: TransactionSigner, k: SecretKey) -> (TR<()>, TransactionSigner) { let r = x.sign_sponsor(k); (r, x) }
pub fn sg_append(mut x: TransactionSigner, k: PublicKey) -> (TR<()>, TransactionSigner) { let r = x.append_origin(k); (r, x) }
pub fn sg_tx(x: TransactionSigner) -> Transaction { x.transaction() }

// ---- crypto
pub fn h_presign(h: SignatureHash, t: u8, fee: u64, nonce: u64) -> SignatureHash { SignatureHash::make_presign_hash(h, t, fee, nonce) }
pub fn h_postsign(h: SignatureHash, s: MessageSignature) -> SignatureHash { SignatureHash::make_postsign_hash(h, s) }
pub fn h_sighash(b: &[u8]) -> SignatureHash { SignatureHash::from_slice(b) }
pub fn h_next_sig(h: SignatureHash, t: u8, fee: u64, nonce: u64, k: SecretKey) -> Result<(MessageSignature, SignatureHash), stacks_rs::crypto::hash::Error> { SignatureHash::next_signature(h, t, fee, nonce, k) }
pub fn h_next_ver(h: SignatureHash, t: u8, fee: u64, nonce: u64, s: MessageSignature) -> Result<(PublicKey, SignatureHash), stacks_rs::crypto::hash::Error> { SignatureHash::next_verify(h, t, fee, nonce, s) }
pub fn h_sha256(b: &[u8]) -> Sha256Hash { Sha256Hash::from_slice(b) }
pub fn h_dsha256(b: &[u8]) -> DSha256Hash { DSha256Hash::from_slice(b) }
pub fn h_sha512(b: &[u8]) -> Sha512_256Hash { Sha512_256Hash::from_slice(b) }
pub fn h_hash160(b: &[u8]) -> Hash160 { Hash160::from_slice(b) }
pub fn h_hash160_new(b: &[u8]) -> Hash160 { Hash160::new(b) }
pub fn h_msig_new(b: &[u8]) -> MessageSignature { MessageSignature::new(b) }
pub fn h_msig_slice(b: &[u8]) -> Result<MessageSignature, stacks_rs::crypto::hash::Error> { MessageSignature::from_slice(b) }
pub fn h_from_recov(r: secp256k1::ecdsa::RecoverableSignature) -> Result<MessageSignature, stacks_rs::crypto::hash::Error> { MessageSignature::from_recov(r) }
pub fn h_into_recov(m: MessageSignature) -> Result<secp256k1::ecdsa::RecoverableSignature, stacks_rs::crypto::hash::Error> { m.into_recov() }
pub fn h_p2pkh(b: &[u8]) -> Hash160 { stacks_rs::crypto::c32::hash_p2pkh(b) }
pub fn h_p2wpkh(b: &[u8]) -> Hash160 { stacks_rs::crypto::c32::hash_p2wpkh(b) }
pub fn h_p2sh(n: u8, k: &[PublicKey]) -> Hash160 { stacks_rs::crypto::c32::hash_p2sh(n, k) }
pub fn h_p2wsh(n: u8, k: &[PublicKey]) -> Hash160 { stacks_rs::crypto::c32::hash_p2wsh(n, k) }
macro_rules! hashacc { ($($t:ty, $n:literal, $a:ident, $b:ident, $c:ident, $d:ident, $e:ident, $f:ident;)*) => { $(
    pub fn $a(x: &$t) -> [u8; $n] { *x.as_bytes() }
    pub fn $b(x: $t) -> [u8; $n] { x.into_bytes() }
    pub fn $c(x: &$t) -> String { x.hex() }
    pub fn $d(x: [u8; $n]) -> $t { x.into() }
    pub fn $e(x: $t) -> Vec<u8> { x.into() }
    pub fn $f() -> $t { <$t>::default() }
)* } }
hashacc! {
    Sha256Hash, 32, ha_a1, ha_b1, ha_c1, ha_d1, ha_e1, ha_f1;
    DSha256Hash, 32, ha_a2, ha_b2, ha_c2, ha_d2, ha_e2, ha_f2;
    Sha512_256Hash, 32, ha_a3, ha_b3, ha_c3, ha_d3, ha_e3, ha_f3;
    Hash160, 20, ha_a4, ha_b4, ha_c4, ha_d4, ha_e4, ha_f4;
    MessageSignature, 65, ha_a5, ha_b5, ha_c5, ha_d5, ha_e5, ha_f5;
    SignatureHash, 32, ha_a6, ha_b6, ha_c6, ha_d6, ha_e6, ha_f6;
}
pub fn cs_sha256(x: &Sha256Hash) -> [u8; 4] { x.checksum() }
pub fn cs_dsha256(x: &DSha256Hash) -> [u8; 4] { x.checksum() }
pub fn cs_sha512(x: &Sha512_256Hash) -> [u8; 4] { x.checksum() }
pub fn cs_hash160(x: &Hash160) -> [u8; 4] { x.checksum() }

// ---- textual codecs
pub fn hex_dec(s: &str) -> Result<Vec<u8>, stacks_rs::crypto::hex::Error> { hex_to_bytes(s) }
pub fn hex_enc(b: &[u8]) -> String { bytes_to_hex(b) }
pub fn b58_enc(b: &[u8]) -> String { b58_encode(b) }
pub fn b58_dec(s: &str) -> Result<Vec<u8>, stacks_rs::crypto::b58::Error> { b58_decode(s) }
pub fn b58c_enc(b: &[u8], v: u8) -> String { base58check_encode(b, v) }
pub fn b58c_dec(s: &str) -> Result<(Vec<u8>, u8), stacks_rs::crypto::b58::Error> { base58check_decode(s) }
pub fn c32_enc(b: &[u8]) -> Result<String, stacks_rs::crypto::c32::Error> { c32_encode(b) }
pub fn c32_dec(s: &str) -> Result<Vec<u8>, stacks_rs::crypto::c32::Error> { c32_decode(s) }
pub fn c32c_enc(b: &[u8], v: u8) -> Result<String, stacks_rs::crypto::c32::Error> { c32check_encode(b, v) }
pub fn c32c_dec(s: &str) -> Result<(Vec<u8>, u8), stacks_rs::crypto::c32::Error> { c32check_decode(s) }
pub fn c32a_enc(b: &[u8], v: u8) -> Result<String, stacks_rs::crypto::c32::Error> { c32_address(b, v) }
pub fn c32a_dec(s: &str) -> Result<(Vec<u8>, u8), stacks_rs::crypto::c32::Error> { c32_address_decode(s) }
pub fn addr_new(h: Hash160, v: u8) -> (Hash160, u8) { let a = Address::new(h, v); (a.hash, a.version) }
pub fn addr_parse(s: &str) -> Result<(Hash160, u8), stacks_rs::crypto::c32::Error> { s.parse::<Address>().map(|a| (a.hash, a.version)) }

// ---- values: construction, access, conversion, copies, iteration, printing, casts
type Bx = Box<dyn Clarity>;
macro_rules! vals {
    ($($t:ident, $v:ty, $nv:ident, $rv:ident, $iv:ident, $cl:ident, $ds:ident, $eq:ident, $id:ident;)*) => { $(
        pub fn $nv(v: $v) -> $v { $t::new(v).into_value() }
        pub fn $rv(x: &$t) -> &$v { x.value() }
        pub fn $iv(x: $t) -> $v { x.into_value() }
        pub fn $cl(x: &$t) -> $v { x.clone().into_value() }
        pub fn $ds(x: &$t) -> String { x.to_string() }
        pub fn $eq(x: &$t, y: &$t) -> bool { x == y }
        pub fn $id() -> u8 { <$t as Ident>::id() }
    )* }
}
vals! {
    Int, i128, nv_int, rv_int, iv_int, cl_int, ds_int, eq_int, id_int;
    UInt, u128, nv_uint, rv_uint, iv_uint, cl_uint, ds_uint, eq_uint, id_uint;
    Buffer, Vec<u8>, nv_buffer, rv_buffer, iv_buffer, cl_buffer, ds_buffer, eq_buffer, id_buffer;
    PrincipalStandard, String, nv_pstd, rv_pstd, iv_pstd, cl_pstd, ds_pstd, eq_pstd, id_pstd;
    PrincipalContract, (String, String), nv_pcon, rv_pcon, iv_pcon, cl_pcon, ds_pcon, eq_pcon, id_pcon;
    ResponseOk, Bx, nv_ok, rv_ok, iv_ok, cl_ok, ds_ok, eq_ok, id_ok;
    ResponseErr, Bx, nv_err, rv_err, iv_err, cl_err, ds_err, eq_err, id_err;
    OptionalSome, Bx, nv_some, rv_some, iv_some, cl_some, ds_some, eq_some, id_some;
    List, Vec<Bx>, nv_list, rv_list, iv_list, cl_list, ds_list, eq_list, id_list;
    Tuple, Vec<(String, Bx)>, nv_tuple, rv_tuple, iv_tuple, cl_tuple, ds_tuple, eq_tuple, id_tuple;
    StringAscii, String, nv_ascii, rv_ascii, iv_ascii, cl_ascii, ds_ascii, eq_ascii, id_ascii;
    StringUtf8, String, nv_utf8, rv_utf8, iv_utf8, cl_utf8, ds_utf8, eq_utf8, id_utf8;
    LengthPrefixedStr, String, nv_lps, rv_lps, iv_lps, cl_lps, ds_lps, eq_lps, id_lps;
    FnArguments, Vec<Bx>, nv_fnargs, rv_fnargs, iv_fnargs, cl_fnargs, ds_fnargs, eq_fnargs, id_fnargs;
}
macro_rules! units {
    ($($t:ident, $v:ty, $nv:ident, $dv:ident, $rv:ident, $iv:ident, $cl:ident, $ds:ident, $eq:ident, $id:ident;)*) => { $(
        pub fn $nv() -> $v { $t::new().into_value() }
        pub fn $dv() -> $v { $t::default().into_value() }
        pub fn $rv(x: &$t) -> &$v { x.value() }
        pub fn $iv(x: $t) -> $v { x.into_value() }
        pub fn $cl(x: &$t) -> $v { x.clone().into_value() }
        pub fn $ds(x: &$t) -> String { x.to_string() }
        pub fn $eq(x: &$t, y: &$t) -> bool { x == y }
        pub fn $id() -> u8 { <$t as Ident>::id() }
    )* }
}
units! {
    True, bool, nv_true, dv_true, rv_true, iv_true, cl_true, ds_true, eq_true, id_true;
    False, bool, nv_false, dv_false, rv_false, iv_false, cl_false, ds_false, eq_false, id_false;
    OptionalNone, Option<()>, nv_none, dv_none, rv_none, iv_none, cl_none, ds_none, eq_none, id_none;
}
pub fn cv_int(x: i128) -> i128 { Int::from(x).into() }
pub fn cv_int_in(x: i128) -> i128 { Int::from(x).into_value() }
pub fn cv_int_out(x: Int) -> i128 { x.into() }
pub fn cv_uint_in(x: u128) -> u128 { UInt::from(x).into_value() }
pub fn cv_uint_out(x: UInt) -> u128 { x.into() }
pub fn cv_buf_vec(x: Vec<u8>) -> Vec<u8> { Buffer::from(x).into_value() }
pub fn cv_buf_slice(x: &[u8]) -> Vec<u8> { Buffer::from(x).into_value() }
pub fn cv_buf_out(x: Buffer) -> Vec<u8> { x.into() }
pub fn cv_pstd_str(x: &str) -> String { PrincipalStandard::from(x).into_value() }
pub fn cv_pstd_string(x: String) -> String { PrincipalStandard::from(x).into_value() }
pub fn cv_pstd_out(x: PrincipalStandard) -> String { x.into() }
pub fn cv_pcon_str(a: &str, b: &str) -> (String, String) { PrincipalContract::from((a, b)).into_value() }
pub fn cv_pcon_string(a: String, b: String) -> (String, String) { PrincipalContract::from((a, b)).into_value() }
pub fn cv_lps_str(x: &str) -> String { LengthPrefixedStr::from(x).into_value() }
pub fn cv_lps_string(x: String) -> String { LengthPrefixedStr::from(x).into_value() }
pub fn it_buf(x: Buffer) -> Vec<u8> { let mut v = vec![]; for b in x { v.push(b); } v }
pub fn it_list(x: List) -> Vec<Bx> { let mut v = vec![]; for b in x { v.push(b); } v }
pub fn it_tuple(x: Tuple) -> Vec<(String, Bx)> { let mut v = vec![]; for b in x { v.push(b); } v }
pub fn it_fnargs(x: FnArguments) -> Vec<Bx> { let mut v = vec![]; for b in x { v.push(b); } v }
macro_rules! casts { ($($t:ty, $a:ident, $b:ident, $c:ident, $d:ident, $e:ident, $f:ident, $g:ident, $h:ident;)*) => { $(
    pub fn $a(x: Bx) -> Option<$t> { x.cast::<$t>().ok() }
    pub fn $b(x: &Bx) -> Option<&$t> { x.cast_as::<$t>().ok() }
    pub fn $c(x: ResponseOk) -> Option<$t> { x.cast::<$t>().ok() }
    pub fn $d(x: &ResponseOk) -> Option<&$t> { x.cast_as::<$t>().ok() }
    pub fn $e(x: ResponseErr) -> Option<$t> { x.cast::<$t>().ok() }
    pub fn $f(x: &ResponseErr) -> Option<&$t> { x.cast_as::<$t>().ok() }
    pub fn $g(x: OptionalSome) -> Option<$t> { x.cast::<$t>().ok() }
    pub fn $h(x: &OptionalSome) -> Option<&$t> { x.cast_as::<$t>().ok() }
)* } }
casts! {
    Int, ca_int1, ca_int2, ca_int3, ca_int4, ca_int5, ca_int6, ca_int7, ca_int8;
    UInt, ca_uint1, ca_uint2, ca_uint3, ca_uint4, ca_uint5, ca_uint6, ca_uint7, ca_uint8;
    List, ca_list1, ca_list2, ca_list3, ca_list4, ca_list5, ca_list6, ca_list7, ca_list8;
    ResponseOk, ca_ok1, ca_ok2, ca_ok3, ca_ok4, ca_ok5, ca_ok6, ca_ok7, ca_ok8;
    True, ca_true1, ca_true2, ca_true3, ca_true4, ca_true5, ca_true6, ca_true7, ca_true8;
    False, ca_false1, ca_false2, ca_false3, ca_false4, ca_false5, ca_false6, ca_false7, ca_false8;
    Buffer, ca_buf1, ca_buf2, ca_buf3, ca_buf4, ca_buf5, ca_buf6, ca_buf7, ca_buf8;
    PrincipalStandard, ca_std1, ca_std2, ca_std3, ca_std4, ca_std5, ca_std6, ca_std7, ca_std8;
    PrincipalContract, ca_con1, ca_con2, ca_con3, ca_con4, ca_con5, ca_con6, ca_con7, ca_con8;
    ResponseErr, ca_err1, ca_err2, ca_err3, ca_err4, ca_err5, ca_err6, ca_err7, ca_err8;
    OptionalSome, ca_some1, ca_some2, ca_some3, ca_some4, ca_some5, ca_some6, ca_some7, ca_some8;
    OptionalNone, ca_none1, ca_none2, ca_none3, ca_none4, ca_none5, ca_none6, ca_none7, ca_none8;
    Tuple, ca_tup1, ca_tup2, ca_tup3, ca_tup4, ca_tup5, ca_tup6, ca_tup7, ca_tup8;
    StringAscii, ca_ascii1, ca_ascii2, ca_ascii3, ca_ascii4, ca_ascii5, ca_ascii6, ca_ascii7, ca_ascii8;
    StringUtf8, ca_utf81, ca_utf82, ca_utf83, ca_utf84, ca_utf85, ca_utf86, ca_utf87, ca_utf88;
    LengthPrefixedStr, ca_lps1, ca_lps2, ca_lps3, ca_lps4, ca_lps5, ca_lps6, ca_lps7, ca_lps8;
    FnArguments, ca_fna1, ca_fna2, ca_fna3, ca_fna4, ca_fna5, ca_fna6, ca_fna7, ca_fna8;
}
pub fn tu_get(x: &Tuple, k: &str) -> Option<Bx> { x.get(k) }
pub fn tu_get_string(x: &Tuple, k: String) -> Option<Bx> { x.get(k) }
pub fn tu_get_mut(mut x: Tuple, k: &str, v: Bx) -> (bool, Tuple) { let r = match x.get_mut(k) { Some(p) => { *p = v; true } None => false }; (r, x) }
pub fn tu_insert(mut x: Tuple, k: String, v: Int) -> Vec<(String, Bx)> { x.insert(k, v); x.into_value() }
pub fn tu_remove(mut x: Tuple, k: &str) -> (Option<Bx>, Vec<(String, Bx)>) { let r = x.remove(k); (r, x.into_value()) }
pub fn tu_keys(x: &Tuple) -> Vec<String> { let mut v = vec![]; for k in x.keys() { v.push(k.clone()); } v }
pub fn tu_values(x: &Tuple) -> Vec<&Bx> { let mut v = vec![]; for k in x.values() { v.push(k); } v }
// ---- macros
use stacks_rs::{clarity, post_condition};
pub fn mc_int(x: i128) -> Int { clarity!(Int, x) }
pub fn mc_uint(x: u128) -> UInt { clarity!(UInt, x) }
pub fn mc_buf(x: &[u8]) -> Buffer { clarity!(Buffer, x) }
pub fn mc_buf0() -> Buffer { clarity!(Buffer) }
pub fn mc_true() -> True { clarity!(True) }
pub fn mc_false() -> False { clarity!(False) }
pub fn mc_none() -> OptionalNone { clarity!(OptionalNone) }
pub fn mc_pstd(x: &str) -> PrincipalStandard { clarity!(PrincipalStandard, x) }
pub fn mc_pcon(x: &str, y: &str) -> PrincipalContract { clarity!(PrincipalContract, x, y) }
pub fn mc_ok(x: UInt) -> ResponseOk { clarity!(ResponseOk, x) }
pub fn mc_err(x: UInt) -> ResponseErr { clarity!(ResponseErr, x) }
pub fn mc_some(x: UInt) -> OptionalSome { clarity!(OptionalSome, x) }
pub fn mc_ascii(x: &str) -> StringAscii { clarity!(StringAscii, x) }
pub fn mc_utf8(x: &str) -> StringUtf8 { clarity!(StringUtf8, x) }
pub fn mc_lps(x: &str) -> LengthPrefixedStr { clarity!(LengthPrefixedStr, x) }
pub fn mc_list0() -> List { clarity!(List) }
pub fn mc_tuple0() -> Tuple { clarity!(Tuple) }
pub fn mc_fnargs0() -> FnArguments { clarity!(FnArguments) }
pub fn mc_list(a: Int, b: StringUtf8, c: List, d: True) -> List { clarity!(List, a, b, c, d) }
pub fn mc_fnargs(a: Int, b: StringUtf8, c: List, d: True) -> FnArguments { clarity!(FnArguments, a, b, c, d) }
pub fn mc_tuple(k: &str, l: &str, m: &str, a: Int, b: StringUtf8, c: Tuple) -> Tuple { clarity!(Tuple, (k, a), (l, b), (m, c)) }
pub fn mc_pcs0() -> PostConditions { post_condition!() }
pub fn mc_pcs1(p: PrincipalStandard, n: u64, c: ConditionCode) -> PostConditions { post_condition!((STXCondition, p, n, c)) }
pub fn mc_pcs3(p: PrincipalStandard, n: u64, c: ConditionCode, q: PrincipalContract, m: u64, d: ConditionCode, i: AssetInfo, r: PrincipalStandard, e: ConditionCode, v: UInt, j: AssetInfo) -> PostConditions {
    post_condition!((STXCondition, p, n, c), (FungibleCondition, q, m, d, i), (NonFungibleCondition, r, v, e, j))
}
pub fn mc_pc_stx(p: PrincipalStandard, n: u64, c: ConditionCode) -> Box<dyn Condition> { post_condition!(STXCondition, p, n, c) }
pub fn mc_pc_ft(p: PrincipalStandard, n: u64, c: ConditionCode, i: AssetInfo) -> Box<dyn Condition> { post_condition!(FungibleCondition, p, n, c, i) }
pub fn mc_pc_nft(p: PrincipalStandard, c: ConditionCode, v: UInt, i: AssetInfo) -> Box<dyn Condition> { post_condition!(NonFungibleCondition, p, v, c, i) }
pub fn mc_list_1(a0: Int) -> List { clarity!(List, a0) }
pub fn mc_fnargs_1(a0: Int) -> FnArguments { clarity!(FnArguments, a0) }
pub fn mc_tuple_1(k0: &str, a0: Int) -> Tuple { clarity!(Tuple, (k0, a0)) }
pub fn mc_list_2(a0: Int, a1: StringUtf8) -> List { clarity!(List, a0, a1) }
pub fn mc_fnargs_2(a0: Int, a1: StringUtf8) -> FnArguments { clarity!(FnArguments, a0, a1) }
pub fn mc_tuple_2(k0: &str, k1: &str, a0: Int, a1: StringUtf8) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1)) }
pub fn mc_list_3(a0: Int, a1: StringUtf8, a2: List) -> List { clarity!(List, a0, a1, a2) }
pub fn mc_fnargs_3(a0: Int, a1: StringUtf8, a2: List) -> FnArguments { clarity!(FnArguments, a0, a1, a2) }
pub fn mc_tuple_3(k0: &str, k1: &str, k2: &str, a0: Int, a1: StringUtf8, a2: List) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2)) }
pub fn mc_list_5(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt) -> List { clarity!(List, a0, a1, a2, a3, a4) }
pub fn mc_fnargs_5(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt) -> FnArguments { clarity!(FnArguments, a0, a1, a2, a3, a4) }
pub fn mc_tuple_5(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2), (k3, a3), (k4, a4)) }
pub fn mc_list_6(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer) -> List { clarity!(List, a0, a1, a2, a3, a4, a5) }
pub fn mc_fnargs_6(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer) -> FnArguments { clarity!(FnArguments, a0, a1, a2, a3, a4, a5) }
pub fn mc_tuple_6(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2), (k3, a3), (k4, a4), (k5, a5)) }
pub fn mc_list_7(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone) -> List { clarity!(List, a0, a1, a2, a3, a4, a5, a6) }
pub fn mc_fnargs_7(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone) -> FnArguments { clarity!(FnArguments, a0, a1, a2, a3, a4, a5, a6) }
pub fn mc_tuple_7(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2), (k3, a3), (k4, a4), (k5, a5), (k6, a6)) }
pub fn mc_list_8(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple) -> List { clarity!(List, a0, a1, a2, a3, a4, a5, a6, a7) }
pub fn mc_fnargs_8(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple) -> FnArguments { clarity!(FnArguments, a0, a1, a2, a3, a4, a5, a6, a7) }
pub fn mc_tuple_8(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, k7: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2), (k3, a3), (k4, a4), (k5, a5), (k6, a6), (k7, a7)) }
pub fn mc_list_9(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard) -> List { clarity!(List, a0, a1, a2, a3, a4, a5, a6, a7, a8) }
pub fn mc_fnargs_9(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard) -> FnArguments { clarity!(FnArguments, a0, a1, a2, a3, a4, a5, a6, a7, a8) }
pub fn mc_tuple_9(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, k7: &str, k8: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2), (k3, a3), (k4, a4), (k5, a5), (k6, a6), (k7, a7), (k8, a8)) }
pub fn mc_list_10(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard, a9: False) -> List { clarity!(List, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) }
pub fn mc_fnargs_10(a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard, a9: False) -> FnArguments { clarity!(FnArguments, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) }
pub fn mc_tuple_10(k0: &str, k1: &str, k2: &str, k3: &str, k4: &str, k5: &str, k6: &str, k7: &str, k8: &str, k9: &str, a0: Int, a1: StringUtf8, a2: List, a3: True, a4: UInt, a5: Buffer, a6: OptionalNone, a7: Tuple, a8: PrincipalStandard, a9: False) -> Tuple { clarity!(Tuple, (k0, a0), (k1, a1), (k2, a2), (k3, a3), (k4, a4), (k5, a5), (k6, a6), (k7, a7), (k8, a8), (k9, a9)) }
pub fn mc_pcs_f(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo) -> PostConditions { post_condition!((FungibleCondition, p0, n0, c0, i0)) }
pub fn mc_pcs_ft(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo) -> PostConditions { post_condition!((FungibleCondition, p0, n0, c0, i0),) }
pub fn mc_pcs_n(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo) -> PostConditions { post_condition!((NonFungibleCondition, p0, v0, c0, i0)) }
pub fn mc_pcs_ss(p0: PrincipalStandard, n0: u64, c0: ConditionCode, p1: PrincipalStandard, n1: u64, c1: ConditionCode) -> PostConditions { post_condition!((STXCondition, p0, n0, c0), (STXCondition, p1, n1, c1)) }
pub fn mc_pcs_fs(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo, p1: PrincipalStandard, n1: u64, c1: ConditionCode) -> PostConditions { post_condition!((FungibleCondition, p0, n0, c0, i0), (STXCondition, p1, n1, c1)) }
pub fn mc_pcs_fst(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo, p1: PrincipalStandard, n1: u64, c1: ConditionCode) -> PostConditions { post_condition!((FungibleCondition, p0, n0, c0, i0), (STXCondition, p1, n1, c1),) }
pub fn mc_pcs_nf(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo) -> PostConditions { post_condition!((NonFungibleCondition, p0, v0, c0, i0), (FungibleCondition, p1, n1, c1, i1)) }
pub fn mc_pcs_nn(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalStandard, v1: UInt, c1: ConditionCode, i1: AssetInfo) -> PostConditions { post_condition!((NonFungibleCondition, p0, v0, c0, i0), (NonFungibleCondition, p1, v1, c1, i1)) }
pub fn mc_pcs_fff(p0: PrincipalContract, n0: u64, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalContract, n2: u64, c2: ConditionCode, i2: AssetInfo) -> PostConditions { post_condition!((FungibleCondition, p0, n0, c0, i0), (FungibleCondition, p1, n1, c1, i1), (FungibleCondition, p2, n2, c2, i2)) }
pub fn mc_pcs_nfs(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalStandard, n2: u64, c2: ConditionCode) -> PostConditions { post_condition!((NonFungibleCondition, p0, v0, c0, i0), (FungibleCondition, p1, n1, c1, i1), (STXCondition, p2, n2, c2)) }
pub fn mc_pcs_nfst(p0: PrincipalStandard, v0: UInt, c0: ConditionCode, i0: AssetInfo, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalStandard, n2: u64, c2: ConditionCode) -> PostConditions { post_condition!((NonFungibleCondition, p0, v0, c0, i0), (FungibleCondition, p1, n1, c1, i1), (STXCondition, p2, n2, c2),) }
pub fn mc_pcs_sfsn(p0: PrincipalStandard, n0: u64, c0: ConditionCode, p1: PrincipalContract, n1: u64, c1: ConditionCode, i1: AssetInfo, p2: PrincipalStandard, n2: u64, c2: ConditionCode, p3: PrincipalStandard, v3: UInt, c3: ConditionCode, i3: AssetInfo) -> PostConditions { post_condition!((STXCondition, p0, n0, c0), (FungibleCondition, p1, n1, c1, i1), (STXCondition, p2, n2, c2), (NonFungibleCondition, p3, v3, c3, i3)) }
pub fn mc_pcs_sssss(p0: PrincipalStandard, n0: u64, c0: ConditionCode, p1: PrincipalStandard, n1: u64, c1: ConditionCode, p2: PrincipalStandard, n2: u64, c2: ConditionCode, p3: PrincipalStandard, n3: u64, c3: ConditionCode, p4: PrincipalStandard, n4: u64, c4: ConditionCode) -> PostConditions { post_condition!((STXCondition, p0, n0, c0), (STXCondition, p1, n1, c1), (STXCondition, p2, n2, c2), (STXCondition, p3, n3, c3), (STXCondition, p4, n4, c4)) }
fn step(n: &mut u64) -> u128 { *n += 1; *n as u128 }
fn same<'a>(s: &'a str, n: &mut u64) -> &'a str { *n += 1; s }
pub fn mc_nest1(x: u128, y: i128) -> Tuple { clarity!(Tuple, ("a", clarity!(List, clarity!(UInt, x), clarity!(OptionalSome, clarity!(Int, y)))), ("b", clarity!(ResponseErr, clarity!(True)))) }
pub fn mc_arith(x: u8, y: u8) -> (UInt, Int) { (clarity!(UInt, x as u128 + y as u128), clarity!(Int, x as i128 - y as i128)) }
pub fn mc_lit() -> (Buffer, StringAscii, PrincipalStandard, PrincipalContract, LengthPrefixedStr) { (clarity!(Buffer, [1u8, 2, 0xff]), clarity!(StringAscii, "a \"b\""), clarity!(PrincipalStandard, "ST"), clarity!(PrincipalContract, "SP", "c-d"), clarity!(LengthPrefixedStr, String::from("x"))) }
pub fn mc_ev_list() -> (List, u64) { let mut n = 0u64; let l = clarity!(List, clarity!(UInt, step(&mut n)), clarity!(UInt, step(&mut n)), clarity!(UInt, step(&mut n))); (l, n) }
pub fn mc_ev_args() -> (FnArguments, u64) { let mut n = 0u64; let l = clarity!(FnArguments, clarity!(UInt, step(&mut n)), clarity!(UInt, step(&mut n))); (l, n) }
pub fn mc_ev_tuple() -> (Tuple, u64) { let mut n = 0u64; let l = clarity!(Tuple, ("b", clarity!(UInt, step(&mut n))), ("a", clarity!(UInt, step(&mut n)))); (l, n) }
pub fn mc_ev_one() -> (Int, UInt, ResponseOk, ResponseErr, OptionalSome, u64) { let mut n = 0u64; let a = clarity!(Int, step(&mut n) as i128); let b = clarity!(UInt, step(&mut n)); let c = clarity!(ResponseOk, UInt::new(step(&mut n))); let d = clarity!(ResponseErr, UInt::new(step(&mut n))); let e = clarity!(OptionalSome, UInt::new(step(&mut n))); (a, b, c, d, e, n) }
pub fn mc_ev_text(s: &str) -> (StringAscii, StringUtf8, PrincipalStandard, PrincipalContract, LengthPrefixedStr, Buffer, u64) { let mut n = 0u64; let a = clarity!(StringAscii, same(s, &mut n)); let b = clarity!(StringUtf8, same(s, &mut n)); let c = clarity!(PrincipalStandard, same(s, &mut n)); let d = clarity!(PrincipalContract, same(s, &mut n), same(s, &mut n)); let e = clarity!(LengthPrefixedStr, same(s, &mut n)); let g = clarity!(Buffer, same(s, &mut n).as_bytes()); (a, b, c, d, e, g, n) }
pub fn mc_ev_pcs(p: PrincipalStandard, q: PrincipalStandard, c: ConditionCode) -> (PostConditions, u64) { let mut n = 0u64; let l = post_condition!((STXCondition, p, step(&mut n) as u64, c), (STXCondition, q, step(&mut n) as u64, c)); (l, n) }
// ---- networks and builders
#[derive(Clone)]
pub struct HNet { pub v: TransactionVersion, pub c: ChainID, pub u: String }
impl Network for HNet {
    fn version(&self) -> TransactionVersion { self.v }
    fn chain_id(&self) -> ChainID { self.c }
    fn base_url(&self) -> String { self.u.clone() }
}
macro_rules! nets { ($($t:ty, $a:ident, $b:ident, $c:ident, $d:ident;)*) => { $(
    pub fn $a() -> (TransactionVersion, ChainID, String) { let n = <$t>::new(); (n.version(), n.chain_id(), n.base_url()) }
    pub fn $b() -> (TransactionVersion, ChainID, String) { let n = <$t>::default(); (n.version(), n.chain_id(), n.base_url()) }
    pub fn $c() -> (TransactionVersion, ChainID, String) { let n: Box<dyn Network> = Box::new(<$t>::new()); let n = n.clone(); (n.version(), n.chain_id(), n.base_url()) }
    pub fn $d() -> (u8, u32) { let n = <$t>::new(); (n.version() as u8, n.chain_id() as u32) }
)* } }
nets! {
    StacksMainnet, nw_main1, nw_main2, nw_main3, nw_main4;
    StacksTestnet, nw_test1, nw_test2, nw_test3, nw_test4;
    StacksMocknet, nw_mock1, nw_mock2, nw_mock3, nw_mock4;
}
pub fn bt_min(r: PrincipalStandard, n: u64, k: SecretKey, w: HNet) -> Transaction {
    STXTokenTransfer::builder().recipient(r).amount(n).sender(k).network(w).build().transaction()
}
pub fn bt_full(r: PrincipalContract, n: u64, k: SecretKey, w: HNet, fee: u64, nonce: u64, am: AnchorMode, memo: String, pm: PostConditionMode, pcs: PostConditions) -> Transaction {
    STXTokenTransfer::builder().recipient(r).amount(n).sender(k).network(w).fee(fee).nonce(nonce).anchor_mode(am).memo(memo).post_condition_mode(pm).post_conditions(pcs).sponsored(false).build().transaction()
}
pub fn bt_memo(r: PrincipalStandard, n: u64, k: SecretKey, w: StacksTestnet, memo: &str) -> Transaction {
    STXTokenTransfer::builder().network(w).memo(memo).recipient(r).sender(k).amount(n).build().transaction()
}
pub fn bt_plain(x: STXTokenTransfer<PrincipalStandard, HNet>) -> Transaction { intr::assume(!x.sponsored); x.transaction() }
pub fn bc_min(a: &str, c: &str, f: &str, g: FnArguments, k: SecretKey, w: HNet) -> CR<Transaction> {
    STXContractCall::builder().address(a).contract(c).fn_name(f).fn_args(g).sender(k).network(w).build().transaction()
}
pub fn bc_full(a: String, c: String, f: String, g: FnArguments, k: SecretKey, w: HNet, fee: u64, nonce: u64, am: AnchorMode, pm: PostConditionMode, pcs: PostConditions) -> CR<Transaction> {
    STXContractCall::builder().address(a).contract(c).fn_name(f).fn_args(g).sender(k).network(w).fee(fee).nonce(nonce).anchor_mode(am).post_condition_mode(pm).post_conditions(pcs).sponsored(false).build().transaction()
}
pub fn bc_plain(x: STXContractCall<HNet>) -> CR<Transaction> { intr::assume(!x.sponsored); x.transaction() }
// ---- wallet
use stacks_rs::wallet::{StacksAccount, StacksWallet};
use bip32::XPrv;
pub type Acc = (XPrv, u32);
pub fn acc(x: StacksAccount) -> Acc { (intr::takefield::<StacksAccount, XPrv>(&x, "ext"), intr::takefield::<StacksAccount, u32>(&x, "index")) }
pub fn wl_new(s: String) -> Result<XPrv, ()> { match StacksWallet::from_secret_key(s) { Ok(w) => Ok(intr::takefield::<StacksWallet, XPrv>(&w, "ext")), Err(_) => Err(()) } }
pub fn wl_new_str(s: &str) -> Result<XPrv, ()> { match StacksWallet::from_secret_key(s) { Ok(w) => Ok(intr::takefield::<StacksWallet, XPrv>(&w, "ext")), Err(_) => Err(()) } }
pub fn wl_two(s: String, i: u32, j: u32) -> Result<(Result<Acc, ()>, Result<Acc, ()>), ()> {
    let mut w = match StacksWallet::from_secret_key(s) { Ok(w) => w, Err(_) => return Err(()) };
    let a = match w.get_account(i) { Ok(a) => Ok(acc(a)), Err(_) => Err(()) };
    let b = match w.get_account(j) { Ok(a) => Ok(acc(a)), Err(_) => Err(()) };
    Ok((a, b))
}
pub fn wl_set(s: String, i: u32, a: StacksAccount, j: u32) -> Result<Result<Acc, ()>, ()> {
    let mut w = match StacksWallet::from_secret_key(s) { Ok(w) => w, Err(_) => return Err(()) };
    w.set_account(i, a);
    Ok(match w.get_account(j) { Ok(a) => Ok(acc(a)), Err(_) => Err(()) })
}
pub fn wl_reset(s: String, i: u32, a: StacksAccount, b: StacksAccount, j: u32) -> Result<Result<Acc, ()>, ()> {
    let mut w = match StacksWallet::from_secret_key(s) { Ok(w) => w, Err(_) => return Err(()) };
    w.set_account(i, a);
    w.set_account(j, b);
    Ok(match w.get_account(i) { Ok(a) => Ok(acc(a)), Err(_) => Err(()) })
}
pub fn wl_over(s: String, i: u32, a: StacksAccount, j: u32) -> Result<(Result<Acc, ()>, Result<Acc, ()>), ()> {
    let mut w = match StacksWallet::from_secret_key(s) { Ok(w) => w, Err(_) => return Err(()) };
    let x = match w.get_account(i) { Ok(a) => Ok(acc(a)), Err(_) => Err(()) };
    w.set_account(j, a);
    Ok((x, match w.get_account(i) { Ok(a) => Ok(acc(a)), Err(_) => Err(()) }))
}
pub fn wi_get(w: &mut StacksWallet, i: u32, j: u32) -> (Result<Acc, ()>, Result<Acc, ()>) {
    let x = w.get_account(i).map(acc).map_err(|_| ());
    let y = w.get_account(j).map(acc).map_err(|_| ());
    (x, y)
}
pub fn wi_set(w: &mut StacksWallet, i: u32, a: StacksAccount, j: u32) -> Result<Acc, ()> {
    w.set_account(i, a);
    w.get_account(j).map(acc).map_err(|_| ())
}
pub fn wl_priv(w: &StacksWallet) -> Option<SecretKey> { w.private_key().ok() }
pub fn wl_pub(w: &StacksWallet) -> Option<PublicKey> { w.public_key().ok() }
pub fn wa_priv(w: &StacksAccount) -> Option<SecretKey> { w.private_key().ok() }
pub fn wa_pub(w: &StacksAccount) -> Option<PublicKey> { w.public_key().ok() }
pub fn wa_addr(w: &StacksAccount, v: Version) -> Option<String> { w.get_address(v).ok() }

// ---- tuple-to-struct derive
use stacks_rs::derive::FromTuple;
#[derive(FromTuple)] struct DInt { #[stacks(key = "a")] x: i128 }
#[derive(FromTuple)] struct DUint { #[stacks(key = "b-key")] y: u128 }
#[derive(FromTuple)] struct DBool { #[stacks(key = "c")] x: bool }
#[derive(FromTuple)] struct DBuf { #[stacks(key = "d")] x: Vec<u8> }
#[derive(FromTuple)] struct DStr { #[stacks(key = "e")] x: String }
#[derive(FromTuple)] struct DRint { #[stacks(key = "f", response)] x: i128 }
#[derive(FromTuple)] struct DRuint { #[stacks(key = "g", response)] x: u128 }
#[derive(FromTuple)] struct DStrs { #[stacks(key = "h")] x: Vec<String> }
#[derive(FromTuple)] struct DNest { #[stacks(key = "n")] n: DUint, #[stacks(key = "a")] a: i128 }
#[derive(FromTuple)] struct DMulti { #[stacks(key = "b")] a: i128, #[stacks(key = "a")] b: i128, #[stacks(key = "c")] c: u128, #[stacks(key = "d")] d: Vec<u8>, #[stacks(key = "e")] e: bool, #[stacks(key = "g")] g: bool }
#[derive(FromTuple)] struct DOint { #[stacks(key = "o")] x: Option<i128> }
#[derive(FromTuple)] struct DOuint { #[stacks(key = "o")] x: Option<u128> }
#[derive(FromTuple)] struct DOstr { #[stacks(key = "o")] x: Option<String> }
pub fn d_int(t: Tuple) -> Result<i128, ()> { match DInt::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_uint(t: Tuple) -> Result<u128, ()> { match DUint::try_from(t) { Ok(d) => Ok(d.y), Err(_) => Err(()) } }
pub fn d_bool(t: Tuple) -> Result<bool, ()> { match DBool::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_buf(t: Tuple) -> Result<Vec<u8>, ()> { match DBuf::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_str(t: Tuple) -> Result<String, ()> { match DStr::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_rint(t: Tuple) -> Result<i128, ()> { match DRint::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_ruint(t: Tuple) -> Result<u128, ()> { match DRuint::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_strs(t: Tuple) -> Result<Vec<String>, ()> { match DStrs::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_nest(t: Tuple) -> Result<(u128, i128), ()> { match DNest::try_from(t) { Ok(d) => Ok((d.n.y, d.a)), Err(_) => Err(()) } }
pub fn d_multi(t: Tuple) -> Result<(i128, i128, u128, Vec<u8>, bool, bool), ()> { match DMulti::try_from(t) { Ok(d) => Ok((d.b, d.a, d.c, d.d, d.e, d.g)), Err(_) => Err(()) } }
fn tup(v: Box<dyn Clarity>) -> Tuple { Tuple::new(vec![(String::from("o"), v)]) }
pub fn d_opt_int(x: i128) -> Result<Option<i128>, ()> { match DOint::try_from(tup(Box::new(OptionalSome::new(Box::new(Int::new(x)) as Box<dyn Clarity>)))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_int_none() -> Result<Option<i128>, ()> { match DOint::try_from(tup(Box::new(OptionalNone::new()))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_int_abs() -> Result<Option<i128>, ()> { match DOint::try_from(Tuple::new(Vec::new())) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_uint(x: u128) -> Result<Option<u128>, ()> { match DOuint::try_from(tup(Box::new(OptionalSome::new(Box::new(UInt::new(x)) as Box<dyn Clarity>)))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_uint_none() -> Result<Option<u128>, ()> { match DOuint::try_from(tup(Box::new(OptionalNone::new()))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_uint_abs() -> Result<Option<u128>, ()> { match DOuint::try_from(Tuple::new(Vec::new())) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_str(x: Box<dyn Clarity>) -> Result<Option<String>, ()> { match DOstr::try_from(tup(Box::new(OptionalSome::new(x)))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_opt_str_none() -> Result<Option<String>, ()> { match DOstr::try_from(tup(Box::new(OptionalNone::new()))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DObool { #[stacks(key = "o")] x: bool }
pub fn d_true() -> Result<bool, ()> { match DObool::try_from(tup(Box::new(True::new()))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
pub fn d_false() -> Result<bool, ()> { match DObool::try_from(tup(Box::new(False::new()))) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DQual { #[stacks(key = "d")] x: std::vec::Vec<u8>, #[stacks(key = "h")] y: ::std::vec::Vec<String> }
pub fn d_qual(t: Tuple) -> Result<(Vec<u8>, Vec<String>), ()> { match DQual::try_from(t) { Ok(d) => Ok((d.x, d.y)), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey0 { #[stacks(key = "a_b")] x: u128 }
pub fn d_key0(t: Tuple) -> Result<u128, ()> { match DKey0::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey1 { #[stacks(key = "Ab")] x: u128 }
pub fn d_key1(t: Tuple) -> Result<u128, ()> { match DKey1::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey2 { #[stacks(key = "a b")] x: u128 }
pub fn d_key2(t: Tuple) -> Result<u128, ()> { match DKey2::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey3 { #[stacks(key = "")] x: u128 }
pub fn d_key3(t: Tuple) -> Result<u128, ()> { match DKey3::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey4 { #[stacks(key = " k ")] x: u128 }
pub fn d_key4(t: Tuple) -> Result<u128, ()> { match DKey4::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey5 { #[stacks(key = "x-URI?")] x: u128 }
pub fn d_key5(t: Tuple) -> Result<u128, ()> { match DKey5::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey6 { #[stacks(key = "k-1")] x: u128 }
pub fn d_key6(t: Tuple) -> Result<u128, ()> { match DKey6::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey7 { #[stacks(key = "k1")] x: u128 }
pub fn d_key7(t: Tuple) -> Result<u128, ()> { match DKey7::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey8 { #[stacks(key = "very-long-entry-name-with-many-parts-and-0123456789")] x: u128 }
pub fn d_key8(t: Tuple) -> Result<u128, ()> { match DKey8::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey9 { #[stacks(key = "r#type")] x: u128 }
pub fn d_key9(t: Tuple) -> Result<u128, ()> { match DKey9::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey10 { #[stacks(key = "\u{e9}")] x: u128 }
pub fn d_key10(t: Tuple) -> Result<u128, ()> { match DKey10::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey11 { #[stacks(key = "\"q\"")] x: u128 }
pub fn d_key11(t: Tuple) -> Result<u128, ()> { match DKey11::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey12 { #[stacks(key = "o")] x: u128 }
pub fn d_key12(t: Tuple) -> Result<u128, ()> { match DKey12::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey13 { #[stacks(key = "is-ok!")] x: u128 }
pub fn d_key13(t: Tuple) -> Result<u128, ()> { match DKey13::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DKey14 { #[stacks(key = "a-b")] x: u128 }
pub fn d_key14(t: Tuple) -> Result<u128, ()> { match DKey14::try_from(t) { Ok(d) => Ok(d.x), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DNresp { #[stacks(key = "f", response = false)] x: i128, #[stacks(key = "g", response = false)] y: u128 }
pub fn d_nresp(t: Tuple) -> Result<(i128, u128), ()> { match DNresp::try_from(t) { Ok(d) => Ok((d.x, d.y)), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DYresp { #[stacks(response = true, key = "f")] x: i128, #[stacks(key = "g")] y: u128, #[stacks(response, key = "f-2")] z: u128, #[stacks(key = "g-2")] w: i128 }
pub fn d_yresp(t: Tuple) -> Result<(i128, u128, u128, i128), ()> { match DYresp::try_from(t) { Ok(d) => Ok((d.x, d.y, d.z, d.w)), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DSame { #[stacks(key = "a")] x: u128, #[stacks(key = "a")] y: u128, #[stacks(key = "a")] z: String }
pub fn d_same(t: Tuple) -> Result<(u128, u128, String), ()> { match DSame::try_from(t) { Ok(d) => Ok((d.x, d.y, d.z)), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DGen<const N: usize> { #[stacks(key = "a")] x: u128, #[stacks(key = "b")] y: u128 }
pub fn d_gen(t: Tuple) -> Result<(u128, u128), ()> { match DGen::<3>::try_from(t) { Ok(d) => Ok((d.x, d.y)), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DNest2 { #[stacks(key = "m")] m: DNest, #[stacks(key = "n")] n: DInt }
pub fn d_nest2(t: Tuple) -> Result<(u128, i128, i128), ()> { match DNest2::try_from(t) { Ok(d) => Ok((d.m.n.y, d.m.a, d.n.x)), Err(_) => Err(()) } }
#[derive(FromTuple)] struct DTwoStr { #[stacks(key = "b")] a: String, #[stacks(key = "a")] b: String, #[stacks(key = "h")] c: Vec<String>, #[stacks(key = "k")] d: Vec<String> }
pub fn d_twostr(t: Tuple) -> Result<(String, String, Vec<String>, Vec<String>), ()> { match DTwoStr::try_from(t) { Ok(d) => Ok((d.a, d.b, d.c, d.d)), Err(_) => Err(()) } }

// ---- node client
use stacks_rs::rpc::*;
pub fn rp_new(s: String) -> String { intr::takefield::<StacksRPC, String>(&StacksRPC::new(s), "__url") }
pub fn rp_new_str(s: &str) -> String { intr::takefield::<StacksRPC, String>(&StacksRPC::new(s), "__url") }
pub fn rp_info(r: &StacksRPC) -> (Result<NodeInfoResponse, ()>, intr::Net) { let x = match r.info() { Ok(v) => Ok(v), Err(_) => Err(()) }; (x, intr::net()) }
pub fn rp_address(r: &StacksRPC, a: &str) -> (Result<AddressInfoResponse, ()>, intr::Net) { let x = match r.address(a) { Ok(v) => Ok(v), Err(_) => Err(()) }; (x, intr::net()) }
pub fn rp_fee(r: &StacksRPC, t: &Transaction) -> (Result<EstimateFeeResponse, ()>, intr::Net) { let x = match r.estimate_fee(t) { Ok(v) => Ok(v), Err(_) => Err(()) }; (x, intr::net()) }
pub fn rp_broadcast(r: &StacksRPC, t: &Transaction) -> (Result<BroadcastResponse, ()>, intr::Net) { let x = match r.broadcast(t) { Ok(v) => Ok(v), Err(_) => Err(()) }; (x, intr::net()) }
pub fn rp_read(r: &StacksRPC, a: &str, n: &str, f: &str, args: FnArguments, s: &str) -> (Result<ReadOnlyResponse, ()>, intr::Net) { let x = match r.read_only(a, n, f, args, s) { Ok(v) => Ok(v), Err(_) => Err(()) }; (x, intr::net()) }
pub fn rq_info(r: &StacksRPC) -> intr::Net { let _ = r.info(); intr::net() }
pub fn rq_address(r: &StacksRPC, a: &str) -> intr::Net { let _ = r.address(a); intr::net() }
pub fn rq_fee(r: &StacksRPC, t: &Transaction) -> intr::Net { let _ = r.estimate_fee(t); intr::net() }
pub fn rq_broadcast(r: &StacksRPC, t: &Transaction) -> intr::Net { let _ = r.broadcast(t); intr::net() }
pub fn rq_read(r: &StacksRPC, a: &str, n: &str, f: &str, args: FnArguments, s: &str) -> intr::Net { let _ = r.read_only(a, n, f, args, s); intr::net() }

use de::{read, Js};
pub fn de_info(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> {
    read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)),
        ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)),
        ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))])
}
pub fn de_info_rev(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> {
    read([("unanchored_tip", Js::S(String::new())), ("genesis_chainstate_hash", Js::S(c.3)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_height", Js::U(c.0)),
        ("parent_network_id", Js::U(b.3 as u64)), ("network_id", Js::U(b.2 as u64)), ("server_version", Js::S(b.1)), ("stable_burn_block_height", Js::U(b.0)),
        ("stable_pox_consensus", Js::S(a.3)), ("burn_block_height", Js::U(a.2)), ("pox_consensus", Js::S(a.1)), ("peer_version", Js::U(a.0)), ("exit_at_block_height", Js::U(0))])
}
pub fn de_addr(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> {
    read([("balance", Js::S(a)), ("locked", Js::S(b)), ("unlock_height", Js::U(c)), ("nonce", Js::U(d)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(f))])
}
pub fn de_addr_rev(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> {
    read([("extra", Js::B(true)), ("nonce_proof", Js::S(f)), ("balance_proof", Js::S(e)), ("nonce", Js::U(d)), ("unlock_height", Js::U(c)), ("locked", Js::S(b)), ("balance", Js::S(a))])
}
pub fn de_fee(a: u64, b: f64) -> Result<FeeEstimate, ()> { read([("fee_rate", Js::F(b)), ("fee", Js::U(a))]) }
pub fn de_fees(a: u64, b: f64, c: u64, d: f64) -> Result<FeeOk, ()> { read([("cost_scalar_change_by_byte", Js::F(0.0)), ("estimations", Js::Est(a, b, c, d))]) }
pub fn de_berr(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { read([("error", Js::S(a)), ("reason", Js::S(b)), ("txid", Js::S(c))]) }
pub fn de_berr_rev(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { read([("txid", Js::S(c)), ("reason_data", Js::B(false)), ("reason", Js::S(b)), ("error", Js::S(a))]) }
pub fn de_ro_ok(a: bool, b: String) -> Result<ReadOnlyOk, ()> { read([("okay", Js::B(a)), ("result", Js::S(b))]) }
pub fn de_ro_err(a: bool, b: String) -> Result<ReadOnlyErr, ()> { read([("okay", Js::B(a)), ("cause", Js::S(b))]) }
pub fn de_ro_no(a: bool) -> Result<ReadOnlyOk, ()> { read([("okay", Js::B(a))]) }
pub fn de_roe_no(a: bool) -> Result<ReadOnlyErr, ()> { read([("okay", Js::B(a))]) }
pub fn de_ror(a: bool, b: String) -> Result<ReadOnlyResponse, ()> { read([("okay", Js::B(a)), ("result", Js::S(b))]) }
pub fn de_rore(a: bool, b: String) -> Result<ReadOnlyResponse, ()> { read([("okay", Js::B(a)), ("cause", Js::S(b))]) }
pub fn de_ror_no(a: bool) -> Result<ReadOnlyResponse, ()> { read([("okay", Js::B(a)), ("data", Js::B(a))]) }
fn bare<T: for<'a> serde::Deserialize<'a>>(v: Js) -> Result<T, ()> { match T::deserialize(v) { Ok(v) => Ok(v), Err(_) => Err(()) } }
pub fn de_br(a: String) -> Result<BroadcastResponse, ()> { bare(Js::S(a)) }
pub fn de_bre(a: String, b: String, c: String) -> Result<BroadcastResponse, ()> { read([("error", Js::S(a)), ("reason", Js::S(b)), ("txid", Js::S(c))]) }
pub fn de_ef(a: u64, b: f64, c: u64, d: f64) -> Result<EstimateFeeResponse, ()> { read([("cost_scalar_change_by_byte", Js::F(0.0)), ("estimations", Js::Est(a, b, c, d))]) }
pub fn de_efe(a: String) -> Result<EstimateFeeResponse, ()> { bare(Js::S(a)) }
pub fn de_addr_ty(a: String, c: u64, e: String) -> Result<AddressInfoResponse, ()> {
    read([("balance", Js::S(a)), ("locked", Js::U(c)), ("unlock_height", Js::U(c)), ("nonce", Js::U(c)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(String::new()))])
}
pub fn de_addr_no(a: String, b: String, c: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> {
    read([("balance", Js::S(a)), ("locked", Js::S(b)), ("unlock_height", Js::U(c)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(f))])
}
pub fn de_berr_no(a: String, b: String) -> Result<BroadcastErr, ()> { read([("error", Js::S(a)), ("reason", Js::S(b))]) }
pub fn de_fee_no(b: f64) -> Result<FeeEstimate, ()> { read([("fee_rate", Js::F(b))]) }
pub fn de_show(e: &BroadcastErr) -> String { e.to_string() }
pub fn de_show_r(e: &BroadcastResponse) -> String { e.to_string() }
// each member missing in turn
pub fn de_info_m0(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("other", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m1(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("other", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m2(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("other", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m3(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("other", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m4(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("other", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m5(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("other", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m6(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("other", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m7(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("other", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m8(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("other", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m9(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("other", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m10(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("other", Js::S(c.2)), ("genesis_chainstate_hash", Js::S(c.3))]) }
pub fn de_info_m11(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { read([("peer_version", Js::U(a.0)), ("pox_consensus", Js::S(a.1)), ("burn_block_height", Js::U(a.2)), ("stable_pox_consensus", Js::S(a.3)), ("stable_burn_block_height", Js::U(b.0)), ("server_version", Js::S(b.1)), ("network_id", Js::U(b.2 as u64)), ("parent_network_id", Js::U(b.3 as u64)), ("stacks_tip_height", Js::U(c.0)), ("stacks_tip", Js::S(c.1)), ("stacks_tip_consensus_hash", Js::S(c.2)), ("other", Js::S(c.3))]) }
pub fn de_addr_m0(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { read([("other", Js::S(a)), ("locked", Js::S(b)), ("unlock_height", Js::U(c)), ("nonce", Js::U(d)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(f))]) }
pub fn de_addr_m1(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { read([("balance", Js::S(a)), ("other", Js::S(b)), ("unlock_height", Js::U(c)), ("nonce", Js::U(d)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(f))]) }
pub fn de_addr_m2(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { read([("balance", Js::S(a)), ("locked", Js::S(b)), ("other", Js::U(c)), ("nonce", Js::U(d)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(f))]) }
pub fn de_addr_m3(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { read([("balance", Js::S(a)), ("locked", Js::S(b)), ("unlock_height", Js::U(c)), ("other", Js::U(d)), ("balance_proof", Js::S(e)), ("nonce_proof", Js::S(f))]) }
pub fn de_addr_m4(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { read([("balance", Js::S(a)), ("locked", Js::S(b)), ("unlock_height", Js::U(c)), ("nonce", Js::U(d)), ("other", Js::S(e)), ("nonce_proof", Js::S(f))]) }
pub fn de_addr_m5(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { read([("balance", Js::S(a)), ("locked", Js::S(b)), ("unlock_height", Js::U(c)), ("nonce", Js::U(d)), ("balance_proof", Js::S(e)), ("other", Js::S(f))]) }
pub fn de_berr_m0(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { read([("other", Js::S(a)), ("reason", Js::S(b)), ("txid", Js::S(c))]) }
pub fn de_berr_m1(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { read([("error", Js::S(a)), ("other", Js::S(b)), ("txid", Js::S(c))]) }
pub fn de_berr_m2(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { read([("error", Js::S(a)), ("reason", Js::S(b)), ("other", Js::S(c))]) }
pub fn de_fee_m0(a: u64, b: f64) -> Result<FeeEstimate, ()> { read([("other", Js::U(a)), ("fee_rate", Js::F(b))]) }
pub fn de_fee_m1(a: u64, b: f64) -> Result<FeeEstimate, ()> { read([("fee", Js::U(a)), ("other", Js::F(b))]) }
pub fn de_ro_ok_m0(a: bool, b: String) -> Result<ReadOnlyOk, ()> { read([("other", Js::B(a)), ("result", Js::S(b))]) }
pub fn de_ro_ok_m1(a: bool, b: String) -> Result<ReadOnlyOk, ()> { read([("okay", Js::B(a)), ("other", Js::S(b))]) }
pub fn de_ro_err_m0(a: bool, b: String) -> Result<ReadOnlyErr, ()> { read([("other", Js::B(a)), ("cause", Js::S(b))]) }
pub fn de_ro_err_m1(a: bool, b: String) -> Result<ReadOnlyErr, ()> { read([("okay", Js::B(a)), ("other", Js::S(b))]) }
