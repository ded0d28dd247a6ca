//! Reference semantics of the transaction layer (SIP-005), see spec.rs.
use crate::intr::*;
use crate::spec::{be32, utf8};
use crate::*;

type R<T> = Result<T, ()>;

pub fn ok<T, E>(r: Result<T, E>) -> R<T> {
    match r { Ok(v) => Ok(v), Err(_) => Err(()) }
}
pub fn mode_byte(m: Mode) -> u8 {
    match m { Mode::P2PKH => 0, Mode::P2SH => 1, Mode::P2WPKH => 2, Mode::P2WSH => 3 }
}
pub fn code_byte(c: ConditionCode) -> u8 {
    match c {
        ConditionCode::EQ => 1, ConditionCode::GT => 2, ConditionCode::GTE => 3, ConditionCode::LT => 4, ConditionCode::LTE => 5,
        ConditionCode::HasNot => 0x10, ConditionCode::Has => 0x11,
    }
}

pub fn enc_tx(x: &Transaction) -> R<Vec<u8>> {
    let mut v = vec![];
    v.push(match x.version { TransactionVersion::Mainnet => 0x00, TransactionVersion::Testnet => 0x80 });
    v.extend_from_slice(&match x.chain_id { ChainID::Mainnet => [0, 0, 0, 1], ChainID::Testnet => [0x80, 0, 0, 0] });
    let a = ok(x.auth.encode())?;
    v.extend_from_slice(&a);
    v.push(match x.anchor_mode { AnchorMode::Strict => 1, AnchorMode::Micro => 2, AnchorMode::Any => 3 });
    v.push(match x.post_condition_mode { PostConditionMode::Allow => 1, PostConditionMode::Deny => 2 });
    let p = ok(x.post_conditions.encode())?;
    v.extend_from_slice(&p);
    let p = ok(x.payload.encode())?;
    v.extend_from_slice(&p);
    Ok(v)
}
pub fn enc_auth(x: &Auth) -> R<Vec<u8>> {
    match x {
        Auth::Standard(o) => { let mut v = vec![4]; v.extend_from_slice(&ok(o.encode())?); Ok(v) }
        Auth::Sponsored(o, s) => {
            let mut v = vec![5];
            v.extend_from_slice(&ok(o.encode())?);
            v.extend_from_slice(&ok(s.encode())?);
            Ok(v)
        }
    }
}
type Scs = SpendingConditionStandard;
type Scm = SpendingConditionMultiSig;
pub fn enc_scs(x: &Scs) -> R<Vec<u8>> {
    let mut v = vec![mode_byte(*field::<Scs, Mode>(x, "mode"))];
    v.extend_from_slice(&field::<Scs, Hash160>(x, "signer").0);
    v.extend_from_slice(&field::<Scs, u64>(x, "nonce").to_be_bytes());
    v.extend_from_slice(&field::<Scs, u64>(x, "fee").to_be_bytes());
    v.push(0);
    v.extend_from_slice(&field::<Scs, MessageSignature>(x, "signature").0);
    Ok(v)
}
pub fn enc_scm(x: &Scm) -> R<Vec<u8>> {
    let mut v = vec![mode_byte(*field::<Scm, Mode>(x, "mode"))];
    v.extend_from_slice(&field::<Scm, Hash160>(x, "signer").0);
    v.extend_from_slice(&field::<Scm, u64>(x, "nonce").to_be_bytes());
    v.extend_from_slice(&field::<Scm, u64>(x, "fee").to_be_bytes());
    let n = vlen(x, "fields");
    v.extend_from_slice(&be32(n)?);
    for i in 0..n {
        if vis(x, "fields", i, "PK") {
            v.push(0);
            v.extend_from_slice(&vget::<Scm, PublicKey>(x, "fields", i, "PK").serialize());
        } else {
            v.push(2);
            v.extend_from_slice(&vget::<Scm, MessageSignature>(x, "fields", i, "MSG").0);
        }
    }
    v.push(0);
    v.push(*field::<Scm, u8>(x, "required"));
    Ok(v)
}
pub fn enc_pcs(x: &PostConditions) -> R<Vec<u8>> {
    let mut v = vec![];
    v.extend_from_slice(&be32(x.value().len())?);
    for c in x.value() { v.extend_from_slice(&ok(c.encode())?); }
    Ok(v)
}
fn principal(a: &Box<dyn Clarity>) -> R<Vec<u8>> {
    if let Ok(p) = a.cast_as::<PrincipalStandard>() {
        let mut v = vec![2];
        v.extend_from_slice(&crate::spec::addr(p.value())?);
        Ok(v)
    } else if let Ok(p) = a.cast_as::<PrincipalContract>() {
        let mut v = vec![3];
        v.extend_from_slice(&crate::spec::addr(&p.value().0)?);
        v.extend_from_slice(&crate::spec::name(&p.value().1)?);
        Ok(v)
    } else { Err(()) }
}
pub fn enc_stxpc(x: &STXPostCondition) -> R<Vec<u8>> {
    let mut v = vec![0];
    v.extend_from_slice(&principal(field(x, "address"))?);
    v.push(code_byte(*field(x, "code")));
    v.extend_from_slice(&field::<STXPostCondition, u64>(x, "amount").to_be_bytes());
    Ok(v)
}
pub fn enc_asset(x: &AssetInfo) -> R<Vec<u8>> {
    let mut v = crate::spec::addr(field::<AssetInfo, PrincipalStandard>(x, "address").value())?;
    v.extend_from_slice(&crate::spec::name(field::<AssetInfo, LengthPrefixedStr>(x, "name").value())?);
    v.extend_from_slice(&crate::spec::name(field::<AssetInfo, LengthPrefixedStr>(x, "asset").value())?);
    Ok(v)
}
pub fn enc_fpc(x: &FungiblePostCondition) -> R<Vec<u8>> {
    let mut v = vec![1];
    v.extend_from_slice(&principal(field(x, "address"))?);
    v.extend_from_slice(&enc_asset(field(x, "info"))?);
    v.push(code_byte(*field(x, "code")));
    v.extend_from_slice(&field::<FungiblePostCondition, u64>(x, "amount").to_be_bytes());
    Ok(v)
}
pub fn enc_nfpc(x: &NonFungiblePostCondition) -> R<Vec<u8>> {
    let mut v = vec![2];
    v.extend_from_slice(&principal(&x.address)?);
    v.extend_from_slice(&enc_asset(&x.info)?);
    v.extend_from_slice(&crate::spec::sub_enc(&x.name)?);
    v.push(code_byte(x.code));
    Ok(v)
}
pub fn enc_ttp(x: &TokenTransferPayload) -> R<Vec<u8>> {
    let n = x.memo.len();
    if n > 34 { return Err(()); }
    let mut v = vec![0];
    v.extend_from_slice(&crate::spec::sub_enc(&x.address)?);
    v.extend_from_slice(&x.amount.to_be_bytes());
    v.extend_from_slice(x.memo.as_bytes());
    v.extend_from_slice(&vec![0; 34 - n]);
    Ok(v)
}
pub fn enc_ccp(x: &ContractCallPayload) -> R<Vec<u8>> {
    let mut v = vec![2, x.address.version];
    v.extend_from_slice(&x.address.hash.0);
    v.extend_from_slice(&crate::spec::name(x.contract.value())?);
    v.extend_from_slice(&crate::spec::name(x.name.value())?);
    v.extend_from_slice(&be32(x.args.value().len())?);
    for c in x.args.value() { v.extend_from_slice(&crate::spec::sub_enc(c)?); }
    Ok(v)
}
fn std_pr(tag: u8, p: &PrincipalStandard) -> R<Vec<u8>> {
    let mut v = vec![tag];
    v.extend_from_slice(&crate::spec::addr(p.value())?);
    Ok(v)
}
fn con_pr(tag: u8, p: &PrincipalContract) -> R<Vec<u8>> {
    let mut v = vec![tag];
    v.extend_from_slice(&crate::spec::addr(&p.value().0)?);
    v.extend_from_slice(&crate::spec::name(&p.value().1)?);
    Ok(v)
}
fn ttp(p: R<Vec<u8>>, n: u64, m: &[u8]) -> R<Vec<u8>> {
    if m.len() > 34 { return Err(()); }
    let mut v = vec![0];
    v.extend_from_slice(&p?);
    v.extend_from_slice(&n.to_be_bytes());
    v.extend_from_slice(m);
    v.extend_from_slice(&vec![0; 34 - m.len()]);
    Ok(v)
}
pub fn ttp_mk(p: PrincipalContract, n: u64, m: String) -> R<Vec<u8>> { ttp(con_pr(6, &p), n, m.as_bytes()) }
pub fn ttp_mks(p: PrincipalStandard, n: u64, m: &str) -> R<Vec<u8>> { ttp(std_pr(5, &p), n, m.as_bytes()) }
pub fn ttp_obs(p: PrincipalStandard, n: u64, m: String) -> (u64, String) { drop(p); (n, m) }
fn ccp(a: Address, c: &String, f: &String, g: FnArguments) -> R<Vec<u8>> {
    let mut v = vec![2, a.version];
    v.extend_from_slice(&a.hash.0);
    v.extend_from_slice(&crate::spec::name(c)?);
    v.extend_from_slice(&crate::spec::name(f)?);
    v.extend_from_slice(&be32(g.value().len())?);
    for c in g.value() { v.extend_from_slice(&crate::spec::sub_enc(c)?); }
    Ok(v)
}
pub fn ccp_mk(a: Address, c: String, f: String, g: FnArguments) -> R<Vec<u8>> { ccp(a, &c, &f, g) }
pub fn ccp_mks(a: Address, c: &str, f: &str, g: FnArguments) -> R<Vec<u8>> { ccp(a, &String::from(c), &String::from(f), g) }
fn stx(p: R<Vec<u8>>, n: u64, c: ConditionCode) -> R<Vec<u8>> {
    let mut v = vec![0];
    v.extend_from_slice(&p?);
    v.push(code_byte(c));
    v.extend_from_slice(&n.to_be_bytes());
    Ok(v)
}
pub fn stx_mk(p: PrincipalStandard, n: u64, c: ConditionCode) -> R<Vec<u8>> { stx(std_pr(2, &p), n, c) }
pub fn stx_mkc(p: PrincipalContract, n: u64, c: ConditionCode) -> R<Vec<u8>> { stx(con_pr(3, &p), n, c) }
pub fn asset_mks(a: &str, b: &str, d: &str) -> R<Vec<u8>> { asset_mk(String::from(a), String::from(b), String::from(d)) }
pub fn asset_mk(a: String, b: String, d: String) -> R<Vec<u8>> {
    let mut v = crate::spec::addr(&a)?;
    v.extend_from_slice(&crate::spec::name(&b)?);
    v.extend_from_slice(&crate::spec::name(&d)?);
    Ok(v)
}
fn fpc(p: R<Vec<u8>>, n: u64, c: ConditionCode, i: AssetInfo) -> R<Vec<u8>> {
    let mut v = vec![1];
    v.extend_from_slice(&p?);
    v.extend_from_slice(&ok(i.encode())?);
    v.push(code_byte(c));
    v.extend_from_slice(&n.to_be_bytes());
    Ok(v)
}
pub fn fpc_mk(p: PrincipalStandard, n: u64, c: ConditionCode, i: AssetInfo) -> R<Vec<u8>> { fpc(std_pr(2, &p), n, c, i) }
pub fn fpc_mkc(p: PrincipalContract, n: u64, c: ConditionCode, i: AssetInfo) -> R<Vec<u8>> { fpc(con_pr(3, &p), n, c, i) }
fn nfpc(p: R<Vec<u8>>, t: StringUtf8, c: ConditionCode, i: AssetInfo) -> R<Vec<u8>> {
    let mut v = vec![2];
    v.extend_from_slice(&p?);
    v.extend_from_slice(&ok(i.encode())?);
    v.extend_from_slice(&ok(t.encode())?);
    v.push(code_byte(c));
    Ok(v)
}
pub fn nfpc_mk(p: PrincipalStandard, t: StringUtf8, c: ConditionCode, i: AssetInfo) -> R<Vec<u8>> { nfpc(std_pr(2, &p), t, c, i) }
pub fn nfpc_mkc(p: PrincipalContract, t: StringUtf8, c: ConditionCode, i: AssetInfo) -> R<Vec<u8>> { nfpc(con_pr(3, &p), t, c, i) }
type Cn = Box<dyn Condition>;
pub fn pcs_new(v: Vec<Cn>) -> Vec<Cn> { v }
pub fn pcs_ref(x: &PostConditions) -> &Vec<Cn> { field(x, "__value") }
pub fn pcs_val(x: PostConditions) -> Vec<Cn> { takefield(&x, "__value") }
pub fn pcs_clone(x: &PostConditions) -> Vec<Cn> { takefield(x, "__value") }
pub fn pcs_iter(x: PostConditions) -> Vec<Cn> { takefield(&x, "__value") }
pub fn pcs_default() -> Vec<Cn> { Vec::new() }
pub fn enc_bpl(x: &Box<dyn Payload>) -> R<Vec<u8>> { ok((**x).encode()) }
pub fn dec_ttp(b: &[u8]) -> R<TokenTransferPayload> {
    if b.len() < 1 || b[0] != 0 { return Err(()); }
    let address = crate::spec::any(&b[1..])?;
    let n = crate::spec::sub_enc(&address)?.len();
    if b.len() < 1 + n + 42 { return Err(()); }
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[1 + n..9 + n]);
    let memo = utf8(&b[9 + n..43 + n])?;
    Ok(TokenTransferPayload { address, amount: u64::from_be_bytes(a), memo })
}
pub fn dec_ccp(b: &[u8]) -> R<ContractCallPayload> {
    if b.len() < 22 || b[0] != 2 { return Err(()); }
    let mut h = [0u8; 20];
    h.copy_from_slice(&b[2..22]);
    let contract = crate::spec::dname(b, 22)?;
    let p = 23 + b[22] as usize;
    let name = crate::spec::dname(b, p)?;
    let args = crate::spec::dec_fnargs(&b[p + 1 + b[p] as usize..])?;
    Ok(ContractCallPayload {
        address: Address { hash: Hash160(h), version: b[1] },
        contract: LengthPrefixedStr::new(contract), name: LengthPrefixedStr::new(name), args,
    })
}
pub fn dec_bpl(b: &[u8]) -> R<Box<dyn Payload>> {
    if b.is_empty() { return Err(()); }
    match b[0] {
        0 => Ok(Box::new(ok(TokenTransferPayload::decode(b))?)),
        2 => Ok(Box::new(ok(ContractCallPayload::decode(b))?)),
        _ => Err(()),
    }
}

// ---- hashing and signatures
use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::{Message, Secp256k1};
pub fn h_sha256(b: &[u8]) -> Sha256Hash {
    let d = prim_hash("sha256", b);
    let mut a = [0u8; 32];
    a.copy_from_slice(d);
    Sha256Hash(a)
}
pub fn h_dsha256(b: &[u8]) -> DSha256Hash { DSha256Hash(h_sha256(&h_sha256(b).0).0) }
pub fn h_sha512(b: &[u8]) -> Sha512_256Hash {
    let mut a = [0u8; 32];
    a.copy_from_slice(prim_hash("sha512_256", b));
    Sha512_256Hash(a)
}
pub fn h_hash160(b: &[u8]) -> Hash160 {
    let mut a = [0u8; 20];
    a.copy_from_slice(prim_hash("ripemd160", prim_hash("sha256", b)));
    Hash160(a)
}
pub fn h_hash160_new(b: &[u8]) -> Hash160 { let mut a = [0u8; 20]; if b.len() != 20 { panic!() } a.copy_from_slice(b); Hash160(a) }
pub fn h_msig_new(b: &[u8]) -> MessageSignature { let mut a = [0u8; 65]; if b.len() != 65 { panic!() } a.copy_from_slice(b); MessageSignature(a) }
pub fn h_msig_slice(b: &[u8]) -> R<MessageSignature> { if b.len() != 65 { return Err(()); } let mut a = [0u8; 65]; a.copy_from_slice(b); Ok(MessageSignature(a)) }
pub fn h_sighash(b: &[u8]) -> SignatureHash { SignatureHash(h_sha512(b).0) }
pub fn h_presign(h: SignatureHash, t: u8, fee: u64, nonce: u64) -> SignatureHash {
    let mut v = h.0.to_vec();
    v.push(t);
    v.extend_from_slice(&fee.to_be_bytes());
    v.extend_from_slice(&nonce.to_be_bytes());
    h_sighash(&v)
}
pub fn h_postsign(h: SignatureHash, s: MessageSignature) -> SignatureHash {
    let mut v = h.0.to_vec();
    v.push(0);
    v.extend_from_slice(&s.0);
    h_sighash(&v)
}
pub fn h_from_recov(r: RecoverableSignature) -> R<MessageSignature> {
    let (id, b) = r.serialize_compact();
    let mut a = [0u8; 65];
    a[0] = id.to_i32() as u8;
    a[1..].copy_from_slice(&b);
    Ok(MessageSignature(a))
}
pub fn h_into_recov(m: MessageSignature) -> R<RecoverableSignature> {
    let id = ok(RecoveryId::from_i32(m.0[0] as i32))?;
    ok(RecoverableSignature::from_compact(&m.0[1..], id))
}
pub fn h_next_sig(h: SignatureHash, t: u8, fee: u64, nonce: u64, k: SecretKey) -> R<(MessageSignature, SignatureHash)> {
    let p = h_presign(h, t, fee, nonce);
    let s = Secp256k1::new().sign_ecdsa_recoverable(&Message::from_digest(p.0), &k);
    let m = h_from_recov(s)?;
    Ok((m, h_postsign(p, m)))
}
pub fn h_next_ver(h: SignatureHash, t: u8, fee: u64, nonce: u64, s: MessageSignature) -> R<(PublicKey, SignatureHash)> {
    let p = h_presign(h, t, fee, nonce);
    let r = h_into_recov(s)?;
    let k = ok(Secp256k1::new().recover_ecdsa(&Message::from_digest(p.0), &r))?;
    Ok((k, h_postsign(p, s)))
}
pub fn h_p2pkh(b: &[u8]) -> Hash160 { h_hash160(b) }
pub fn h_p2wpkh(b: &[u8]) -> Hash160 {
    let mut v = vec![0, 20];
    v.extend_from_slice(&h_hash160(b).0);
    h_hash160(&v)
}
fn script(n: u8, k: &[PublicKey]) -> Vec<u8> {
    assume(n <= 16 && k.len() <= 16);
    let mut v = vec![0x50 + n];
    for i in 0..k.len() {
        v.push(33);
        v.extend_from_slice(&k[i].serialize());
    }
    v.push(0x50 + k.len() as u8);
    v.push(0xae);
    v
}
pub fn h_p2sh(n: u8, k: &[PublicKey]) -> Hash160 { h_hash160(&script(n, k)) }
pub fn h_p2wsh(n: u8, k: &[PublicKey]) -> Hash160 {
    let mut v = vec![0, 32];
    v.extend_from_slice(&h_sha256(&script(n, k)).0);
    h_hash160(&v)
}
macro_rules! hashacc { ($($t:ident, $n:literal, $a:ident, $b:ident, $c:ident, $d:ident, $e:ident, $f:ident;)*) => { $(
    pub fn $a(x: &$t) -> [u8; $n] { x.0 }
    pub fn $b(x: $t) -> [u8; $n] { x.0 }
    pub fn $c(x: &$t) -> String { bytes_to_hex(&x.0) }
    pub fn $d(x: [u8; $n]) -> $t { $t(x) }
    pub fn $e(x: $t) -> Vec<u8> { x.0.to_vec() }
    pub fn $f() -> $t { $t([0; $n]) }
)* } }
hashacc! {
    Sha256Hash, 32, ha_a1, ha_b1, ha_c1, ha_d1, ha_e1, ha_f1;
    DSha256Hash, 32, ha_a2, ha_b2, ha_c2, ha_d2, ha_e2, ha_f2;
    Sha512_256Hash, 32, ha_a3, ha_b3, ha_c3, ha_d3, ha_e3, ha_f3;
    Hash160, 20, ha_a4, ha_b4, ha_c4, ha_d4, ha_e4, ha_f4;
    MessageSignature, 65, ha_a5, ha_b5, ha_c5, ha_d5, ha_e5, ha_f5;
    SignatureHash, 32, ha_a6, ha_b6, ha_c6, ha_d6, ha_e6, ha_f6;
}
pub fn cs_sha256(x: &Sha256Hash) -> [u8; 4] { [x.0[0], x.0[1], x.0[2], x.0[3]] }
pub fn cs_dsha256(x: &DSha256Hash) -> [u8; 4] { [x.0[0], x.0[1], x.0[2], x.0[3]] }
pub fn cs_sha512(x: &Sha512_256Hash) -> [u8; 4] { [x.0[0], x.0[1], x.0[2], x.0[3]] }
pub fn cs_hash160(x: &Hash160) -> [u8; 4] { [x.0[0], x.0[1], x.0[2], x.0[3]] }

// ---- spending conditions; state observed as (mode, fee, nonce, signer, ...)
pub fn scs_new(pk: PublicKey, fee: u64, nonce: u64, mode: Mode) -> (Mode, u64, u64, Hash160, MessageSignature) {
    let h = match mode { Mode::P2PKH => h_p2pkh(&pk.serialize()), Mode::P2WPKH => h_p2wpkh(&pk.serialize()), _ => panic!() };
    (mode, fee, nonce, h, MessageSignature([0; 65]))
}
pub fn scs_default() -> (Mode, u64, u64, Hash160, MessageSignature) { (Mode::P2PKH, 0, 0, Hash160([0; 20]), MessageSignature([0; 65])) }
pub fn scs_verify(x: &Scs, h: SignatureHash, t: u8) -> R<SignatureHash> {
    let (k, n) = h_next_ver(h, t, *field(x, "fee"), *field(x, "nonce"), *field(x, "signature"))?;
    let s = match *field::<Scs, Mode>(x, "mode") { Mode::P2PKH => h_p2pkh(&k.serialize()), Mode::P2WPKH => h_p2wpkh(&k.serialize()), _ => panic!() };
    if s.0 == field::<Scs, Hash160>(x, "signer").0 { Ok(n) } else { Err(()) }
}
pub fn scs_modify(mut x: Scs, m: Modification) -> (bool, Scs) {
    match m {
        Modification::SetSignature(s) => { *field_mut::<Scs, MessageSignature>(&mut x, "signature") = s; (true, x) }
        _ => (false, x),
    }
}
pub fn scs_reset(mut x: Scs) -> Scs {
    *field_mut::<Scs, u64>(&mut x, "fee") = 0;
    *field_mut::<Scs, u64>(&mut x, "nonce") = 0;
    *field_mut::<Scs, MessageSignature>(&mut x, "signature") = MessageSignature([0; 65]);
    x
}
pub fn scs_get(x: &Scs) -> (u64, u64, Mode, u16, u16) {
    let n = if field::<Scs, MessageSignature>(x, "signature").0 == [0u8; 65] { 0 } else { 1 };
    (*field(x, "fee"), *field(x, "nonce"), *field(x, "mode"), n, 1)
}
pub fn scs_set_fee(mut x: Scs, v: u64) -> Scs { *field_mut::<Scs, u64>(&mut x, "fee") = v; x }
pub fn scs_set_nonce(mut x: Scs, v: u64) -> Scs { *field_mut::<Scs, u64>(&mut x, "nonce") = v; x }
pub fn scm_obs(x: &Scm) -> (Mode, u64, u64, Hash160, usize, u8) {
    (*field(x, "mode"), *field(x, "fee"), *field(x, "nonce"), *field(x, "signer"), vlen(x, "fields"), *field(x, "required"))
}
pub fn scm_new(pks: Vec<PublicKey>, fee: u64, nonce: u64, req: u8, mode: Mode) -> (Mode, u64, u64, Hash160, usize, u8) {
    let h = match mode { Mode::P2SH => h_p2sh(req, &pks), Mode::P2WSH => h_p2wsh(req, &pks), _ => panic!() };
    (mode, fee, nonce, h, 0, req)
}
pub fn scm_verify(x: &Scm, h: SignatureHash, t: u8) -> R<SignatureHash> {
    let mut keys: Vec<PublicKey> = vec![];
    let mut h = h;
    let mut n = 0u8;
    assume(vlen(x, "fields") <= 16);
    for i in 0..vlen(x, "fields") {
        if vis(x, "fields", i, "PK") {
            keys.push(*vget::<Scm, PublicKey>(x, "fields", i, "PK"));
        } else {
            let (k, next) = h_next_ver(h, t, *field(x, "fee"), *field(x, "nonce"), *vget::<Scm, MessageSignature>(x, "fields", i, "MSG"))?;
            keys.push(k);
            h = next;
            n += 1;
        }
    }
    let req = *field::<Scm, u8>(x, "required");
    if n < req { return Err(()); }
    let s = match *field::<Scm, Mode>(x, "mode") { Mode::P2SH => h_p2sh(req, &keys), Mode::P2WSH => h_p2wsh(req, &keys), _ => panic!() };
    if s.0 == field::<Scm, Hash160>(x, "signer").0 { Ok(h) } else { Err(()) }
}
pub fn scm_modify(mut x: Scm, m: Modification) -> (bool, Scm) {
    match m {
        Modification::AddSignature(s) => { vpush(&mut x, "fields", "MSG", s); (true, x) }
        Modification::AddPublicKey(k) => { vpush(&mut x, "fields", "PK", k); (true, x) }
        _ => (false, x),
    }
}
pub fn scm_reset(mut x: Scm) -> Scm {
    *field_mut::<Scm, u64>(&mut x, "fee") = 0;
    *field_mut::<Scm, u64>(&mut x, "nonce") = 0;
    vclear(&mut x, "fields");
    x
}
pub fn scm_get(x: &Scm) -> (u64, u64, Mode, u16) { (*field(x, "fee"), *field(x, "nonce"), *field(x, "mode"), *field::<Scm, u8>(x, "required") as u16) }
pub fn scm_sigs(x: &Scm) -> u16 {
    let mut n = 0;
    assume(vlen(x, "fields") <= 65535);
    for i in 0..vlen(x, "fields") { if vis(x, "fields", i, "MSG") { n += 1; } }
    n
}
pub fn scm_set_fee(mut x: Scm, v: u64) -> Scm { *field_mut::<Scm, u64>(&mut x, "fee") = v; x }
pub fn scm_set_nonce(mut x: Scm, v: u64) -> Scm { *field_mut::<Scm, u64>(&mut x, "nonce") = v; x }

// ---- authorizations
type Sc = Box<dyn SpendingCondition>;
pub fn auth_verify(x: &Auth, h: SignatureHash) -> R<()> {
    match x {
        Auth::Standard(o) => { ok(o.verify(h, 4))?; Ok(()) }
        Auth::Sponsored(o, s) => { let n = ok(o.verify(h, 4))?; ok(s.verify(n, 5))?; Ok(()) }
    }
}
pub fn auth_verify_origin(x: &Auth, h: SignatureHash) -> R<SignatureHash> {
    match x { Auth::Standard(o) => ok(o.verify(h, 4)), Auth::Sponsored(o, _) => ok(o.verify(h, 4)) }
}
pub fn auth_reset(x: Auth) -> Auth {
    match x {
        Auth::Standard(mut o) => { o.reset(); Auth::Standard(o) }
        Auth::Sponsored(mut o, _) => { o.reset(); Auth::Sponsored(o, Box::new(Scs::default())) }
    }
}
pub fn auth_set_fee(mut x: Auth, v: u64) -> Auth {
    match x { Auth::Standard(ref mut o) => o.set_fee(v), Auth::Sponsored(ref mut o, _) => o.set_fee(v) }
    x
}
pub fn auth_set_nonce(mut x: Auth, v: u64) -> Auth {
    match x { Auth::Standard(ref mut o) => o.set_nonce(v), Auth::Sponsored(ref mut o, _) => o.set_nonce(v) }
    x
}
pub fn auth_set_sponsor(x: Auth, s: Sc) -> (bool, Auth) {
    match x { Auth::Standard(o) => (false, Auth::Standard(o)), Auth::Sponsored(o, _) => (true, Auth::Sponsored(o, s)) }
}
pub fn auth_is(x: &Auth) -> (bool, bool) { match x { Auth::Standard(_) => (true, false), Auth::Sponsored(_, _) => (false, true) } }
pub fn auth_origin(x: &Auth) -> &dyn SpendingCondition { match x { Auth::Standard(o) => &**o, Auth::Sponsored(o, _) => &**o } }
pub fn auth_sponsor(x: &Auth) -> R<&dyn SpendingCondition> { match x { Auth::Standard(_) => Err(()), Auth::Sponsored(_, s) => Ok(&**s) } }
pub fn auth_origin_mut(x: Auth, v: u64) -> Auth { auth_set_fee(x, v) }
pub fn auth_sponsor_mut(x: Auth, v: u64) -> (bool, Auth) {
    match x { Auth::Standard(o) => (false, Auth::Standard(o)), Auth::Sponsored(o, mut s) => { s.set_fee(v); (true, Auth::Sponsored(o, s)) } }
}

// ---- transactions and the signer
pub fn tx_new(v: TransactionVersion, c: ChainID, a: Auth, m: AnchorMode, pm: PostConditionMode, pc: PostConditions, p: Box<dyn Payload>) -> Transaction {
    Transaction { version: v, chain_id: c, auth: a, anchor_mode: m, post_condition_mode: pm, post_conditions: pc, payload: p }
}
pub fn tx_hash(x: &Transaction) -> R<SignatureHash> { Ok(h_sighash(&enc_tx(x)?)) }
/// the hash signing starts from: the transaction with its authorization cleared
fn initial(x: &Transaction) -> R<SignatureHash> {
    let mut t = x.clone();
    t.auth = auth_reset(t.auth);
    Ok(h_sighash(&ok(t.encode())?))
}
pub fn tx_set_fee(mut x: Transaction, v: u64) -> Transaction { x.auth = auth_set_fee(x.auth, v); x }
pub fn tx_set_nonce(mut x: Transaction, v: u64) -> Transaction { x.auth = auth_set_nonce(x.auth, v); x }
pub fn sg_new(x: Transaction) -> R<TransactionSigner> {
    let hash = initial(&x)?;
    Ok(TransactionSigner { tx: x, hash, origin_signed: false, verify_oversign: true, verify_overlap: true })
}
pub fn sg_new_sponsor(x: &Transaction, s: Sc) -> R<TransactionSigner> {
    let mut t = x.clone();
    match t.auth {
        Auth::Standard(_) => return Err(()),
        Auth::Sponsored(o, _) => { t.auth = Auth::Sponsored(o, s); }
    }
    let start = initial(&t)?;
    let hash = auth_verify_origin(&t.auth, start)?;
    Ok(TransactionSigner { tx: t, hash, origin_signed: true, verify_oversign: true, verify_overlap: true })
}
/// signs with the condition's own fee and nonce and stores the signature in it
fn apply(c: &mut Sc, h: SignatureHash, flag: u8, k: SecretKey) -> Result<SignatureHash, stacks_rs::transaction::Error> {
    let fee = c.fee();
    let nonce = c.nonce();
    let (s, n) = match h_next_sig(h, flag, fee, nonce, k) { Ok(x) => x, Err(_) => loop {} };
    match c.mode() {
        Mode::P2PKH | Mode::P2WPKH => c.modify(Modification::SetSignature(s))?,
        Mode::P2SH | Mode::P2WSH => c.modify(Modification::AddSignature(s))?,
    }
    Ok(n)
}
use stacks_rs::transaction::Error as TE;
pub fn sg_sign_origin(mut x: TransactionSigner, k: SecretKey) -> (TR<()>, TransactionSigner) {
    if x.verify_overlap && x.origin_signed { return (Err(TE::OriginPostSponsorSign), x); }
    let o = match x.tx.auth { Auth::Standard(ref mut o) => o, Auth::Sponsored(ref mut o, _) => o };
    if x.verify_oversign && o.signatures() >= o.req_signatures() { return (Err(TE::OriginOversign), x); }
    match apply(o, x.hash, 4, k) {
        Ok(n) => { x.hash = n; (Ok(()), x) }
        Err(e) => (Err(e), x),
    }
}
pub fn sg_sign_sponsor(mut x: TransactionSigner, k: SecretKey) -> (TR<()>, TransactionSigner) {
    let s = match x.tx.auth { Auth::Standard(_) => return (Err(TE::BadSpendingConditionModification), x), Auth::Sponsored(_, ref mut s) => s };
    if x.verify_oversign && s.signatures() >= s.req_signatures() { return (Err(TE::SponsorOversign), x); }
    match apply(s, x.hash, 5, k) {
        Ok(n) => { x.hash = n; x.origin_signed = true; (Ok(()), x) }
        Err(e) => (Err(e), x),
    }
}
pub fn sg_append(mut x: TransactionSigner, k: PublicKey) -> (TR<()>, TransactionSigner) {
    if x.verify_overlap && x.origin_signed { return (Err(TE::OriginPostSponsorAppend), x); }
    let o = match x.tx.auth { Auth::Standard(ref mut o) => o, Auth::Sponsored(ref mut o, _) => o };
    let r = match o.mode() {
        Mode::P2SH | Mode::P2WSH => o.modify(Modification::AddPublicKey(k)),
        _ => Err(TE::BadSpendingConditionModification),
    };
    (r, x)
}
pub fn sg_tx(x: TransactionSigner) -> Transaction { x.tx }
pub fn tx_sign(x: Transaction, k: SecretKey) -> R<Transaction> {
    let s = sg_new(x)?;
    let (r, s) = sg_sign_origin(s, k);
    match r { Ok(()) => Ok(s.tx), Err(_) => Err(()) }
}
