//! References for the wallet.
use crate::{acc, intr, Acc};
use bip32::{ChildNumber, DerivationPath, XPrv};
use secp256k1::{PublicKey, SecretKey};
use stacks_rs::crypto::c32::{self, Version};
use stacks_rs::wallet::{StacksAccount, StacksWallet};
use std::collections::HashMap;
use std::str::FromStr;

fn root(s: String) -> Option<XPrv> {
    let m = match bip39::Mnemonic::parse(s) { Ok(m) => m, Err(_) => return None };
    let seed = m.to_seed_normalized("");
    let path = match DerivationPath::from_str("m/44'/5757'/0'/0") { Ok(p) => p, Err(_) => return None };
    match XPrv::derive_from_path(seed, &path) { Ok(x) => Some(x), Err(_) => None }
}
pub fn wl_new(s: String) -> Result<XPrv, ()> { match root(s) { Some(x) => Ok(x), None => Err(()) } }
pub fn wl_new_str(s: &str) -> Result<XPrv, ()> { wl_new(String::from(s)) }
fn child(x: &XPrv, i: u32) -> Result<Acc, ()> { match x.derive_child(ChildNumber::from(i)) { Ok(k) => Ok((k, i)), Err(_) => Err(()) } }
pub fn wl_two(s: String, i: u32, j: u32) -> Result<(Result<Acc, ()>, Result<Acc, ()>), ()> {
    match root(s) { Some(x) => Ok((child(&x, i), child(&x, j))), None => Err(()) }
}
pub fn wl_set(s: String, i: u32, a: StacksAccount, j: u32) -> Result<Result<Acc, ()>, ()> {
    match root(s) { Some(x) => Ok(if i == j { Ok(acc(a)) } else { child(&x, j) }), None => Err(()) }
}
pub fn wl_reset(s: String, i: u32, a: StacksAccount, b: StacksAccount, j: u32) -> Result<Result<Acc, ()>, ()> {
    match root(s) { Some(_) => Ok(Ok(acc(if i == j { b } else { a }))), None => Err(()) }
}
pub fn wl_over(s: String, i: u32, a: StacksAccount, j: u32) -> Result<(Result<Acc, ()>, Result<Acc, ()>), ()> {
    match root(s) { Some(x) => Ok((child(&x, i), if i == j { Ok(acc(a)) } else { child(&x, i) })), None => Err(()) }
}
fn wext(w: &StacksWallet) -> &XPrv { intr::field::<StacksWallet, XPrv>(w, "ext") }
fn aext(w: &StacksAccount) -> &XPrv { intr::field::<StacksAccount, XPrv>(w, "ext") }
fn sk(x: &XPrv) -> Option<SecretKey> { SecretKey::from_slice(&x.private_key().to_bytes()).ok() }
fn pk(x: &XPrv) -> Option<PublicKey> { PublicKey::from_slice(&x.public_key().to_bytes()).ok() }
fn held(w: &StacksWallet, i: u32) -> Result<Acc, ()> {
    match intr::field::<StacksWallet, HashMap<u32, StacksAccount>>(w, "accounts").get(&i) {
        Some(a) => Ok((intr::takefield::<StacksAccount, XPrv>(a, "ext"), intr::takefield::<StacksAccount, u32>(a, "index"))),
        None => child(wext(w), i),
    }
}
pub fn wi_get(w: &mut StacksWallet, i: u32, j: u32) -> (Result<Acc, ()>, Result<Acc, ()>) { (held(w, i), held(w, j)) }
pub fn wi_set(w: &mut StacksWallet, i: u32, a: StacksAccount, j: u32) -> Result<Acc, ()> { if i == j { Ok(acc(a)) } else { held(w, j) } }
pub fn wl_priv(w: &StacksWallet) -> Option<SecretKey> { sk(wext(w)) }
pub fn wl_pub(w: &StacksWallet) -> Option<PublicKey> { pk(wext(w)) }
pub fn wa_priv(w: &StacksAccount) -> Option<SecretKey> { sk(aext(w)) }
pub fn wa_pub(w: &StacksAccount) -> Option<PublicKey> { pk(aext(w)) }
pub fn wa_addr(w: &StacksAccount, v: Version) -> Option<String> { c32::c32_address(c32::hash_p2pkh(&aext(w).public_key().to_bytes()).as_bytes(), v as u8).ok() }
