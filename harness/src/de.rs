//! JSON answers as serde deserializers, member by member, and the references for reading them.
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::forward_to_deserialize_any;
use stacks_rs::rpc::*;

pub struct Er;
impl std::fmt::Debug for Er { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Display for Er { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl de::Error for Er {
    fn custom<T: std::fmt::Display>(_: T) -> Self { Er }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Er }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { Er }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { Er }
    fn missing_field(_: &'static str) -> Self { Er }
    fn duplicate_field(_: &'static str) -> Self { Er }
}

/// A JSON value.
pub enum Js { U(u64), S(String), B(bool), F(f64), Est(u64, f64, u64, f64) }
impl<'de> Deserializer<'de> for Js {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self {
            Js::U(x) => v.visit_u64(x),
            Js::S(x) => v.visit_string(x),
            Js::B(x) => v.visit_bool(x),
            Js::F(x) => v.visit_f64(x),
            Js::Est(a, b, c, d) => v.visit_seq(Ests { a: Some((a, b)), b: Some((c, d)) }),
        }
    }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// The name of a member.
struct Key(&'static str);
impl<'de> Deserializer<'de> for Key {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { v.visit_str(self.0) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// An object: its members in the order in which they arrive.
pub struct Obj<const N: usize> { pub m: [(&'static str, Js); N], pub i: usize, pub v: Option<Js> }
impl<'de, const N: usize> MapAccess<'de> for Obj<N> {
    type Error = Er;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        if self.i >= N { return Ok(None); }
        let (k, v) = std::mem::replace(&mut self.m[self.i], ("", Js::B(false)));
        self.i += 1;
        self.v = Some(v);
        match s.deserialize(Key(k)) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Er> {
        match self.v.take() { Some(v) => s.deserialize(v), None => Err(Er) }
    }
}
impl<'de, const N: usize> Deserializer<'de> for Obj<N> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { v.visit_map(self) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Ests { a: Option<(u64, f64)>, b: Option<(u64, f64)> }
impl<'de> SeqAccess<'de> for Ests {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        let e = match self.a.take() { Some(e) => Some(e), None => self.b.take() };
        match e {
            Some((f, r)) => match s.deserialize(obj([("fee", Js::U(f)), ("fee_rate", Js::F(r))])) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) },
            None => Ok(None),
        }
    }
}
pub fn obj<const N: usize>(m: [(&'static str, Js); N]) -> Obj<N> { Obj { m, i: 0, v: None } }
pub fn read<T: for<'a> Deserialize<'a>, const N: usize>(m: [(&'static str, Js); N]) -> Result<T, ()> {
    match T::deserialize(obj(m)) { Ok(v) => Ok(v), Err(_) => Err(()) }
}

pub fn de_info(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> {
    Ok(NodeInfoResponse {
        peer_version: a.0, pox_consensus: a.1, burn_block_height: a.2, stable_pox_consensus: a.3,
        stable_burn_block_height: b.0, server_version: b.1, network_id: b.2, parent_network_id: b.3,
        stacks_tip_height: c.0, stacks_tip: c.1, stacks_tip_consensus_hash: c.2, genesis_chainstate_hash: c.3,
    })
}
pub fn de_info_rev(a: (u64, String, u64, String), b: (u64, String, u32, u32), c: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { de_info(a, b, c) }
pub fn de_addr(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> {
    Ok(AddressInfoResponse { balance: a, locked: b, unlock_height: c, nonce: d, balance_proof: e, nonce_proof: f })
}
pub fn de_addr_rev(a: String, b: String, c: u64, d: u64, e: String, f: String) -> Result<AddressInfoResponse, ()> { de_addr(a, b, c, d, e, f) }
pub fn de_fee(a: u64, b: f64) -> Result<FeeEstimate, ()> { Ok(FeeEstimate { fee: a, fee_rate: b }) }
pub fn de_fees(a: u64, b: f64, c: u64, d: f64) -> Result<FeeOk, ()> {
    Ok(FeeOk { estimations: vec![FeeEstimate { fee: a, fee_rate: b }, FeeEstimate { fee: c, fee_rate: d }] })
}
pub fn de_berr(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { Ok(BroadcastErr { error: a, reason: b, txid: c }) }
pub fn de_berr_rev(a: String, b: String, c: String) -> Result<BroadcastErr, ()> { de_berr(a, b, c) }
pub fn de_ro_ok(a: bool, b: String) -> Result<ReadOnlyOk, ()> { Ok(ReadOnlyOk { okay: a, result: b }) }
pub fn de_ro_err(a: bool, b: String) -> Result<ReadOnlyErr, ()> { Ok(ReadOnlyErr { okay: a, cause: b }) }
pub fn de_ro_no(_: bool) -> Result<ReadOnlyOk, ()> { Err(()) }
pub fn de_roe_no(_: bool) -> Result<ReadOnlyErr, ()> { Err(()) }
pub fn de_ror(a: bool, b: String) -> Result<ReadOnlyResponse, ()> { Ok(ReadOnlyResponse::Ok(ReadOnlyOk { okay: a, result: b })) }
pub fn de_rore(a: bool, b: String) -> Result<ReadOnlyResponse, ()> { Ok(ReadOnlyResponse::Err(ReadOnlyErr { okay: a, cause: b })) }
pub fn de_ror_no(_: bool) -> Result<ReadOnlyResponse, ()> { Err(()) }
pub fn de_br(a: String) -> Result<BroadcastResponse, ()> { Ok(BroadcastResponse::Ok(a)) }
pub fn de_bre(a: String, b: String, c: String) -> Result<BroadcastResponse, ()> { Ok(BroadcastResponse::Err(BroadcastErr { error: a, reason: b, txid: c })) }
pub fn de_ef(a: u64, b: f64, c: u64, d: f64) -> Result<EstimateFeeResponse, ()> { match de_fees(a, b, c, d) { Ok(v) => Ok(EstimateFeeResponse::Ok(v)), Err(_) => Err(()) } }
pub fn de_efe(a: String) -> Result<EstimateFeeResponse, ()> { Ok(EstimateFeeResponse::Err(a)) }
pub fn de_addr_ty(_: String, _: u64, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_addr_no(_: String, _: String, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_berr_no(_: String, _: String) -> Result<BroadcastErr, ()> { Err(()) }
pub fn de_fee_no(_: f64) -> Result<FeeEstimate, ()> { Err(()) }
pub fn de_show(e: &BroadcastErr) -> String {
    let mut s = String::from("message: ");
    s.push_str(&e.error);
    s.push_str(", reason: ");
    s.push_str(&e.reason);
    s
}
pub fn de_show_r(e: &BroadcastResponse) -> String { match e { BroadcastResponse::Ok(s) => s.clone(), BroadcastResponse::Err(e) => de_show(e) } }
pub fn de_info_m0(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m1(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m2(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m3(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m4(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m5(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m6(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m7(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m8(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m9(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m10(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_info_m11(_: (u64, String, u64, String), _: (u64, String, u32, u32), _: (u64, String, String, String)) -> Result<NodeInfoResponse, ()> { Err(()) }
pub fn de_addr_m0(_: String, _: String, _: u64, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_addr_m1(_: String, _: String, _: u64, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_addr_m2(_: String, _: String, _: u64, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_addr_m3(_: String, _: String, _: u64, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_addr_m4(_: String, _: String, _: u64, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_addr_m5(_: String, _: String, _: u64, _: u64, _: String, _: String) -> Result<AddressInfoResponse, ()> { Err(()) }
pub fn de_berr_m0(_: String, _: String, _: String) -> Result<BroadcastErr, ()> { Err(()) }
pub fn de_berr_m1(_: String, _: String, _: String) -> Result<BroadcastErr, ()> { Err(()) }
pub fn de_berr_m2(_: String, _: String, _: String) -> Result<BroadcastErr, ()> { Err(()) }
pub fn de_fee_m0(_: u64, _: f64) -> Result<FeeEstimate, ()> { Err(()) }
pub fn de_fee_m1(_: u64, _: f64) -> Result<FeeEstimate, ()> { Err(()) }
pub fn de_ro_ok_m0(_: bool, _: String) -> Result<ReadOnlyOk, ()> { Err(()) }
pub fn de_ro_ok_m1(_: bool, _: String) -> Result<ReadOnlyOk, ()> { Err(()) }
pub fn de_ro_err_m0(_: bool, _: String) -> Result<ReadOnlyErr, ()> { Err(()) }
pub fn de_ro_err_m1(_: bool, _: String) -> Result<ReadOnlyErr, ()> { Err(()) }
