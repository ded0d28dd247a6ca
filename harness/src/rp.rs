//! References for the node client.
use crate::intr::{self, net, Net};
use stacks_rs::clarity::*;
use stacks_rs::rpc::*;
use stacks_rs::transaction::*;

fn url(r: &StacksRPC, p: &str) -> String { let mut u = String::from(intr::field::<StacksRPC, String>(r, "__url").as_str()); u.push_str(p); u }
pub fn rp_new(s: String) -> String { s }
pub fn rp_new_str(s: &str) -> String { String::from(s) }
pub fn rp_info(r: &StacksRPC) -> (Result<NodeInfoResponse, ()>, Net) {
    let x = match ureq::get(&url(r, "/v2/info")).call() {
        Ok(p) => match p.into_json::<NodeInfoResponse>() { Ok(v) => Ok(v), Err(_) => Err(()) },
        Err(_) => Err(()),
    };
    (x, net())
}
pub fn rp_address(r: &StacksRPC, a: &str) -> (Result<AddressInfoResponse, ()>, Net) {
    let mut u = url(r, "/v2/accounts/");
    u.push_str(a);
    let x = match ureq::get(&u).call() {
        Ok(p) => match p.into_json::<AddressInfoResponse>() { Ok(v) => Ok(v), Err(_) => Err(()) },
        Err(_) => Err(()),
    };
    (x, net())
}
pub fn rp_fee(r: &StacksRPC, t: &Transaction) -> (Result<EstimateFeeResponse, ()>, Net) { let x = fee(r, t); (x, net()) }
fn fee(r: &StacksRPC, t: &Transaction) -> Result<EstimateFeeResponse, ()> {
    let pl = intr::field::<Transaction, Box<dyn Payload>>(t, "payload");
    let h = match pl.hex() { Ok(h) => h, Err(_) => return Err(()) };
    let l = match t.len() { Ok(l) => l, Err(_) => return Err(()) };
    match ureq::post(&url(r, "/v2/fees/transaction")).send_json(ureq::json!({"estimated_len": l, "transaction_payload": h})) {
        Ok(p) => match p.into_json::<FeeOk>() { Ok(v) => Ok(EstimateFeeResponse::Ok(v)), Err(_) => Err(()) },
        Err(ureq::Error::Status(_, p)) => match p.into_string() { Ok(s) => Ok(EstimateFeeResponse::Err(s)), Err(_) => Err(()) },
        Err(_) => Err(()),
    }
}
pub fn rp_broadcast(r: &StacksRPC, t: &Transaction) -> (Result<BroadcastResponse, ()>, Net) { let x = broadcast(r, t); (x, net()) }
fn broadcast(r: &StacksRPC, t: &Transaction) -> Result<BroadcastResponse, ()> {
    let b = match t.encode() { Ok(h) => h, Err(_) => return Err(()) };
    match ureq::post(&url(r, "/v2/transactions")).set("Content-Type", "application/octet-stream").send_bytes(&b) {
        Ok(p) => match p.into_string() { Ok(s) => Ok(BroadcastResponse::Ok(s)), Err(_) => Err(()) },
        Err(ureq::Error::Status(_, p)) => match p.into_json::<BroadcastErr>() { Ok(v) => Ok(BroadcastResponse::Err(v)), Err(_) => Err(()) },
        Err(_) => Err(()),
    }
}
pub fn rp_read(r: &StacksRPC, a: &str, n: &str, f: &str, args: FnArguments, s: &str) -> (Result<ReadOnlyResponse, ()>, Net) { let x = read(r, a, n, f, args, s); (x, net()) }
fn read(r: &StacksRPC, a: &str, n: &str, f: &str, args: FnArguments, s: &str) -> Result<ReadOnlyResponse, ()> {
    let mut u = url(r, "/v2/contracts/call-read/");
    u.push_str(a);
    u.push_str("/");
    u.push_str(n);
    u.push_str("/");
    u.push_str(f);
    let mut hs: Vec<String> = Vec::new();
    for x in intr::takefield::<FnArguments, Vec<Box<dyn Clarity>>>(&args, "__value").iter() {
        match x.hex() { Ok(h) => hs.push(h), Err(_) => return Err(()) }
    }
    match ureq::post(&u).send_json(ureq::json!({"sender": s, "arguments": hs})) {
        Ok(p) => match p.into_json::<ReadOnlyResponse>() { Ok(v) => Ok(v), Err(_) => Err(()) },
        Err(_) => Err(()),
    }
}
pub fn rq_info(r: &StacksRPC) -> Net { rp_info(r).1 }
pub fn rq_address(r: &StacksRPC, a: &str) -> Net { rp_address(r, a).1 }
pub fn rq_fee(r: &StacksRPC, t: &Transaction) -> Net { let _ = fee(r, t); net() }
pub fn rq_broadcast(r: &StacksRPC, t: &Transaction) -> Net { let _ = broadcast(r, t); net() }
pub fn rq_read(r: &StacksRPC, a: &str, n: &str, f: &str, args: FnArguments, s: &str) -> Net { let _ = read(r, a, n, f, args, s); net() }
