//! References for the tuple-to-struct derive.
use stacks_rs::clarity::*;

fn at(t: &Tuple, k: &str) -> Option<Box<dyn Clarity>> { t.get(k) }
fn int(v: &Box<dyn Clarity>) -> Option<i128> { match v.as_any().downcast_ref::<Int>() { Some(x) => Some(x.clone().into_value()), None => None } }
fn uint(v: &Box<dyn Clarity>) -> Option<u128> { match v.as_any().downcast_ref::<UInt>() { Some(x) => Some(x.clone().into_value()), None => None } }
fn buf(v: &Box<dyn Clarity>) -> Option<Vec<u8>> { match v.as_any().downcast_ref::<Buffer>() { Some(x) => Some(x.clone().into_value()), None => None } }
fn boolean(v: &Box<dyn Clarity>) -> Option<bool> {
    match v.as_any().downcast_ref::<True>() { Some(x) => return Some(x.clone().into_value()), None => {} }
    match v.as_any().downcast_ref::<False>() { Some(x) => Some(x.clone().into_value()), None => None }
}
fn okv(v: &Box<dyn Clarity>) -> Option<Box<dyn Clarity>> { match v.as_any().downcast_ref::<ResponseOk>() { Some(x) => Some(x.clone().into_value()), None => None } }
pub fn d_int(t: Tuple) -> Result<i128, ()> { match at(&t, "a") { Some(v) => int(&v).ok_or(()), None => Err(()) } }
pub fn d_uint(t: Tuple) -> Result<u128, ()> { match at(&t, "b-key") { Some(v) => uint(&v).ok_or(()), None => Err(()) } }
pub fn d_bool(t: Tuple) -> Result<bool, ()> { match at(&t, "c") { Some(v) => boolean(&v).ok_or(()), None => Err(()) } }
pub fn d_buf(t: Tuple) -> Result<Vec<u8>, ()> { match at(&t, "d") { Some(v) => buf(&v).ok_or(()), None => Err(()) } }
pub fn d_str(t: Tuple) -> Result<String, ()> { match at(&t, "e") { Some(v) => Ok(v.to_string()), None => Err(()) } }
pub fn d_rint(t: Tuple) -> Result<i128, ()> { match at(&t, "f") { Some(v) => match okv(&v) { Some(w) => int(&w).ok_or(()), None => Err(()) }, None => Err(()) } }
pub fn d_ruint(t: Tuple) -> Result<u128, ()> { match at(&t, "g") { Some(v) => match okv(&v) { Some(w) => uint(&w).ok_or(()), None => Err(()) }, None => Err(()) } }
pub fn d_strs(t: Tuple) -> Result<Vec<String>, ()> {
    let l = match at(&t, "h") { Some(v) => match v.as_any().downcast_ref::<List>() { Some(l) => l.clone().into_value(), None => return Err(()) }, None => return Err(()) };
    let mut r = Vec::new();
    for x in l.into_iter() { r.push(x.to_string()); }
    Ok(r)
}
pub fn d_nest(t: Tuple) -> Result<(u128, i128), ()> {
    let n = match at(&t, "n") { Some(v) => match v.as_any().downcast_ref::<Tuple>() { Some(l) => l.clone(), None => return Err(()) }, None => return Err(()) };
    let b = match d_uint(n) { Ok(x) => x, Err(_) => return Err(()) };
    match d_int(t) { Ok(a) => Ok((b, a)), Err(_) => Err(()) }
}
pub fn d_multi(t: Tuple) -> Result<(i128, i128, u128, Vec<u8>, bool, bool), ()> {
    let a = match at(&t, "a") { Some(v) => match int(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    let b = match at(&t, "b") { Some(v) => match int(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    let c = match at(&t, "c") { Some(v) => match uint(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    let d = match at(&t, "d") { Some(v) => match buf(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    let e = match at(&t, "e") { Some(v) => match boolean(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    let g = match at(&t, "g") { Some(v) => match boolean(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    Ok((a, b, c, d, e, g))
}
pub fn d_opt_int(x: i128) -> Result<Option<i128>, ()> { Ok(Some(x)) }
pub fn d_opt_int_none() -> Result<Option<i128>, ()> { Ok(None) }
pub fn d_opt_int_abs() -> Result<Option<i128>, ()> { Err(()) }
pub fn d_opt_uint(x: u128) -> Result<Option<u128>, ()> { Ok(Some(x)) }
pub fn d_opt_uint_none() -> Result<Option<u128>, ()> { Ok(None) }
pub fn d_opt_uint_abs() -> Result<Option<u128>, ()> { Err(()) }
pub fn d_opt_str(x: Box<dyn Clarity>) -> Result<Option<String>, ()> { Ok(Some(x.to_string())) }
pub fn d_opt_str_none() -> Result<Option<String>, ()> { Ok(None) }
pub fn d_true() -> Result<bool, ()> { Ok(true) }
pub fn d_false() -> Result<bool, ()> { Ok(false) }
pub fn d_qual(t: Tuple) -> Result<(Vec<u8>, Vec<String>), ()> {
    let x = match at(&t, "d") { Some(v) => match buf(&v) { Some(x) => x, None => return Err(()) }, None => return Err(()) };
    match d_strs(t) { Ok(y) => Ok((x, y)), Err(_) => Err(()) }
}
pub fn d_key0(t: Tuple) -> Result<u128, ()> { one_uint(&t, "a_b") }
pub fn d_key1(t: Tuple) -> Result<u128, ()> { one_uint(&t, "Ab") }
pub fn d_key2(t: Tuple) -> Result<u128, ()> { one_uint(&t, "a b") }
pub fn d_key3(t: Tuple) -> Result<u128, ()> { one_uint(&t, "") }
pub fn d_key4(t: Tuple) -> Result<u128, ()> { one_uint(&t, " k ") }
pub fn d_key5(t: Tuple) -> Result<u128, ()> { one_uint(&t, "x-URI?") }
pub fn d_key6(t: Tuple) -> Result<u128, ()> { one_uint(&t, "k-1") }
pub fn d_key7(t: Tuple) -> Result<u128, ()> { one_uint(&t, "k1") }
pub fn d_key8(t: Tuple) -> Result<u128, ()> { one_uint(&t, "very-long-entry-name-with-many-parts-and-0123456789") }
pub fn d_key9(t: Tuple) -> Result<u128, ()> { one_uint(&t, "r#type") }
pub fn d_key10(t: Tuple) -> Result<u128, ()> { one_uint(&t, "\u{e9}") }
pub fn d_key11(t: Tuple) -> Result<u128, ()> { one_uint(&t, "\"q\"") }
pub fn d_key12(t: Tuple) -> Result<u128, ()> { one_uint(&t, "o") }
pub fn d_key13(t: Tuple) -> Result<u128, ()> { one_uint(&t, "is-ok!") }
pub fn d_key14(t: Tuple) -> Result<u128, ()> { one_uint(&t, "a-b") }
fn one_uint(t: &Tuple, k: &str) -> Result<u128, ()> { match at(t, k) { Some(v) => uint(&v).ok_or(()), None => Err(()) } }
fn one_int(t: &Tuple, k: &str) -> Result<i128, ()> { match at(t, k) { Some(v) => int(&v).ok_or(()), None => Err(()) } }
fn one_str(t: &Tuple, k: &str) -> Result<String, ()> { match at(t, k) { Some(v) => Ok(v.to_string()), None => Err(()) } }
pub fn d_nresp(t: Tuple) -> Result<(i128, u128), ()> { let x = one_int(&t, "f")?; let y = one_uint(&t, "g")?; Ok((x, y)) }
pub fn d_yresp(t: Tuple) -> Result<(i128, u128, u128, i128), ()> {
    let x = match at(&t, "f") { Some(v) => match okv(&v) { Some(w) => int(&w).ok_or(())?, None => return Err(()) }, None => return Err(()) };
    let y = one_uint(&t, "g")?;
    let z = match at(&t, "f-2") { Some(v) => match okv(&v) { Some(w) => uint(&w).ok_or(())?, None => return Err(()) }, None => return Err(()) };
    let w = one_int(&t, "g-2")?;
    Ok((x, y, z, w))
}
pub fn d_same(t: Tuple) -> Result<(u128, u128, String), ()> { let x = one_uint(&t, "a")?; Ok((x, x, one_str(&t, "a")?)) }
pub fn d_gen(t: Tuple) -> Result<(u128, u128), ()> { let x = one_uint(&t, "a")?; Ok((x, one_uint(&t, "b")?)) }
pub fn d_nest2(t: Tuple) -> Result<(u128, i128, i128), ()> {
    let m = match at(&t, "m") { Some(v) => match v.as_any().downcast_ref::<Tuple>() { Some(l) => l.clone(), None => return Err(()) }, None => return Err(()) };
    let (a, b) = d_nest(m)?;
    let n = match at(&t, "n") { Some(v) => match v.as_any().downcast_ref::<Tuple>() { Some(l) => l.clone(), None => return Err(()) }, None => return Err(()) };
    Ok((a, b, one_int(&n, "a")?))
}
fn list_strs(t: &Tuple, k: &str) -> Result<Vec<String>, ()> {
    let l = match at(t, k) { Some(v) => match v.as_any().downcast_ref::<List>() { Some(l) => l.clone().into_value(), None => return Err(()) }, None => return Err(()) };
    let mut r = Vec::new();
    for x in l.into_iter() { r.push(x.to_string()); }
    Ok(r)
}
pub fn d_twostr(t: Tuple) -> Result<(String, String, Vec<String>, Vec<String>), ()> {
    let a = one_str(&t, "b")?;
    let b = one_str(&t, "a")?;
    let c = list_strs(&t, "h")?;
    Ok((a, b, c, list_strs(&t, "k")?))
}
