//! References for values: construction, access, conversion, copies, iteration,
//! printing, casts and the ordered-map operations of tuples.
use crate::intr;
use stacks_rs::clarity::*;
type Bx = Box<dyn Clarity>;

macro_rules! vals {
    ($($t:ident, $v:ty, $nv:ident, $rv:ident, $iv:ident, $cl:ident, $eq:ident, $id:ident, $n:literal;)*) => { $(
        pub fn $nv(v: $v) -> $v { v }
        pub fn $rv(x: &$t) -> &$v { intr::field::<$t, $v>(x, "__value") }
        pub fn $iv(x: $t) -> $v { intr::takefield::<$t, $v>(&x, "__value") }
        pub fn $cl(x: &$t) -> $v { intr::field::<$t, $v>(x, "__value").clone() }
        pub fn $eq(x: &$t, y: &$t) -> bool { x.to_string() == y.to_string() }
        pub fn $id() -> u8 { $n }
    )* }
}
vals! {
    Int, i128, nv_int, rv_int, iv_int, cl_int, eq_int, id_int, 0;
    UInt, u128, nv_uint, rv_uint, iv_uint, cl_uint, eq_uint, id_uint, 1;
    Buffer, Vec<u8>, nv_buffer, rv_buffer, iv_buffer, cl_buffer, eq_buffer, id_buffer, 2;
    PrincipalStandard, String, nv_pstd, rv_pstd, iv_pstd, cl_pstd, eq_pstd, id_pstd, 5;
    PrincipalContract, (String, String), nv_pcon, rv_pcon, iv_pcon, cl_pcon, eq_pcon, id_pcon, 6;
    ResponseOk, Bx, nv_ok, rv_ok, iv_ok, cl_ok, eq_ok, id_ok, 7;
    ResponseErr, Bx, nv_err, rv_err, iv_err, cl_err, eq_err, id_err, 8;
    OptionalSome, Bx, nv_some, rv_some, iv_some, cl_some, eq_some, id_some, 10;
    List, Vec<Bx>, nv_list, rv_list, iv_list, cl_list, eq_list, id_list, 11;
    Tuple, Vec<(String, Bx)>, nv_tuple, rv_tuple, iv_tuple, cl_tuple, eq_tuple, id_tuple, 12;
    StringAscii, String, nv_ascii, rv_ascii, iv_ascii, cl_ascii, eq_ascii, id_ascii, 13;
    StringUtf8, String, nv_utf8, rv_utf8, iv_utf8, cl_utf8, eq_utf8, id_utf8, 14;
    LengthPrefixedStr, String, nv_lps, rv_lps, iv_lps, cl_lps, eq_lps, id_lps, 255;
    FnArguments, Vec<Bx>, nv_fnargs, rv_fnargs, iv_fnargs, cl_fnargs, eq_fnargs, id_fnargs, 255;
}
macro_rules! units {
    ($($t:ident, $v:ty, $nv:ident, $dv:ident, $rv:ident, $iv:ident, $cl:ident, $eq:ident, $id:ident, $c:expr, $n:literal;)*) => { $(
        pub fn $nv() -> $v { $c }
        pub fn $dv() -> $v { $c }
        pub fn $rv(x: &$t) -> &$v { intr::field::<$t, $v>(x, "__value") }
        pub fn $iv(x: $t) -> $v { intr::takefield::<$t, $v>(&x, "__value") }
        pub fn $cl(x: &$t) -> $v { intr::field::<$t, $v>(x, "__value").clone() }
        pub fn $eq(x: &$t, y: &$t) -> bool { true }
        pub fn $id() -> u8 { $n }
    )* }
}
units! {
    True, bool, nv_true, dv_true, rv_true, iv_true, cl_true, eq_true, id_true, true, 3;
    False, bool, nv_false, dv_false, rv_false, iv_false, cl_false, eq_false, id_false, false, 4;
    OptionalNone, Option<()>, nv_none, dv_none, rv_none, iv_none, cl_none, eq_none, id_none, None, 9;
}
fn val<T, V>(x: &T) -> &V { intr::field::<T, V>(x, "__value") }
pub fn ds_int(x: &Int) -> String { val::<Int, i128>(x).to_string() }
pub fn ds_uint(x: &UInt) -> String { let mut s = String::from("u"); s.push_str(&val::<UInt, u128>(x).to_string()); s }
pub fn ds_buffer(x: &Buffer) -> String { let mut s = String::from("0x"); s.push_str(&stacks_rs::crypto::bytes_to_hex(val::<Buffer, Vec<u8>>(x))); s }
pub fn ds_true(x: &True) -> String { String::from("true") }
pub fn ds_false(x: &False) -> String { String::from("false") }
pub fn ds_none(x: &OptionalNone) -> String { String::from("none") }
pub fn ds_pstd(x: &PrincipalStandard) -> String { val::<PrincipalStandard, String>(x).clone() }
pub fn ds_lps(x: &LengthPrefixedStr) -> String { val::<LengthPrefixedStr, String>(x).clone() }
pub fn ds_pcon(x: &PrincipalContract) -> String { let v = val::<PrincipalContract, (String, String)>(x); let mut s = v.0.clone(); s.push('.'); s.push_str(&v.1); s }
fn wrap(a: &str, v: &Bx) -> String { let mut s = String::from("("); s.push_str(a); s.push(' '); s.push_str(&v.to_string()); s.push(')'); s }
pub fn ds_ok(x: &ResponseOk) -> String { wrap("ok", val(x)) }
pub fn ds_err(x: &ResponseErr) -> String { wrap("err", val(x)) }
pub fn ds_some(x: &OptionalSome) -> String { wrap("some", val(x)) }
fn quoted(a: &str, v: &String) -> String { let mut s = String::from(a); s.push_str(v); s.push('"'); s }
pub fn ds_ascii(x: &StringAscii) -> String { quoted("\"", val(x)) }
pub fn ds_utf8(x: &StringUtf8) -> String { quoted("u\"", val(x)) }
fn seq(a: &str, v: &Vec<Bx>) -> String {
    let mut s = String::from(a);
    let mut i = 0;
    while i < v.len() { if i > 0 { s.push(' '); } s.push_str(&v[i].to_string()); i += 1; }
    s.push(')');
    s
}
pub fn ds_list(x: &List) -> String { seq("(list ", val(x)) }
pub fn ds_fnargs(x: &FnArguments) -> String { seq("(fn-args ", val(x)) }
pub fn ds_tuple(x: &Tuple) -> String {
    let v = val::<Tuple, Vec<(String, Bx)>>(x);
    let mut s = String::from("(tuple ");
    let mut i = 0;
    while i < v.len() { if i > 0 { s.push(' '); } s.push('('); s.push_str(&v[i].0); s.push(' '); s.push_str(&v[i].1.to_string()); s.push(')'); i += 1; }
    s.push(')');
    s
}
pub fn cv_int(x: i128) -> i128 { x }
pub fn cv_int_in(x: i128) -> i128 { x }
pub fn cv_int_out(x: Int) -> i128 { *val(&x) }
pub fn cv_uint_in(x: u128) -> u128 { x }
pub fn cv_uint_out(x: UInt) -> u128 { *val(&x) }
pub fn cv_buf_vec(x: Vec<u8>) -> Vec<u8> { x }
pub fn cv_buf_slice(x: &[u8]) -> Vec<u8> { x.to_vec() }
pub fn cv_buf_out(x: Buffer) -> Vec<u8> { intr::takefield::<Buffer, Vec<u8>>(&x, "__value") }
pub fn cv_pstd_str(x: &str) -> String { String::from(x) }
pub fn cv_pstd_string(x: String) -> String { x }
pub fn cv_pstd_out(x: PrincipalStandard) -> String { intr::takefield::<PrincipalStandard, String>(&x, "__value") }
pub fn cv_pcon_str(a: &str, b: &str) -> (String, String) { (String::from(a), String::from(b)) }
pub fn cv_pcon_string(a: String, b: String) -> (String, String) { (a, b) }
pub fn cv_lps_str(x: &str) -> String { String::from(x) }
pub fn cv_lps_string(x: String) -> String { x }
pub fn it_buf(x: Buffer) -> Vec<u8> { intr::takefield::<Buffer, Vec<u8>>(&x, "__value") }
pub fn it_list(x: List) -> Vec<Bx> { intr::takefield::<List, Vec<Bx>>(&x, "__value") }
pub fn it_tuple(x: Tuple) -> Vec<(String, Bx)> { intr::takefield::<Tuple, Vec<(String, Bx)>>(&x, "__value") }
pub fn it_fnargs(x: FnArguments) -> Vec<Bx> { intr::takefield::<FnArguments, Vec<Bx>>(&x, "__value") }
fn own<T: 'static>(x: Bx) -> Option<T> { match x.into_any().downcast::<T>() { Ok(v) => Some(*v), Err(_) => None } }
fn bor<T: 'static>(x: &Bx) -> Option<&T> { x.as_any().downcast_ref::<T>() }
macro_rules! casts { ($($t:ty, $a:ident, $b:ident, $c:ident, $d:ident, $e:ident, $f:ident, $g:ident, $h:ident;)*) => { $(
    pub fn $a(x: Bx) -> Option<$t> { own::<$t>(x) }
    pub fn $b(x: &Bx) -> Option<&$t> { bor::<$t>(x) }
    pub fn $c(x: ResponseOk) -> Option<$t> { own::<$t>(intr::takefield::<ResponseOk, Bx>(&x, "__value")) }
    pub fn $d(x: &ResponseOk) -> Option<&$t> { bor::<$t>(val::<ResponseOk, Bx>(x)) }
    pub fn $e(x: ResponseErr) -> Option<$t> { own::<$t>(intr::takefield::<ResponseErr, Bx>(&x, "__value")) }
    pub fn $f(x: &ResponseErr) -> Option<&$t> { bor::<$t>(val::<ResponseErr, Bx>(x)) }
    pub fn $g(x: OptionalSome) -> Option<$t> { own::<$t>(intr::takefield::<OptionalSome, Bx>(&x, "__value")) }
    pub fn $h(x: &OptionalSome) -> Option<&$t> { bor::<$t>(val::<OptionalSome, Bx>(x)) }
)* } }
casts! {
    Int, ca_int1, ca_int2, ca_int3, ca_int4, ca_int5, ca_int6, ca_int7, ca_int8;
    UInt, ca_uint1, ca_uint2, ca_uint3, ca_uint4, ca_uint5, ca_uint6, ca_uint7, ca_uint8;
    List, ca_list1, ca_list2, ca_list3, ca_list4, ca_list5, ca_list6, ca_list7, ca_list8;
    ResponseOk, ca_ok1, ca_ok2, ca_ok3, ca_ok4, ca_ok5, ca_ok6, ca_ok7, ca_ok8;
    True, ca_true1, ca_true2, ca_true3, ca_true4, ca_true5, ca_true6, ca_true7, ca_true8;
    False, ca_false1, ca_false2, ca_false3, ca_false4, ca_false5, ca_false6, ca_false7, ca_false8;
    Buffer, ca_buf1, ca_buf2, ca_buf3, ca_buf4, ca_buf5, ca_buf6, ca_buf7, ca_buf8;
    PrincipalStandard, ca_std1, ca_std2, ca_std3, ca_std4, ca_std5, ca_std6, ca_std7, ca_std8;
    PrincipalContract, ca_con1, ca_con2, ca_con3, ca_con4, ca_con5, ca_con6, ca_con7, ca_con8;
    ResponseErr, ca_err1, ca_err2, ca_err3, ca_err4, ca_err5, ca_err6, ca_err7, ca_err8;
    OptionalSome, ca_some1, ca_some2, ca_some3, ca_some4, ca_some5, ca_some6, ca_some7, ca_some8;
    OptionalNone, ca_none1, ca_none2, ca_none3, ca_none4, ca_none5, ca_none6, ca_none7, ca_none8;
    Tuple, ca_tup1, ca_tup2, ca_tup3, ca_tup4, ca_tup5, ca_tup6, ca_tup7, ca_tup8;
    StringAscii, ca_ascii1, ca_ascii2, ca_ascii3, ca_ascii4, ca_ascii5, ca_ascii6, ca_ascii7, ca_ascii8;
    StringUtf8, ca_utf81, ca_utf82, ca_utf83, ca_utf84, ca_utf85, ca_utf86, ca_utf87, ca_utf88;
    LengthPrefixedStr, ca_lps1, ca_lps2, ca_lps3, ca_lps4, ca_lps5, ca_lps6, ca_lps7, ca_lps8;
    FnArguments, ca_fna1, ca_fna2, ca_fna3, ca_fna4, ca_fna5, ca_fna6, ca_fna7, ca_fna8;
}
fn tv(x: &Tuple) -> &Vec<(String, Bx)> { val(x) }
fn first(x: &Tuple, k: &str) -> Option<usize> {
    let v = tv(x);
    let mut i = 0;
    while i < v.len() { if v[i].0.as_str() == k { return Some(i); } i += 1; }
    None
}
pub fn tu_get(x: &Tuple, k: &str) -> Option<Bx> { match first(x, k) { Some(i) => Some(tv(x)[i].1.clone()), None => None } }
pub fn tu_get_string(x: &Tuple, k: String) -> Option<Bx> { tu_get(x, &k) }
pub fn tu_get_mut(mut x: Tuple, k: &str, v: Bx) -> (bool, Tuple) {
    match first(&x, k) {
        Some(i) => { intr::field_mut::<Tuple, Vec<(String, Bx)>>(&mut x, "__value")[i].1 = v; (true, x) }
        None => (false, x),
    }
}
pub fn tu_insert(x: Tuple, k: String, v: Int) -> Vec<(String, Bx)> { let mut w = intr::takefield::<Tuple, Vec<(String, Bx)>>(&x, "__value"); w.push((k, Box::new(v))); w }
pub fn tu_remove(x: Tuple, k: &str) -> (Option<Bx>, Vec<(String, Bx)>) {
    match first(&x, k) {
        Some(i) => { let mut w = intr::takefield::<Tuple, Vec<(String, Bx)>>(&x, "__value"); let r = w.remove(i); (Some(r.1), w) }
        None => (None, intr::takefield::<Tuple, Vec<(String, Bx)>>(&x, "__value")),
    }
}
pub fn tu_keys(x: &Tuple) -> Vec<String> { let mut v = vec![]; let w = tv(x); let mut i = 0; while i < w.len() { v.push(w[i].0.clone()); i += 1; } v }
pub fn tu_values(x: &Tuple) -> Vec<&Bx> { let mut v = vec![]; let w = tv(x); let mut i = 0; while i < w.len() { v.push(&w[i].1); i += 1; } v }
