//! Reference semantics, written from SIP-005 and the crate documentation.  The
//! analyser summarises these with the same engine as the implementation and
//! compares the summaries; they are never executed.
use crate::intr::*;
use crate::*;

type R<T> = Result<T, ()>;

pub fn be32(n: usize) -> R<[u8; 4]> {
    if n > 0xffff_ffff { return Err(()); }
    Ok((n as u32).to_be_bytes())
}
fn u32at(b: &[u8], i: usize) -> usize {
    u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize
}
pub fn utf8(b: &[u8]) -> R<String> {
    match String::from_utf8(b.to_vec()) { Ok(s) => Ok(s), Err(_) => Err(()) }
}
pub fn sub_enc(c: &Box<dyn Clarity>) -> R<Vec<u8>> {
    match c.encode() { Ok(v) => Ok(v), Err(_) => Err(()) }
}

// ---- encoders
pub fn enc_int(x: &Int) -> R<Vec<u8>> { let mut v = vec![0x00]; v.extend_from_slice(&x.value().to_be_bytes()); Ok(v) }
pub fn enc_uint(x: &UInt) -> R<Vec<u8>> { let mut v = vec![0x01]; v.extend_from_slice(&x.value().to_be_bytes()); Ok(v) }
fn pfx(id: u8, b: &[u8]) -> R<Vec<u8>> {
    let mut v = vec![id];
    v.extend_from_slice(&be32(b.len())?);
    v.extend_from_slice(b);
    Ok(v)
}
pub fn enc_buffer(x: &Buffer) -> R<Vec<u8>> { pfx(0x02, x.value()) }
pub fn enc_true(x: &True) -> R<Vec<u8>> { Ok(vec![0x03]) }
pub fn enc_false(x: &False) -> R<Vec<u8>> { Ok(vec![0x04]) }
pub fn addr(a: &String) -> R<Vec<u8>> {
    match c32_address_decode(a) {
        Ok((h, v)) => { let mut o = vec![v]; o.extend_from_slice(&h); Ok(o) }
        Err(_) => Err(()),
    }
}
pub fn name(s: &String) -> R<Vec<u8>> {
    if s.len() > 128 { return Err(()); }
    let mut o = vec![s.len() as u8];
    o.extend_from_slice(s.as_bytes());
    Ok(o)
}
pub fn enc_pstd(x: &PrincipalStandard) -> R<Vec<u8>> {
    let mut v = vec![0x05];
    v.extend_from_slice(&addr(x.value())?);
    Ok(v)
}
pub fn enc_pcon(x: &PrincipalContract) -> R<Vec<u8>> {
    let mut v = vec![0x06];
    v.extend_from_slice(&addr(&x.value().0)?);
    v.extend_from_slice(&name(&x.value().1)?);
    Ok(v)
}
fn wrap(id: u8, c: &Box<dyn Clarity>) -> R<Vec<u8>> {
    let mut v = vec![id];
    v.extend_from_slice(&sub_enc(c)?);
    Ok(v)
}
pub fn enc_ok(x: &ResponseOk) -> R<Vec<u8>> { wrap(0x07, x.value()) }
pub fn enc_err(x: &ResponseErr) -> R<Vec<u8>> { wrap(0x08, x.value()) }
pub fn enc_none(x: &OptionalNone) -> R<Vec<u8>> { Ok(vec![0x09]) }
pub fn enc_some(x: &OptionalSome) -> R<Vec<u8>> { wrap(0x0a, x.value()) }
pub fn enc_list(x: &List) -> R<Vec<u8>> {
    let mut v = vec![0x0b];
    v.extend_from_slice(&be32(x.value().len())?);
    for c in x.value() { v.extend_from_slice(&sub_enc(c)?); }
    Ok(v)
}
pub fn enc_tuple(x: &Tuple) -> R<Vec<u8>> {
    let mut v = vec![0x0c];
    v.extend_from_slice(&be32(x.value().len())?);
    for (k, c) in x.value() {
        v.extend_from_slice(&name(k)?);
        v.extend_from_slice(&sub_enc(c)?);
    }
    Ok(v)
}
pub fn enc_ascii(x: &StringAscii) -> R<Vec<u8>> {
    if !x.value().is_ascii() { return Err(()); }
    pfx(0x0d, x.value().as_bytes())
}
pub fn enc_utf8(x: &StringUtf8) -> R<Vec<u8>> { pfx(0x0e, x.value().as_bytes()) }
pub fn enc_lps(x: &LengthPrefixedStr) -> R<Vec<u8>> { name(x.value()) }
pub fn enc_fnargs(x: &FnArguments) -> R<Vec<u8>> {
    let mut v = vec![];
    v.extend_from_slice(&be32(x.value().len())?);
    for c in x.value() { v.extend_from_slice(&sub_enc(c)?); }
    Ok(v)
}

// ---- decoders
fn arr16(b: &[u8]) -> [u8; 16] { let mut a = [0u8; 16]; a.copy_from_slice(&b[1..17]); a }
pub fn dec_int(b: &[u8]) -> R<Int> { if b.len() < 17 || b[0] != 0 { return Err(()); } Ok(Int::new(i128::from_be_bytes(arr16(b)))) }
pub fn dec_uint(b: &[u8]) -> R<UInt> { if b.len() < 17 || b[0] != 1 { return Err(()); } Ok(UInt::new(u128::from_be_bytes(arr16(b)))) }
fn body(id: u8, b: &[u8]) -> R<&[u8]> {
    if b.len() < 5 || b[0] != id { return Err(()); }
    let n = u32at(b, 1);
    if b.len() - 5 < n { return Err(()); }
    Ok(&b[5..5 + n])
}
pub fn dec_buffer(b: &[u8]) -> R<Buffer> { Ok(Buffer::new(body(2, b)?.to_vec())) }
pub fn dec_true(b: &[u8]) -> R<True> { if b.len() < 1 || b[0] != 3 { return Err(()); } Ok(True::new()) }
pub fn dec_false(b: &[u8]) -> R<False> { if b.len() < 1 || b[0] != 4 { return Err(()); } Ok(False::new()) }
pub fn dec_none(b: &[u8]) -> R<OptionalNone> { if b.len() < 1 || b[0] != 9 { return Err(()); } Ok(OptionalNone::new()) }
pub fn dec_pstd(b: &[u8]) -> R<PrincipalStandard> {
    if b.len() < 22 || b[0] != 5 { return Err(()); }
    match c32_address(&b[2..22], b[1]) { Ok(s) => Ok(PrincipalStandard::new(s)), Err(_) => Err(()) }
}
pub fn dname(b: &[u8], at: usize) -> R<String> {
    if b.len() < at + 1 { return Err(()); }
    let n = b[at] as usize;
    if n > 128 || b.len() < at + 1 + n { return Err(()); }
    utf8(&b[at + 1..at + 1 + n])
}
pub fn dec_pcon(b: &[u8]) -> R<PrincipalContract> {
    if b.len() < 23 || b[0] != 6 { return Err(()); }
    let a = match c32_address(&b[2..22], b[1]) { Ok(s) => s, Err(_) => return Err(()) };
    Ok(PrincipalContract::new((a, dname(b, 22)?)))
}
pub fn any(b: &[u8]) -> R<Box<dyn Clarity>> {
    match decode_clarity_type(b) { Ok(v) => Ok(v), Err(_) => Err(()) }
}
fn inner(id: u8, b: &[u8]) -> R<Box<dyn Clarity>> {
    if b.len() < 1 || b[0] != id { return Err(()); }
    any(&b[1..])
}
pub fn dec_ok(b: &[u8]) -> R<ResponseOk> { Ok(ResponseOk::new(inner(7, b)?)) }
pub fn dec_err(b: &[u8]) -> R<ResponseErr> { Ok(ResponseErr::new(inner(8, b)?)) }
pub fn dec_some(b: &[u8]) -> R<OptionalSome> { Ok(OptionalSome::new(inner(10, b)?)) }
pub fn dec_ascii(b: &[u8]) -> R<StringAscii> {
    let s = utf8(body(13, b)?)?;
    if !s.is_ascii() { return Err(()); }
    Ok(StringAscii::new(s))
}
pub fn dec_utf8(b: &[u8]) -> R<StringUtf8> { Ok(StringUtf8::new(utf8(body(14, b)?)?)) }
pub fn dec_lps(b: &[u8]) -> R<LengthPrefixedStr> { Ok(LengthPrefixedStr::new(dname(b, 0)?)) }
pub fn dec_list(b: &[u8]) -> R<List> {
    if b.len() < 5 || b[0] != 11 { return Err(()); }
    Ok(List::new(items(b, 5, u32at(b, 1))?))
}
fn items(b: &[u8], start: usize, n: usize) -> R<Vec<Box<dyn Clarity>>> {
    let mut at = start;
    let mut out = vec![];
    for _ in 0..n {
        if at > b.len() { return Err(()); }
        let c = any(&b[at..])?;
        at += sub_enc(&c)?.len();
        out.push(c);
    }
    Ok(out)
}
pub fn dec_tuple(b: &[u8]) -> R<Tuple> {
    if b.len() < 5 || b[0] != 12 { return Err(()); }
    let n = u32at(b, 1);
    let mut at = 5;
    let mut out = vec![];
    for _ in 0..n {
        let k = dname(b, at)?;
        at += 1 + b[at] as usize;
        let c = any(&b[at..])?;
        at += sub_enc(&c)?.len();
        out.push((k, c));
    }
    Ok(Tuple::new(out))
}
pub fn dec_fnargs(b: &[u8]) -> R<FnArguments> {
    if b.len() < 4 { return Err(()); }
    let n = u32at(b, 0);
    let mut out: Vec<Box<dyn Clarity>> = vec![];
    let mut rest = &b[4..];
    for _ in 0..n {
        let c = any(rest)?;
        let l = sub_enc(&c)?.len();
        if rest.len() < l { return Err(()); }
        rest = &rest[l..];
        out.push(c);
    }
    Ok(FnArguments::new(out))
}
pub fn dec_any(b: &[u8]) -> R<Box<dyn Clarity>> {
    if b.is_empty() { return Err(()); }
    macro_rules! d { ($t:ty) => { match <$t as Codec>::decode(b) { Ok(v) => Ok(Box::new(v) as Box<dyn Clarity>), Err(_) => Err(()) } } }
    match b[0] {
        0 => d!(Int), 1 => d!(UInt), 2 => d!(Buffer), 3 => d!(True), 4 => d!(False), 5 => d!(PrincipalStandard), 6 => d!(PrincipalContract),
        7 => d!(ResponseOk), 8 => d!(ResponseErr), 9 => d!(OptionalNone), 10 => d!(OptionalSome), 11 => d!(List), 12 => d!(Tuple),
        13 => d!(StringAscii), 14 => d!(StringUtf8), _ => Err(()),
    }
}
