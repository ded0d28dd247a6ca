//! References for the textual codecs (hex, Base58, Base58Check, C32, C32Check, addresses).
use crate::*;
use stacks_rs::crypto::{b58, c32, hex};

// ---- hex
pub fn nib(b: u8) -> Option<u8> {
    match b { 48..=57 => Some(b - 48), 97..=102 => Some(b - 87), 65..=70 => Some(b - 55), _ => None }
}
pub fn hex_dec(s: &str) -> Result<Vec<u8>, hex::Error> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 { return Err(hex::Error::UnpaddedHex(s.to_owned(), b.len())); }
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let h = nib(b[i]).ok_or(hex::Error::BadChar)?;
        let l = nib(b[i + 1]).ok_or(hex::Error::BadChar)?;
        out.push(h * 16 + l);
        i += 2;
    }
    Ok(out)
}
pub fn hex_enc(b: &[u8]) -> String { let mut s = String::new(); for x in b { s.push_str(&format!("{:02x}", x)); } s }

// ---- Base58
pub const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub const B58MAP: [i8; 256] = {
    let mut m = [-1i8; 256];
    let mut i = 0;
    while i < 58 { m[B58[i] as usize] = i as i8; i += 1; }
    m
};
pub fn b58_enc(data: &[u8]) -> String {
    let mut zeros = 0;
    while zeros < data.len() && data[zeros] == 0 { zeros += 1; }
    let mut out: Vec<char> = Vec::new();
    let mut cur = data[zeros..].to_vec();
    while !cur.is_empty() {
        let mut rem = 0u32;
        let mut next = Vec::new();
        for b in &cur {
            let c = (rem << 8) + u32::from(*b);
            let d = c / 58;
            rem = c % 58;
            if !next.is_empty() || d != 0 { next.push(d as u8); }
        }
        out.push(B58[rem as usize] as char);
        cur = next;
    }
    for _ in 0..zeros { out.push('1'); }
    out.reverse();
    out.into_iter().collect()
}
pub fn b58_dec(s: &str) -> Result<Vec<u8>, b58::Error> {
    if s.is_empty() { return Ok(vec![]); }
    let mut zeros = 0;
    while zeros < s.len() && s.as_bytes()[zeros] == b'1' { zeros += 1; }
    let mut acc = vec![0u8; s.len() * 733 / 1000 + 1];
    for c in s.chars() {
        if c as usize >= 256 { return Err(b58::Error::BadChar(c)); }
        let v = B58MAP[c as usize];
        if v == -1 { return Err(b58::Error::BadChar(c)); }
        let mut carry = u32::try_from(v)?;
        for b in acc.iter_mut().rev() {
            carry += u32::from(*b) * 58;
            *b = (carry & 0xFF) as u8;
            carry >>= 8;
        }
    }
    while !acc.is_empty() && acc[0] == 0 { acc.remove(0); }
    let mut out = vec![0u8; zeros];
    out.extend_from_slice(&acc);
    Ok(out)
}
pub fn b58c_enc(h: &[u8], v: u8) -> String {
    let mut p = vec![v];
    p.extend_from_slice(h);
    let c = crate::tx::h_dsha256(&p).0;
    p.extend_from_slice(&c[..4]);
    stacks_rs::crypto::b58_encode(&p[..])
}
pub fn b58c_dec(s: &str) -> Result<(Vec<u8>, u8), b58::Error> {
    let b = stacks_rs::crypto::b58_decode(s)?;
    if b.len() < 5 { return Err(b58::Error::BadLength(b.len())); }
    let n = b.len() - 4;
    let c = crate::tx::h_dsha256(&b[..n]).0;
    if c[0] != b[n] || c[1] != b[n + 1] || c[2] != b[n + 2] || c[3] != b[n + 3] {
        return Err(b58::Error::BadLength(0));
    }
    Ok((b[1..n].to_vec(), b[0]))
}

// ---- C32
pub const C32: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
pub const C32MAP: [i8; 128] = {
    let mut m = [-1i8; 128];
    let mut i = 0;
    while i < 32 {
        m[C32[i] as usize] = i as i8;
        if C32[i] >= 65 { m[C32[i] as usize + 32] = i as i8; }
        i += 1;
    }
    // look-alikes
    m[b'O' as usize] = 0; m[b'o' as usize] = 0;
    m[b'I' as usize] = 1; m[b'i' as usize] = 1;
    m[b'L' as usize] = 1; m[b'l' as usize] = 1;
    m
};
pub fn c32_enc(data: &[u8]) -> Result<String, c32::Error> {
    let mut out = Vec::new();
    let mut acc = 0u32;
    let mut bits = 0;
    for &b in data.iter().rev() {
        acc |= (u32::from(b)) << bits;
        bits += 8;
        while bits >= 5 {
            out.push(C32[(acc & 0x1F) as usize]);
            acc >>= 5;
            bits -= 5;
        }
    }
    if bits > 0 { out.push(C32[(acc & 0x1F) as usize]); }
    while let Some(i) = out.pop() {
        if i != b'0' { out.push(i); break; }
    }
    for i in data {
        if *i == 0 { out.push(b'0'); } else { break; }
    }
    out.reverse();
    Ok(String::from_utf8(out)?)
}
pub fn c32_dec(s: &str) -> Result<Vec<u8>, c32::Error> {
    if !s.is_ascii() { return Err(c32::Error::BadInput); }
    let mut buf: Vec<u8> = Vec::new();
    for i in s.as_bytes().iter().rev() {
        let v = C32MAP.get(*i as usize).unwrap_or(&-1);
        if v.is_negative() { return Err(c32::Error::BadChar(*i as char)); }
        buf.push(u8::try_from(*v)?);
    }
    let mut out = Vec::new();
    let mut acc = 0u16;
    let mut nb = 0;
    for b in &buf {
        acc |= (u16::from(*b)) << nb;
        nb += 5;
        while nb >= 8 {
            out.push((acc & 0xFF) as u8);
            acc >>= 8;
            nb -= 8;
        }
    }
    if nb > 0 { out.push(u8::try_from(acc)?); }
    while let Some(i) = out.pop() {
        if i != 0 { out.push(i); break; }
    }
    for i in buf.iter().rev() {
        if *i == 0 { out.push(0); } else { break; }
    }
    out.reverse();
    Ok(out)
}
pub fn c32c_enc(h: &[u8], v: u8) -> Result<String, c32::Error> {
    if v >= 32 { return Err(c32::Error::UnknownAddressVersion(v)); }
    let mut p = vec![v];
    p.extend_from_slice(h);
    let c = crate::tx::h_dsha256(&p).0;
    let mut d = h.to_vec();
    d.extend_from_slice(&c[..4]);
    let body = stacks_rs::crypto::c32_encode(&d[..])?;
    let mut s = String::new();
    s.push(C32[v as usize] as char);
    s.push_str(&body);
    Ok(s)
}
pub fn c32c_dec(s: &str) -> Result<(Vec<u8>, u8), c32::Error> {
    if !s.is_ascii() || s.is_empty() { return Err(c32::Error::BadInput); }
    let d = stacks_rs::crypto::c32_decode(&s[1..])?;
    if d.len() < 4 { return Err(c32::Error::BadInput); }
    let n = d.len() - 4;
    let mut p = stacks_rs::crypto::c32_decode(&s[..1])?;
    p.extend_from_slice(&d[..n]);
    let c = crate::tx::h_dsha256(&p).0;
    if c[0] != d[n] || c[1] != d[n + 1] || c[2] != d[n + 2] || c[3] != d[n + 3] { return Err(c32::Error::BadInput); }
    Ok((d[..n].to_vec(), p[0]))
}
pub fn c32a_enc(h: &[u8], v: u8) -> Result<String, c32::Error> {
    if v == 22 || v == 26 || v == 20 || v == 21 {
        let mut s = String::from("S");
        s.push_str(&stacks_rs::crypto::c32check_encode(h, v)?);
        Ok(s)
    } else { Err(c32::Error::UnknownAddressVersion(v)) }
}
pub fn c32a_dec(s: &str) -> Result<(Vec<u8>, u8), c32::Error> {
    if !s.starts_with('S') || s.len() <= 5 { return Err(c32::Error::BadInput); }
    let (h, v) = stacks_rs::crypto::c32check_decode(&s[1..])?;
    if h.len() != 20 { return Err(c32::Error::BadInput); }
    Ok((h, v))
}
pub fn addr_new(h: Hash160, v: u8) -> (Hash160, u8) { (h, v) }
pub fn addr_parse(s: &str) -> Result<(Hash160, u8), c32::Error> {
    let (h, v) = c32a_dec(s)?;
    let mut b = [0u8; 20];
    let mut i = 0;
    while i < 20 { b[i] = h[i]; i += 1; }
    Ok((Hash160(b), v))
}
