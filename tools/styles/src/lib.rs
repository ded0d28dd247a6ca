//! Development only: pairs of functions written in different styles that the analysis should prove equal.
#![allow(unused, clippy::all)]
#[path = "../../../harness/src/intr.rs"]
pub mod intr;
#[path = "../../../harness/src/models.rs"]
pub mod models;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F { A(u64), B([u8; 3]) }

macro_rules! pairs { ($($s:ident $r:ident ($($a:ident : $t:ty),*) -> $o:ty { $($sb:tt)* } { $($rb:tt)* })*) => { $(
    pub fn $s($($a: $t),*) -> $o { $($sb)* }
    pub fn $r($($a: $t),*) -> $o { $($rb)* }
)* } }

pub fn enc(f: &F, b: &mut Vec<u8>) { match f { F::A(x) => { b.push(0); b.extend_from_slice(&x.to_be_bytes()); } F::B(y) => { b.push(2); b.extend_from_slice(y); } } }
pub fn enc1(f: &F) -> Vec<u8> { let mut b = vec![]; enc(f, &mut b); b }
pub fn tryenc(f: &F) -> Result<Vec<u8>, u8> { match f { F::A(x) => if *x > 9 { Err(1) } else { Ok(x.to_be_bytes().to_vec()) }, F::B(y) => Ok(y.to_vec()) } }
pub fn base(v: &[F]) -> Vec<u8> { let mut b = vec![]; for f in v { enc(f, &mut b); } b }
pub fn tbase(v: &[F]) -> Result<Vec<u8>, u8> { let mut b = vec![]; for f in v { b.extend_from_slice(&tryenc(f)?); } Ok(b) }

pairs! {
 s_foreach r_foreach (v: &[F]) -> Vec<u8> { let mut b = vec![]; v.iter().for_each(|f| enc(f, &mut b)); b } { base(v) }
 s_fold r_fold (v: &[F]) -> Vec<u8> { v.iter().fold(Vec::new(), |mut b, f| { b.extend(enc1(f)); b }) } { base(v) }
 s_flatmap r_flatmap (v: &[F]) -> Vec<u8> { v.iter().flat_map(enc1).collect() } { base(v) }
 s_mapcc r_mapcc (v: &[F]) -> Vec<u8> { v.iter().map(enc1).collect::<Vec<_>>().concat() } { base(v) }
 s_tryfold r_tryfold (v: &[F]) -> Result<Vec<u8>, u8> { v.iter().try_fold(Vec::new(), |mut b, f| { b.extend_from_slice(&tryenc(f)?); Ok(b) }) } { tbase(v) }
 s_tryforeach r_tryforeach (v: &[F]) -> Result<Vec<u8>, u8> { let mut b = vec![]; v.iter().try_for_each(|f| { b.extend_from_slice(&tryenc(f)?); Ok::<(), u8>(()) })?; Ok(b) } { tbase(v) }
 s_colres r_colres (v: &[F]) -> Result<Vec<u8>, u8> { let p = v.iter().map(tryenc).collect::<Result<Vec<_>, _>>()?; Ok(p.concat()) } { tbase(v) }
 s_colresl r_colresl (v: &[F]) -> Result<Vec<u8>, u8> { let p = v.iter().map(tryenc).collect::<Result<Vec<_>, _>>()?; let mut b = vec![]; for x in &p { b.extend_from_slice(x); } Ok(b) } { tbase(v) }
 s_idx r_idx (v: &[F]) -> Vec<u8> { let mut b = vec![]; for i in 0..v.len() { enc(&v[i], &mut b); } b } { base(v) }
 s_while r_while (v: &[F]) -> Vec<u8> { let mut b = vec![]; let mut i = 0; while i < v.len() { enc(&v[i], &mut b); i += 1; } b } { base(v) }
 s_whilelet r_whilelet (v: &[F]) -> Vec<u8> { let mut b = vec![]; let mut it = v.iter(); while let Some(f) = it.next() { enc(f, &mut b); } b } { base(v) }
 s_splitfirst r_splitfirst (v: &[F]) -> Vec<u8> { let mut b = vec![]; let mut r = v; while let Some((f, t)) = r.split_first() { enc(f, &mut b); r = t; } b } { base(v) }
 s_count r_count (v: &[F]) -> usize { v.iter().filter(|f| matches!(f, F::B(_))).count() } { let mut n = 0; for f in v { if let F::B(_) = f { n += 1; } } n }
 s_sum r_sum (v: &[F]) -> usize { v.iter().map(|f| usize::from(matches!(f, F::B(_)))).sum() } { let mut n = 0; for f in v { if let F::B(_) = f { n += 1; } } n }
 s_any r_any (v: &[u8]) -> bool { v.iter().any(|b| *b > 127) } { !v.is_ascii() }
 s_all r_all (v: &[u8]) -> bool { v.iter().all(|b| *b < 128) } { v.is_ascii() }
 s_allascii r_allascii (v: &str) -> bool { v.bytes().all(|b| b.is_ascii()) } { v.is_ascii() }
 s_charsall r_charsall (v: &str) -> bool { v.chars().all(|b| b.is_ascii()) } { v.is_ascii() }
 s_len_chars r_len_chars (v: &str) -> bool { v.chars().count() > v.len() } { false }
 s_zip r_zip (v: &[u8]) -> [u8; 4] { let mut o = [0u8; 4]; for (d, s) in o.iter_mut().zip(v.iter()) { *d = *s; } o } { let mut o = [0u8; 4]; let n = v.len().min(4); o[..n].copy_from_slice(&v[..n]); o }
 s_collect r_collect (v: &[u8]) -> Vec<u8> { v.iter().copied().collect() } { v.to_vec() }
 s_collectmap r_collectmap (v: &[u8]) -> Vec<u8> { v.iter().map(|b| b ^ 1).collect() } { let mut o = vec![]; for b in v { o.push(b ^ 1); } o }
 s_revcollect r_revcollect (v: &[u8]) -> Vec<u8> { v.iter().rev().copied().collect() } { let mut o = v.to_vec(); o.reverse(); o }
 s_extend r_extend (v: &[u8]) -> Vec<u8> { let mut o = vec![1]; o.extend(v.iter()); o } { let mut o = vec![1]; o.extend_from_slice(v); o }
 s_extendv r_extendv (v: &[u8]) -> Vec<u8> { let mut o = vec![1]; o.extend(v.to_vec()); o } { let mut o = vec![1]; o.extend_from_slice(v); o }
 s_extendchain r_extendchain (v: &[u8]) -> Vec<u8> { std::iter::once(1).chain(v.iter().copied()).collect() } { let mut o = vec![1]; o.extend_from_slice(v); o }
 s_chunks r_chunks (v: &[u8; 6]) -> [u8; 6] { let mut o = [0u8; 6]; for (i, c) in v.chunks(2).enumerate() { o[i * 2..i * 2 + 2].copy_from_slice(c); } o } { *v }
 s_nth r_nth (v: &[u8]) -> Option<u8> { v.iter().nth(2).copied() } { v.get(2).copied() }
 s_last r_last (v: &[u8]) -> Option<u8> { v.iter().last().copied() } { v.last().copied() }
 s_pos r_pos (v: &[u8]) -> Option<usize> { v.iter().position(|b| *b == 7) } { let mut i = 0; while i < v.len() { if v[i] == 7 { return Some(i); } i += 1; } None }
 s_find r_find (v: &[u8]) -> Option<u8> { v.iter().find(|b| **b >= 7).copied() } { let mut i = 0; while i < v.len() { if v[i] >= 7 { return Some(v[i]); } i += 1; } None }
 s_take r_take (v: &[u8]) -> Vec<u8> { v.iter().take(3).copied().collect() } { v[..v.len().min(3)].to_vec() }
 s_skip r_skip (v: &[u8]) -> Vec<u8> { v.iter().skip(1).copied().collect() } { if v.is_empty() { vec![] } else { v[1..].to_vec() } }
 s_mapor r_mapor (v: &[u8]) -> u8 { v.first().map_or(9, |b| *b) } { if v.is_empty() { 9 } else { v[0] } }
 s_okor r_okor (v: &[u8]) -> Result<u8, u8> { v.get(1).copied().ok_or(3) } { if v.len() < 2 { Err(3) } else { Ok(v[1]) } }
 s_andthen r_andthen (v: &[u8]) -> Result<u8, u8> { v.get(1).copied().ok_or(3).and_then(|b| if b > 5 { Err(b) } else { Ok(b) }).map(|x| x + 1).map_err(|e| e ^ 1) } { if v.len() < 2 { return Err(2); } let b = v[1]; if b > 5 { return Err(b ^ 1); } Ok(b + 1) }
 s_tryarr r_tryarr (v: &[u8]) -> Option<[u8; 4]> { v.get(..4)?.try_into().ok() } { if v.len() < 4 { None } else { Some([v[0], v[1], v[2], v[3]]) } }
 s_firstchunk r_firstchunk (v: &[u8]) -> Option<u32> { v.first_chunk::<4>().map(|c| u32::from_be_bytes(*c)) } { if v.len() < 4 { None } else { Some(u32::from_be_bytes([v[0], v[1], v[2], v[3]])) } }
 s_shift r_shift (v: &[u8; 4]) -> u32 { v.iter().fold(0u32, |a, b| (a << 8) | u32::from(*b)) } { u32::from_be_bytes(*v) }
 s_shift2 r_shift2 (v: &[u8; 4]) -> u32 { (u32::from(v[0]) << 24) | (u32::from(v[1]) << 16) | (u32::from(v[2]) << 8) | u32::from(v[3]) } { u32::from_be_bytes(*v) }
 s_bytesh r_bytesh (v: u32) -> [u8; 4] { [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8] } { v.to_be_bytes() }
 s_slicepat r_slicepat (v: &[u8]) -> Option<(u8, Vec<u8>)> { match v { [a, rest @ ..] => Some((*a, rest.to_vec())), [] => None } } { if v.is_empty() { None } else { Some((v[0], v[1..].to_vec())) } }
 s_slicepat2 r_slicepat2 (v: &[u8]) -> Option<(u8, u8)> { if let [a, b, ..] = v { Some((*a, *b)) } else { None } } { if v.len() < 2 { None } else { Some((v[0], v[1])) } }
 s_concatarr r_concatarr (a: &[u8], b: &[u8]) -> Vec<u8> { [&[5u8][..], a, b].concat() } { let mut o = vec![5]; o.extend_from_slice(a); o.extend_from_slice(b); o }
 s_concatvec r_concatvec (a: &[u8], b: &[u8]) -> Vec<u8> { vec![a.to_vec(), b.to_vec()].into_iter().flatten().collect() } { let mut o = a.to_vec(); o.extend_from_slice(b); o }
 s_arrloop r_arrloop (a: &[u8], b: &[u8]) -> Vec<u8> { let mut o = vec![]; for p in [a, b] { o.extend_from_slice(p); } o } { let mut o = a.to_vec(); o.extend_from_slice(b); o }
 s_write r_write (a: &[u8]) -> Vec<u8> { use std::io::Write; let mut o = Vec::new(); o.write_all(a).unwrap(); o } { a.to_vec() }
 s_cursor r_cursor (a: &[u8]) -> Option<[u8; 2]> { use std::io::Read; let mut r = a; let mut b = [0u8; 2]; r.read_exact(&mut b).ok()?; Some(b) } { if a.len() < 2 { None } else { Some([a[0], a[1]]) } }
 s_splitat r_splitat (a: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> { let (x, y) = a.split_at_checked(3)?; Some((x.to_vec(), y.to_vec())) } { if a.len() < 3 { None } else { Some((a[..3].to_vec(), a[3..].to_vec())) } }
 s_dedup r_dedup (a: u8) -> Vec<u8> { let mut v = vec![a, a]; v.dedup(); v } { vec![a] }
 s_matchg r_matchg (a: Option<u8>) -> u8 { match a { Some(x) if x > 3 => x, Some(_) | None => 0 } } { if let Some(x) = a { if x > 3 { return x; } } 0 }
 s_letelse r_letelse (a: Option<u8>) -> Result<u8, u8> { let Some(x) = a else { return Err(1) }; Ok(x) } { a.ok_or(1) }
 s_loopbreak r_loopbreak (v: &[F]) -> Vec<u8> { let mut b = vec![]; let mut i = 0; loop { if i == v.len() { break; } enc(&v[i], &mut b); i += 1; } b } { base(v) }
 s_rec r_rec (v: &[F]) -> Vec<u8> { fn go(v: &[F], b: &mut Vec<u8>) { if let Some((f, r)) = v.split_first() { enc(f, b); go(r, b); } } let mut b = vec![]; go(v, &mut b); b } { base(v) }
 s_into_iter r_into_iter (v: Vec<F>) -> Vec<u8> { let mut b = vec![]; for f in v { enc(&f, &mut b); } b } { base(&v) }
 s_enumerate r_enumerate (v: &[F]) -> Vec<u8> { let mut b = vec![]; for (i, f) in v.iter().enumerate() { enc(f, &mut b); } b } { base(v) }
 s_withcap r_withcap (v: &[F]) -> Vec<u8> { let mut b = Vec::with_capacity(v.len() * 9); for f in v { enc(f, &mut b); } b.shrink_to_fit(); b } { base(v) }
 s_hex r_hex (v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() } { let mut s = String::new(); for b in v { s.push_str(&format!("{:02x}", b)); } s }
 s_hexw r_hexw (v: &[u8]) -> String { use std::fmt::Write; let mut s = String::new(); for b in v { write!(s, "{b:02x}").unwrap(); } s } { let mut s = String::new(); for b in v { s.push_str(&format!("{:02x}", b)); } s }
 s_join r_join (v: &[String]) -> String { v.join(", ") } { let mut s = String::new(); for (i, x) in v.iter().enumerate() { if i > 0 { s.push_str(", "); } s.push_str(x); } s }
 s_swapped r_swapped (a: u64, b: u64) -> bool { if a >= b { true } else { false } } { !(a < b) }
 s_partition r_partition (v: &[F]) -> Vec<u8> { let p: Vec<&F> = v.iter().filter(|f| matches!(f, F::A(_))).collect(); let mut b = vec![]; for f in p { enc(f, &mut b); } b } { let mut b = vec![]; for f in v { if let F::A(_) = f { enc(f, &mut b); } } b }
 s_checked r_checked (a: usize, v: &[u8]) -> Option<u8> { v.get(a.checked_add(1)?).copied() } { if a == usize::MAX { None } else if a + 1 < v.len() { Some(v[a + 1]) } else { None } }
 s_padd r_padd (v: &[u8]) -> Vec<u8> { let mut m = v[..v.len().min(34)].to_vec(); m.resize(34, 0); m } { let mut m = vec![0u8; 34]; let n = v.len().min(34); m[..n].copy_from_slice(&v[..n]); m }
 s_padloop r_padloop (v: &[u8]) -> Vec<u8> { let mut m = [0u8; 34]; for (i, b) in v.iter().take(34).enumerate() { m[i] = *b; } m.to_vec() } { let mut m = vec![0u8; 34]; let n = v.len().min(34); m[..n].copy_from_slice(&v[..n]); m }
}
