use crate::bdd::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type AllocId = u32;
pub type Bits = Vec<Bit>;

#[derive(Clone, PartialEq, Debug)]
pub struct PtrAlt {
    pub guard: Bit,
    pub prov: Option<AllocId>,
    pub off: Bits,
}
#[derive(Clone, PartialEq, Debug)]
pub struct PtrVal {
    pub alts: Vec<PtrAlt>,
}
#[derive(Clone, Debug)]
pub enum AByte {
    Uninit,
    Bits([Bit; 8]),
    Ptr(Rc<PtrVal>, u8),
}
impl PartialEq for AByte {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (AByte::Uninit, AByte::Uninit) => true,
            (AByte::Bits(a), AByte::Bits(b)) => a == b,
            (AByte::Ptr(a, i), AByte::Ptr(b, j)) => i == j && (Rc::ptr_eq(a, b) || a == b),
            _ => false,
        }
    }
}
pub type Bytes = Vec<AByte>;

#[derive(Clone, Debug)]
pub struct Alloc {
    pub bytes: Bytes,
}
pub type Mem = HashMap<AllocId, Rc<Alloc>, Hasher>;

#[derive(Clone)]
pub struct State {
    pub pc: Bit,
    pub mem: Mem,
}

pub fn base_addr(id: AllocId) -> u64 {
    ((id as u64) + 1) << 32
}
pub fn const_bits(v: u128, n: usize) -> Bits {
    (0..n).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
}
pub fn as_const(b: &[Bit]) -> Option<u128> {
    let mut r = 0u128;
    for (i, x) in b.iter().enumerate() {
        match *x {
            T => r |= 1 << i,
            F => {}
            _ => return None,
        }
    }
    Some(r)
}
pub fn ptr_to(id: AllocId, off: u64) -> PtrVal {
    PtrVal { alts: vec![PtrAlt { guard: T, prov: Some(id), off: const_bits(off as u128, 64) }] }
}
pub fn ptr_bytes(p: PtrVal) -> Bytes {
    // plain integers stay plain bits
    if p.alts.len() == 1 && p.alts[0].prov.is_none() {
        return bits_bytes(&p.alts[0].off);
    }
    let r = Rc::new(p);
    (0..8).map(|i| AByte::Ptr(r.clone(), i)).collect()
}
pub fn bits_bytes(b: &[Bit]) -> Bytes {
    b.chunks(8)
        .map(|c| {
            let mut a = [F; 8];
            a[..c.len()].copy_from_slice(c);
            AByte::Bits(a)
        })
        .collect()
}
impl PtrVal {
    pub fn from_bits(b: Bits) -> PtrVal {
        PtrVal { alts: vec![PtrAlt { guard: T, prov: None, off: b }] }
    }
}
