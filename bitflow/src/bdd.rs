//! Per-bit value lattice: every bit of every value the analysis tracks is a Boolean function of the
//! bits of the analysed function's parameters, kept in canonical (reduced, ordered, complement-edge)
//! form so that two bits are equal exactly when their ids are equal.  The lattice has a size cap
//! (`limit`): exceeding it aborts the obligation as "not decided".
use std::collections::HashMap;

pub type Bit = u32;
pub const T: Bit = 0;
pub const F: Bit = 1;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    hi: Bit,
    lo: Bit,
}

pub struct Bdd {
    nodes: Vec<Node>,
    unique: HashMap<(u32, Bit, Bit), u32, Hasher>,
    and_cache: HashMap<(Bit, Bit), Bit, Hasher>,
    xor_cache: HashMap<(Bit, Bit), Bit, Hasher>,
    ite_cache: HashMap<(Bit, Bit, Bit), Bit, Hasher>,
    con_cache: HashMap<(Bit, Bit), Bit, Hasher>,
    pub names: Vec<String>,
    pub limit: usize,
}

#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u32(*x as u32)
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.0 = (self.0.rotate_left(5) ^ i as u64).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type Hasher = std::hash::BuildHasherDefault<FxH>;

pub struct Budget;

impl Bdd {
    pub fn new(limit: usize) -> Self {
        Bdd {
            nodes: vec![Node { var: u32::MAX, hi: T, lo: T }],
            unique: Default::default(),
            and_cache: Default::default(),
            xor_cache: Default::default(),
            ite_cache: Default::default(),
            con_cache: Default::default(),
            names: vec![],
            limit,
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    pub fn new_var(&mut self, name: String) -> Bit {
        let v = self.names.len() as u32;
        self.names.push(name);
        self.mk(v, T, F)
    }
    fn mk(&mut self, var: u32, hi: Bit, lo: Bit) -> Bit {
        if hi == lo {
            return hi;
        }
        if hi & 1 == 1 {
            return self.mk(var, hi ^ 1, lo ^ 1) ^ 1;
        }
        if let Some(&n) = self.unique.get(&(var, hi, lo)) {
            return n << 1;
        }
        let n = self.nodes.len();
        if n > self.limit {
            std::panic::panic_any(Budget);
        }
        self.nodes.push(Node { var, hi, lo });
        self.unique.insert((var, hi, lo), n as u32);
        (n as u32) << 1
    }
    #[inline]
    fn var(&self, a: Bit) -> u32 {
        self.nodes[(a >> 1) as usize].var
    }
    #[inline]
    fn cof(&self, a: Bit, v: u32) -> (Bit, Bit) {
        let n = self.nodes[(a >> 1) as usize];
        if n.var == v {
            (n.hi ^ (a & 1), n.lo ^ (a & 1))
        } else {
            (a, a)
        }
    }
    pub fn and(&mut self, a: Bit, b: Bit) -> Bit {
        if a == F || b == F || a == b ^ 1 {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.and_cache.get(&k) {
            return r;
        }
        let v = self.var(a).min(self.var(b));
        let (ah, al) = self.cof(a, v);
        let (bh, bl) = self.cof(b, v);
        let h = self.and(ah, bh);
        let l = self.and(al, bl);
        let r = self.mk(v, h, l);
        self.and_cache.insert(k, r);
        r
    }
    pub fn or(&mut self, a: Bit, b: Bit) -> Bit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        let neg = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return F ^ neg;
        }
        // T == 0 regular; xor(T, b) = !b
        if a == T {
            return b ^ 1 ^ neg;
        }
        if b == T {
            return a ^ 1 ^ neg;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.xor_cache.get(&k) {
            return r ^ neg;
        }
        let v = self.var(a).min(self.var(b));
        let (ah, al) = self.cof(a, v);
        let (bh, bl) = self.cof(b, v);
        let h = self.xor(ah, bh);
        let l = self.xor(al, bl);
        let r = self.mk(v, h, l);
        self.xor_cache.insert(k, r);
        r ^ neg
    }
    pub fn xnor(&mut self, a: Bit, b: Bit) -> Bit {
        self.xor(a, b) ^ 1
    }
    pub fn ite(&mut self, c: Bit, a: Bit, b: Bit) -> Bit {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        if c & 1 == 1 {
            return self.ite(c ^ 1, b, a);
        }
        if a == T {
            return self.or(c, b);
        }
        if a == F {
            return self.and(c ^ 1, b);
        }
        if b == T {
            return self.or(c ^ 1, a);
        }
        if b == F {
            return self.and(c, a);
        }
        let k = (c, a, b);
        if let Some(&r) = self.ite_cache.get(&k) {
            return r;
        }
        let v = self.var(c).min(self.var(a)).min(self.var(b));
        let (ch, cl) = self.cof(c, v);
        let (ah, al) = self.cof(a, v);
        let (bh, bl) = self.cof(b, v);
        let h = self.ite(ch, ah, bh);
        let l = self.ite(cl, al, bl);
        let r = self.mk(v, h, l);
        self.ite_cache.insert(k, r);
        r
    }
    /// Generalised cofactor restricted to variables of `f` (f simplified under the care set c).
    pub fn constrain(&mut self, f: Bit, c: Bit) -> Bit {
        if c == T || f == T || f == F {
            return f;
        }
        if c == F {
            return f;
        }
        if f == c {
            return T;
        }
        if f == c ^ 1 {
            return F;
        }
        let k = (f, c);
        if let Some(&r) = self.con_cache.get(&k) {
            return r;
        }
        let vf = self.var(f);
        let vc = self.var(c);
        let r = if vc < vf {
            let (ch, cl) = self.cof(c, vc);
            let cc = self.or(ch, cl);
            self.constrain(f, cc)
        } else {
            let v = vf;
            let (fh, fl) = self.cof(f, v);
            let (ch, cl) = self.cof(c, v);
            if ch == F {
                self.constrain(fl, cl)
            } else if cl == F {
                self.constrain(fh, ch)
            } else {
                let h = self.constrain(fh, ch);
                let l = self.constrain(fl, cl);
                self.mk(v, h, l)
            }
        };
        self.con_cache.insert(k, r);
        r
    }
    /// One satisfying cube, as (variable, value) pairs.
    pub fn witness(&self, mut f: Bit) -> Vec<(u32, bool)> {
        let mut out = vec![];
        while f != T && f != F {
            let v = self.var(f);
            let (h, l) = self.cof(f, v);
            if l != F {
                out.push((v, false));
                f = l;
            } else {
                out.push((v, true));
                f = h;
            }
        }
        out
    }
}
