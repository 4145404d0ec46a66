//! Transfer functions on bit vectors (LSB first).
use crate::bdd::*;
use crate::mem::*;

impl Bdd {
    pub fn v_and(&mut self, a: &[Bit], b: &[Bit]) -> Bits {
        a.iter().zip(b).map(|(x, y)| self.and(*x, *y)).collect()
    }
    pub fn v_or(&mut self, a: &[Bit], b: &[Bit]) -> Bits {
        a.iter().zip(b).map(|(x, y)| self.or(*x, *y)).collect()
    }
    pub fn v_xor(&mut self, a: &[Bit], b: &[Bit]) -> Bits {
        a.iter().zip(b).map(|(x, y)| self.xor(*x, *y)).collect()
    }
    pub fn v_not(&mut self, a: &[Bit]) -> Bits {
        a.iter().map(|x| x ^ 1).collect()
    }
    pub fn v_ite(&mut self, c: Bit, a: &[Bit], b: &[Bit]) -> Bits {
        a.iter().zip(b).map(|(x, y)| self.ite(c, *x, *y)).collect()
    }
    /// sum, carry out, carry into the top bit
    pub fn v_addc(&mut self, a: &[Bit], b: &[Bit], cin: Bit) -> (Bits, Bit, Bit) {
        let mut c = cin;
        let mut top = cin;
        let mut out = Vec::with_capacity(a.len());
        for (x, y) in a.iter().zip(b) {
            top = c;
            let xy = self.xor(*x, *y);
            out.push(self.xor(xy, c));
            let g = self.and(*x, *y);
            let p = self.and(xy, c);
            c = self.or(g, p);
        }
        (out, c, top)
    }
    pub fn v_add(&mut self, a: &[Bit], b: &[Bit]) -> Bits {
        self.v_addc(a, b, F).0
    }
    pub fn v_sub(&mut self, a: &[Bit], b: &[Bit]) -> Bits {
        let nb = self.v_not(b);
        self.v_addc(a, &nb, T).0
    }
    pub fn v_neg(&mut self, a: &[Bit]) -> Bits {
        let z = const_bits(0, a.len());
        self.v_sub(&z, a)
    }
    pub fn v_eq(&mut self, a: &[Bit], b: &[Bit]) -> Bit {
        let mut r = T;
        for (x, y) in a.iter().zip(b).rev() {
            let e = self.xnor(*x, *y);
            r = self.and(e, r);
            if r == F {
                return F;
            }
        }
        r
    }
    pub fn v_ult(&mut self, a: &[Bit], b: &[Bit]) -> Bit {
        // a < b  <=> no carry out of a + ~b + 1
        let mut lt = F;
        for (x, y) in a.iter().zip(b) {
            let d = self.xor(*x, *y);
            lt = self.ite(d, *y, lt);
        }
        lt
    }
    pub fn v_lt(&mut self, a: &[Bit], b: &[Bit], signed: bool) -> Bit {
        if signed && !a.is_empty() {
            let mut a = a.to_vec();
            let mut b = b.to_vec();
            let n = a.len() - 1;
            a[n] ^= 1;
            b[n] ^= 1;
            self.v_ult(&a, &b)
        } else {
            self.v_ult(a, b)
        }
    }
    pub fn v_mul(&mut self, a: &[Bit], b: &[Bit], outw: usize) -> Bits {
        let mut acc = const_bits(0, outw);
        // iterate over the operand with fewer undetermined bits
        let und = |v: &[Bit]| v.iter().filter(|x| **x > 1).count();
        let (a, b) = if und(a) < und(b) { (b, a) } else { (a, b) };
        for (i, y) in b.iter().enumerate() {
            if *y == F || i >= outw {
                continue;
            }
            let mut sh = const_bits(0, outw);
            for (j, x) in a.iter().enumerate() {
                if i + j < outw {
                    sh[i + j] = self.and(*x, *y);
                }
            }
            acc = self.v_add(&acc, &sh);
        }
        acc
    }
    pub fn v_udivrem(&mut self, a: &[Bit], b: &[Bit]) -> (Bits, Bits) {
        let n = a.len();
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            if y != 0 {
                return (const_bits(x / y, n), const_bits(x % y, n));
            }
        }
        let mut rem = const_bits(0, n + 1);
        let mut q = const_bits(0, n);
        let mut bx = b.to_vec();
        bx.push(F);
        for i in (0..n).rev() {
            rem.rotate_right(1);
            rem[0] = a[i];
            let lt = self.v_ult(&rem, &bx);
            q[i] = lt ^ 1;
            let d = self.v_sub(&rem, &bx);
            rem = self.v_ite(lt, &rem, &d);
        }
        rem.truncate(n);
        (q, rem)
    }
    pub fn v_shift(&mut self, a: &[Bit], sh: &[Bit], left: bool, fill: Bit) -> Bits {
        let n = a.len();
        let mut cur = a.to_vec();
        for (k, s) in sh.iter().enumerate() {
            if *s == F || (1usize << k.min(20)) >= n {
                continue; // shift amounts are taken modulo the width
            }
            let d = 1usize << k;
            let shifted: Bits = (0..n)
                .map(|i| {
                    if left {
                        if i >= d {
                            cur[i - d]
                        } else {
                            F
                        }
                    } else if i + d < n {
                        cur[i + d]
                    } else {
                        fill
                    }
                })
                .collect();
            cur = self.v_ite(*s, &shifted, &cur);
        }
        cur
    }
    pub fn v_popcnt(&mut self, a: &[Bit], w: usize) -> Bits {
        let mut acc = const_bits(0, w);
        for x in a {
            let mut o = const_bits(0, w);
            o[0] = *x;
            acc = self.v_add(&acc, &o);
        }
        acc
    }
    /// leading zeros (from the top) or trailing zeros
    pub fn v_czeros(&mut self, a: &[Bit], w: usize, leading: bool) -> Bits {
        let mut r = const_bits(a.len() as u128, w);
        let n = a.len();
        for i in 0..n {
            // process so that the nearest bit is applied last
            let (bit, cnt) = if leading { (a[i], n - 1 - i) } else { (a[n - 1 - i], n - 1 - i) };
            let c = const_bits(cnt as u128, w);
            r = self.v_ite(bit, &c, &r);
        }
        r
    }
    pub fn show(&self, b: Bit) -> String {
        match b {
            T => "1".into(),
            F => "0".into(),
            _ => {
                let w = self.witness(b);
                let w2 = self.witness(b ^ 1);
                if w.len() == 1 && w2.len() == 1 && w[0].0 == w2[0].0 {
                    format!("{}{}", if w[0].1 { "" } else { "!" }, self.names[w[0].0 as usize])
                } else {
                    "f(..)".into()
                }
            }
        }
    }
}
