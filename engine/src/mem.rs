//! Byte memory with a sparse overlay of symbolic values.  Addresses are `alloc_id << 32 | offset`.
use crate::expr::*;

#[derive(Clone, Default, Debug)]
pub struct Alloc {
    pub data: Vec<u8>,
    pub sym: Vec<(u32, u8, E)>, // sorted by offset, non-overlapping: (offset, bytes, value)
}

impl Alloc {
    pub fn new(n: usize) -> Alloc { Alloc { data: vec![0; n], sym: vec![] } }
    #[inline(always)]
    pub fn load(&self, off: usize, n: usize) -> V {
        if !self.sym.is_empty() { if let Some(v) = self.load_sym(off, n) { return v; } }
        let d = &self.data[off..off + n];
        V::C(match n {
            1 => d[0] as u128,
            8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
            _ => { let mut r = 0u128; for i in (0..n).rev() { r = r << 8 | d[i] as u128; } r }
        })
    }
    fn first_ge(&self, off: usize) -> usize {
        // first entry whose end is > off
        self.sym.partition_point(|&(o, s, _)| (o as usize + s as usize) <= off)
    }
    fn load_sym(&self, off: usize, n: usize) -> Option<V> {
        let i = self.first_ge(off);
        if i >= self.sym.len() || self.sym[i].0 as usize >= off + n { return None; }
        let (o, s, e) = self.sym[i];
        if o as usize == off && s as usize == n { return Some(V::S(e)); }
        // assemble byte by byte
        let mut r: Option<(V, u8)> = None;
        for k in 0..n {
            let b = self.byte(off + k);
            r = Some(match r { None => (b, 8), Some((lo, lw)) => (concat(b, 8, lo, lw), lw + 8) });
        }
        Some(r.unwrap().0)
    }
    pub fn byte(&self, off: usize) -> V {
        let i = self.first_ge(off);
        if i < self.sym.len() && self.sym[i].0 as usize <= off {
            let (o, s, e) = self.sym[i];
            return extract(V::S(e), s * 8, ((off - o as usize) * 8) as u8, 8);
        }
        V::C(self.data[off] as u128)
    }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        if self.sym.is_empty() { return false; }
        let i = self.first_ge(off);
        i < self.sym.len() && (self.sym[i].0 as usize) < off + n
    }
    /// drop symbolic content in [off, off+n), splitting entries that straddle the border
    fn clear(&mut self, off: usize, n: usize) {
        let i = self.first_ge(off);
        let mut j = i;
        let mut keep: Vec<(u32, u8, E)> = vec![];
        while j < self.sym.len() && (self.sym[j].0 as usize) < off + n {
            let (o, s, e) = self.sym[j];
            for k in 0..s as usize {
                let p = o as usize + k;
                if p < off || p >= off + n {
                    match extract(V::S(e), s * 8, (k * 8) as u8, 8) {
                        V::C(c) => self.data[p] = c as u8,
                        V::S(x) => keep.push((p as u32, 1, x)),
                    }
                }
            }
            j += 1;
        }
        if j > i { self.sym.splice(i..j, keep); }
    }
    #[inline(always)]
    pub fn store(&mut self, off: usize, n: usize, v: V) {
        if !self.sym.is_empty() { self.clear(off, n); }
        match v {
            V::C(c) => {
                let d = &mut self.data[off..off + n];
                match n {
                    1 => d[0] = c as u8,
                    8 => d.copy_from_slice(&(c as u64).to_le_bytes()),
                    4 => d.copy_from_slice(&(c as u32).to_le_bytes()),
                    _ => d.copy_from_slice(&c.to_le_bytes()[..n]),
                }
            }
            V::S(e) => {
                debug_assert_eq!(width(e) as usize, n * 8);
                let i = self.first_ge(off);
                self.sym.insert(i, (off as u32, n as u8, e));
            }
        }
    }
    pub fn zero(&mut self, off: usize, n: usize) {
        if !self.sym.is_empty() { self.clear(off, n); }
        self.data[off..off + n].fill(0);
    }
    pub fn read_piece(&self, off: usize, n: usize) -> (Vec<u8>, Vec<(u32, u8, E)>) {
        let mut d = self.data[off..off + n].to_vec();
        let mut s = vec![];
        if !self.sym.is_empty() {
            let mut i = self.first_ge(off);
            while i < self.sym.len() && (self.sym[i].0 as usize) < off + n {
                let (o, z, e) = self.sym[i];
                if (o as usize) >= off && (o as usize + z as usize) <= off + n { s.push((o - off as u32, z, e)); }
                else {
                    for k in 0..z as usize {
                        let p = o as usize + k;
                        if p >= off && p < off + n {
                            match extract(V::S(e), z * 8, (k * 8) as u8, 8) {
                                V::S(x) => s.push(((p - off) as u32, 1, x)),
                                V::C(c) => d[p - off] = c as u8,
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        (d, s)
    }
    pub fn write_piece(&mut self, off: usize, d: &[u8], s: &[(u32, u8, E)]) {
        if !self.sym.is_empty() { self.clear(off, d.len()); }
        self.data[off..off + d.len()].copy_from_slice(d);
        if !s.is_empty() {
            let i = self.first_ge(off);
            self.sym.splice(i..i, s.iter().map(|&(o, z, e)| (o + off as u32, z, e)));
        }
    }
}
