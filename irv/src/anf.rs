//! Algebraic normal forms over GF(2): decides equalities of linear and low-degree code.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

pub type Poly = Rc<Vec<u32>>; // sorted monomial ids; id 0 is the constant 1

pub struct Anf {
    monos: Vec<Vec<u32>>,
    mono_ix: HashMap<Vec<u32>, u32>,
    atoms: HashMap<(E, u32), u32>,
    natoms: u32,
    memo: HashMap<(E, u32), Poly>,
    pub cap: usize,
    pub max_deg: usize,
    pub work: u64,
    pub max_work: u64,
}
pub struct Give;

fn pxor(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] {
            i += 1;
            j += 1;
        } else if a[i] < b[j] {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

impl Anf {
    pub fn new() -> Anf {
        let mut a = Anf { monos: vec![], mono_ix: HashMap::new(), atoms: HashMap::new(), natoms: 0, memo: HashMap::new(), cap: 20000, max_deg: 12, work: 0, max_work: 400_000_000 };
        a.mono(vec![]);
        a
    }
    fn mono(&mut self, m: Vec<u32>) -> u32 {
        if let Some(&k) = self.mono_ix.get(&m) {
            return k;
        }
        let k = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_ix.insert(m, k);
        k
    }
    fn atom(&mut self, e: E, b: u32) -> Poly {
        let k = if let Some(&k) = self.atoms.get(&(e, b)) {
            k
        } else {
            let k = self.natoms;
            self.natoms += 1;
            self.atoms.insert((e, b), k);
            k
        };
        let m = self.mono(vec![k]);
        Rc::new(vec![m])
    }
    fn mul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.is_empty() {
            return Some(a.clone());
        }
        if b.is_empty() {
            return Some(b.clone());
        }
        if a.len() == 1 && a[0] == 0 {
            return Some(b.clone());
        }
        if b.len() == 1 && b[0] == 0 {
            return Some(a.clone());
        }
        if a == b {
            return Some(a.clone());
        }
        if a.len() * b.len() > self.cap * 4 {
            return None;
        }
        self.work += (a.len() * b.len()) as u64 * 4;
        let mut cnt: HashMap<u32, bool> = HashMap::new();
        for &x in a.iter() {
            for &y in b.iter() {
                let m = if x == 0 {
                    y
                } else if y == 0 {
                    x
                } else {
                    let mut v = self.monos[x as usize].clone();
                    v.extend_from_slice(&self.monos[y as usize]);
                    v.sort();
                    v.dedup();
                    if v.len() > self.max_deg {
                        return None;
                    }
                    self.mono(v)
                };
                let e = cnt.entry(m).or_insert(false);
                *e = !*e;
            }
        }
        let mut r: Vec<u32> = cnt.into_iter().filter(|x| x.1).map(|x| x.0).collect();
        r.sort();
        if r.len() > self.cap {
            return None;
        }
        Some(Rc::new(r))
    }
    fn xor(&mut self, a: &Poly, b: &Poly) -> Poly {
        if a.is_empty() {
            return b.clone();
        }
        if b.is_empty() {
            return a.clone();
        }
        self.work += (a.len() + b.len()) as u64;
        Rc::new(pxor(a, b))
    }
    fn one(&self) -> Poly {
        Rc::new(vec![0])
    }
    fn zero(&self) -> Poly {
        Rc::new(vec![])
    }
    /// reduce d by the span of the polynomials ls; true if it vanishes
    fn in_span(&mut self, d: &Poly, ls: &[Poly]) -> bool {
        let mut basis: Vec<(u32, Poly)> = vec![];
        for l in ls {
            let mut p = l.clone();
            for (lead, b) in &basis {
                if p.binary_search(lead).is_ok() {
                    p = self.xor(&p, b);
                }
            }
            if let Some(&lead) = p.last() {
                // keep the basis reduced
                let mut nb = vec![];
                for (l2, b) in basis {
                    let b2 = if b.binary_search(&lead).is_ok() { self.xor(&b, &p) } else { b };
                    nb.push((l2, b2));
                }
                basis = nb;
                basis.push((lead, p));
            }
        }
        let mut q = d.clone();
        for (lead, b) in &basis {
            if q.binary_search(lead).is_ok() {
                q = self.xor(&q, b);
            }
        }
        q.is_empty()
    }
    /// the bits asserted zero when literal `c` holds (c is a conjunction of negated bits / Eq with zero)
    fn zero_facts(&mut self, x: &Ctx, c: E, out: &mut Vec<Poly>) -> Result<bool, Give> {
        match &x.n[c as usize] {
            N::And(v) => {
                for e in v.to_vec() {
                    if !self.zero_facts(x, e, out)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            N::Eq(a, b) => {
                let w = x.w[*a as usize];
                for k in 0..w {
                    let p = self.bit(x, *a, k)?;
                    let q = self.bit(x, *b, k)?;
                    let r = self.xor(&p, &q);
                    out.push(r);
                }
                Ok(true)
            }
            _ if x.w[c as usize] == 1 => {
                let p = self.bit(x, c, 0)?;
                let one = self.one();
                let r = self.xor(&p, &one);
                out.push(r);
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    pub fn bit(&mut self, x: &Ctx, e: E, b: u32) -> Result<Poly, Give> {
        if let Some(p) = self.memo.get(&(e, b)) {
            return Ok(p.clone());
        }
        if self.work > self.max_work {
            return Err(Give);
        }
        let p = self.bit0(x, e, b)?;
        let p = if p.len() > self.cap { self.atom(e, b) } else { p };
        self.memo.insert((e, b), p.clone());
        Ok(p)
    }
    fn bit0(&mut self, x: &Ctx, e: E, b: u32) -> Result<Poly, Give> {
        Ok(match &x.n[e as usize] {
            N::C(v) => {
                if (v >> b) & 1 == 1 {
                    self.one()
                } else {
                    self.zero()
                }
            }
            N::Xor(k, v) => {
                let mut r = if (k >> b) & 1 == 1 { self.one() } else { self.zero() };
                for c in v.iter() {
                    let p = self.bit(x, *c, b)?;
                    r = self.xor(&r, &p);
                }
                r
            }
            N::And(v) => {
                let mut r = self.one();
                for c in v.iter() {
                    let p = self.bit(x, *c, b)?;
                    match self.mul(&r, &p) {
                        Some(q) => r = q,
                        None => return Ok(self.atom(e, b)),
                    }
                }
                r
            }
            N::Or(v) => {
                let mut r = self.one();
                for c in v.iter() {
                    let p = self.bit(x, *c, b)?;
                    let o = self.one();
                    let np = self.xor(&p, &o);
                    match self.mul(&r, &np) {
                        Some(q) => r = q,
                        None => return Ok(self.atom(e, b)),
                    }
                }
                let o = self.one();
                self.xor(&r, &o)
            }
            N::Concat(ps) => {
                let mut pos = 0;
                for p in ps.iter().rev() {
                    let w = x.w[*p as usize];
                    if b < pos + w {
                        return self.bit(x, *p, b - pos);
                    }
                    pos += w;
                }
                unreachable!()
            }
            N::Ext(a, lo) => return self.bit_sub(x, *a, b + lo, e, b),
            N::SExt(a) => {
                let w = x.w[*a as usize];
                return self.bit(x, *a, b.min(w - 1));
            }
            N::Ite(c, p, q) => {
                let (c, p, q) = (*c, *p, *q);
                let pp = self.bit(x, p, b)?;
                let qq = self.bit(x, q, b)?;
                let d = self.xor(&pp, &qq);
                if d.is_empty() {
                    return Ok(pp);
                }
                // c = "x is zero" (or its negation) and the arms agree there
                let (pos, inner) = match &x.n[c as usize] {
                    N::Xor(1, l) if l.len() == 1 && x.w[c as usize] == 1 => (false, l[0]),
                    _ => (true, c),
                };
                if matches!(x.n[inner as usize], N::And(_) | N::Eq(..)) {
                    let mut facts = vec![];
                    if self.zero_facts(x, inner, &mut facts)? && self.in_span(&d, &facts) {
                        // when inner holds both arms agree, so the arm taken otherwise is always right
                        return Ok(if pos { qq } else { pp });
                    }
                }
                let cc = self.bit(x, c, 0)?;
                match self.mul(&cc, &d) {
                    Some(r) => self.xor(&r, &qq),
                    None => self.atom(e, b),
                }
            }
            N::Eq(p, q) => {
                let w = x.w[*p as usize];
                if w > 10 {
                    return Ok(self.atom(e, b));
                }
                let (p, q) = (*p, *q);
                let mut r = self.one();
                for k in 0..w {
                    let s = self.bit(x, p, k)?;
                    let t = self.bit(x, q, k)?;
                    let d = self.xor(&s, &t);
                    let o = self.one();
                    let nd = self.xor(&d, &o);
                    match self.mul(&r, &nd) {
                        Some(v) => r = v,
                        None => return Ok(self.atom(e, b)),
                    }
                }
                r
            }
            N::Lin(c, ts) if b == 0 => {
                let mut r = if c & 1 == 1 { self.one() } else { self.zero() };
                for (k, t) in ts.iter() {
                    if k & 1 == 1 {
                        let p = self.bit(x, *t, 0)?;
                        r = self.xor(&r, &p);
                    }
                }
                r
            }
            N::Look(t, i) => {
                let tab = x.tables[*t as usize].v.clone();
                let n = tab.len();
                let bits = (64 - (n as u64 - 1).leading_zeros()).max(1);
                if bits > 8 {
                    return Ok(self.atom(e, b));
                }
                let sz = 1usize << bits;
                let mut f: Vec<u8> = (0..sz).map(|k| ((tab[k.min(n - 1)] >> b) & 1) as u8).collect();
                // Moebius transform
                for k in 0..bits {
                    for j in 0..sz {
                        if j >> k & 1 == 1 {
                            f[j] ^= f[j ^ (1 << k)];
                        }
                    }
                }
                let i = *i;
                let iw = x.w[i as usize];
                let mut ib = vec![];
                for k in 0..bits.min(iw) {
                    ib.push(self.bit(x, i, k)?);
                }
                let mut r = self.zero();
                for j in 0..sz {
                    if f[j] == 0 {
                        continue;
                    }
                    let mut p = self.one();
                    for k in 0..bits {
                        if j >> k & 1 == 1 {
                            if k >= iw {
                                p = self.zero();
                                break;
                            }
                            match self.mul(&p, &ib[k as usize].clone()) {
                                Some(v) => p = v,
                                None => return Ok(self.atom(e, b)),
                            }
                        }
                    }
                    r = self.xor(&r, &p);
                }
                r
            }
            _ => self.atom(e, b),
        })
    }
    fn bit_sub(&mut self, x: &Ctx, a: E, ab: u32, e: E, b: u32) -> Result<Poly, Give> {
        // an extract of an opaque term is an atom of the inner term, so that slices agree
        let _ = (e, b);
        self.bit(x, a, ab)
    }
    /// is the boolean term c identically true?
    pub fn prove(&mut self, x: &Ctx, c: E) -> Result<bool, Give> {
        match &x.n[c as usize] {
            N::And(v) => {
                for e in v.to_vec() {
                    if !self.prove(x, e)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            N::Eq(a, b) => {
                let (a, b) = (*a, *b);
                for k in 0..x.w[a as usize] {
                    let p = self.bit(x, a, k)?;
                    let q = self.bit(x, b, k)?;
                    if p != q {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => {
                let p = self.bit(x, c, 0)?;
                Ok(p.len() == 1 && p[0] == 0)
            }
        }
    }
}
