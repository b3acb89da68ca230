//! Hash-consed bit-vector terms with a normalising simplifier.
use crate::ir::mask;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fop {
    Add,
    Sub,
    Mul,
    Div,
    Sqrt,
    Cmp(u8), // LLVM fcmp predicate number
    ToF(u32),
    FromS,
    FromU,
    ToS,
    ToU,
    Round, // roundeven/nearbyint
    Misc(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    C(u128),
    Var(u32),
    Lin(u128, Box<[(u128, E)]>),
    Mul(E, E),
    And(Box<[E]>),
    Or(Box<[E]>),
    Xor(u128, Box<[E]>),
    Concat(Box<[E]>), // most significant first
    Ext(E, u32),
    SExt(E),
    Shl(E, E),
    Lshr(E, E),
    Ashr(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Look(u32, E),
    Uf(u32, Box<[E]>),
    Fp(Fop, Box<[E]>),
}

#[derive(Clone, Copy, Debug)]
pub struct Rng {
    pub ulo: u64,
    pub uhi: u64,
    pub slo: i64,
    pub shi: i64,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub lo: u64,
    pub hi: u64,
    pub input: bool,
    pub idx: u32,
}

pub struct Table {
    pub w: u32,
    pub v: Rc<Vec<u64>>,
}

pub struct Ctx {
    pub n: Vec<N>,
    pub w: Vec<u32>,
    pub r: Vec<Rng>,
    tab: Vec<u32>,
    pub vars: Vec<VarInfo>,
    pub tables: Vec<Table>,
    table_ix: HashMap<Vec<u64>, Vec<(u32, u32)>>,
    pub ufs: Vec<(String, u32)>,
    pub compose: bool,
    space: HashMap<E, Vec<(bool, Vec<E>)>>,
    tabulated: HashMap<E, Option<(E, u32)>>,
    linear_ix: HashMap<u32, bool>,
    pub affine_ix: HashMap<(u32, u32, u64, u64), Option<(u64, u64)>>,
    uf_ix: HashMap<String, u32>,
    depth: u32,
    pub max_nodes: usize,
}

#[inline]
fn h64(mut x: u64) -> u64 {
    x ^= x >> 32;
    x = x.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 29;
    x
}
struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        h64(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(a));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

pub fn sx(w: u32, v: u128) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let m = 1u128 << (w - 1);
    if v & m != 0 {
        (v | !((1u128 << w) - 1)) as i128
    } else {
        v as i128
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub const FALSE: E = 0;
pub const TRUE: E = 1;

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { n: vec![], w: vec![], r: vec![], tab: vec![u32::MAX; 1 << 16], vars: vec![], tables: vec![], table_ix: HashMap::new(), ufs: vec![], affine_ix: HashMap::new(), compose: true, space: HashMap::new(), tabulated: HashMap::new(), linear_ix: HashMap::new(), uf_ix: HashMap::new(), depth: 0, max_nodes: 60_000_000 };
        c.c(1, 0);
        c.c(1, 1);
        c
    }
    fn hash(w: u32, n: &N) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut f = Fx(w as u64);
        n.hash(&mut f);
        f.finish()
    }
    fn mk(&mut self, w: u32, n: N) -> E {
        let mut h = Self::hash(w, &n) as usize & (self.tab.len() - 1);
        loop {
            let k = self.tab[h];
            if k == u32::MAX {
                break;
            }
            if self.w[k as usize] == w && self.n[k as usize] == n {
                return k;
            }
            h = (h + 1) & (self.tab.len() - 1);
        }
        let id = self.n.len() as u32;
        if self.n.len() > self.max_nodes {
            std::panic::panic_any(crate::exec::Stop("term limit".into()));
        }
        let r = self.range_of(w, &n);
        self.n.push(n);
        self.w.push(w);
        self.r.push(r);
        self.tab[h] = id;
        if self.n.len() * 2 > self.tab.len() {
            let sz = self.tab.len() * 2;
            let mut t = vec![u32::MAX; sz];
            for k in 0..self.n.len() {
                let mut h = Self::hash(self.w[k], &self.n[k]) as usize & (sz - 1);
                while t[h] != u32::MAX {
                    h = (h + 1) & (sz - 1);
                }
                t[h] = k as u32;
            }
            self.tab = t;
        }
        // a term whose range is a single value is that value
        if w <= 64 && r.ulo == r.uhi && !matches!(self.n[id as usize], N::C(_)) {
            return self.c(w, r.ulo as u128);
        }
        id
    }
    fn full(w: u32) -> Rng {
        if w >= 64 {
            Rng { ulo: 0, uhi: u64::MAX, slo: i64::MIN, shi: i64::MAX }
        } else {
            Rng { ulo: 0, uhi: m64(w), slo: -(1i64 << (w - 1)), shi: (1i64 << (w - 1)) - 1 }
        }
    }
    fn from_u(w: u32, lo: u64, hi: u64) -> Rng {
        let f = Self::full(w);
        if w > 64 {
            return f;
        }
        let half = 1u64 << (w - 1);
        if hi < half {
            Rng { ulo: lo, uhi: hi, slo: lo as i64, shi: hi as i64 }
        } else if lo >= half {
            Rng { ulo: lo, uhi: hi, slo: sx(w, lo as u128) as i64, shi: sx(w, hi as u128) as i64 }
        } else {
            Rng { ulo: lo, uhi: hi, ..f }
        }
    }
    fn from_s(w: u32, lo: i64, hi: i64) -> Rng {
        let f = Self::full(w);
        if w > 64 {
            return f;
        }
        if lo >= 0 {
            Rng { ulo: lo as u64, uhi: hi as u64, slo: lo, shi: hi }
        } else if hi < 0 {
            Rng { ulo: lo as u64 & m64(w), uhi: hi as u64 & m64(w), slo: lo, shi: hi }
        } else {
            Rng { slo: lo, shi: hi, ..f }
        }
    }
    fn isect(a: Rng, b: Rng) -> Rng {
        Rng { ulo: a.ulo.max(b.ulo), uhi: a.uhi.min(b.uhi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi) }
    }
    fn range_of(&self, w: u32, n: &N) -> Rng {
        let f = Self::full(w);
        if w > 64 {
            return f;
        }
        match n {
            N::C(v) => Self::from_u(w, *v as u64, *v as u64),
            N::Var(k) => {
                let vi = &self.vars[*k as usize];
                Self::from_u(w, vi.lo, vi.hi)
            }
            N::Lin(c, ts) => {
                let (mut lo, mut hi) = (sx(w, *c), sx(w, *c));
                for (k, e) in ts.iter() {
                    let r = self.r[*e as usize];
                    let k = sx(w, *k);
                    if r.uhi as i128 > (1i128 << 62) && r.shi > (1i64 << 62) {
                        return f;
                    }
                    let (a, b) = (r.slo as i128, r.shi as i128);
                    match (k.checked_mul(a), k.checked_mul(b)) {
                        (Some(x), Some(y)) => {
                            lo += x.min(y);
                            hi += x.max(y);
                        }
                        _ => return f,
                    }
                }
                let half = 1i128 << (w - 1);
                if lo >= -half && hi < half {
                    Self::from_s(w, lo as i64, hi as i64)
                } else if lo >= 0 && hi < 2 * half {
                    Self::from_u(w, lo as u64, hi as u64)
                } else {
                    f
                }
            }
            N::Concat(ps) => {
                let mut lo = 0u64;
                let mut hi = 0u64;
                for p in ps.iter() {
                    let pw = self.w[*p as usize];
                    let r = self.r[*p as usize];
                    if pw >= 64 {
                        return f;
                    }
                    lo = (lo << pw) | r.ulo;
                    hi = (hi << pw) | r.uhi;
                }
                // the top part may be a sign extension
                let x = Self::from_u(w, lo, hi);
                x
            }
            N::SExt(e) => {
                let r = self.r[*e as usize];
                Self::from_s(w, r.slo, r.shi)
            }
            N::Ext(e, lo) => {
                let r = self.r[*e as usize];
                if self.w[*e as usize] <= 64 && (r.uhi >> lo) <= m64(w) {
                    Self::from_u(w, r.ulo >> lo, r.uhi >> lo)
                } else {
                    f
                }
            }
            N::Ite(_, a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                Rng { ulo: x.ulo.min(y.ulo), uhi: x.uhi.max(y.uhi), slo: x.slo.min(y.slo), shi: x.shi.max(y.shi) }
            }
            N::Look(t, i) => {
                let r = self.r[*i as usize];
                let v = &self.tables[*t as usize].v;
                let hi = (r.uhi as usize).min(v.len() - 1);
                let lo = (r.ulo as usize).min(hi);
                let (mut a, mut b) = (u64::MAX, 0);
                let (mut sa, mut sb) = (i64::MAX, i64::MIN);
                for x in &v[lo..=hi] {
                    a = a.min(*x);
                    b = b.max(*x);
                    let s = sx(w, *x as u128) as i64;
                    sa = sa.min(s);
                    sb = sb.max(s);
                }
                Rng { ulo: a, uhi: b, slo: sa, shi: sb }
            }
            N::And(v) => {
                let hi = v.iter().map(|e| self.r[*e as usize].uhi).min().unwrap();
                Self::from_u(w, 0, hi)
            }
            N::Or(v) => {
                let mx = v.iter().map(|e| self.r[*e as usize].uhi).max().unwrap();
                let lo = v.iter().map(|e| self.r[*e as usize].ulo).max().unwrap();
                let b = 64 - mx.leading_zeros();
                Self::from_u(w, lo, m64(b.max(1)).min(m64(w)))
            }
            N::Xor(c, v) => {
                if w == 1 {
                    if v.len() == 1 && *c == 1 {
                        let r = self.r[v[0] as usize];
                        return Self::from_u(1, 1 - r.uhi, 1 - r.ulo);
                    }
                    return f;
                }
                let mut mx = *c as u64;
                for e in v.iter() {
                    mx |= self.r[*e as usize].uhi;
                }
                let b = 64 - mx.leading_zeros();
                Self::from_u(w, 0, m64(b.max(1)).min(m64(w)))
            }
            N::Mul(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                let ps = [x.slo as i128 * y.slo as i128, x.slo as i128 * y.shi as i128, x.shi as i128 * y.slo as i128, x.shi as i128 * y.shi as i128];
                let lo = *ps.iter().min().unwrap();
                let hi = *ps.iter().max().unwrap();
                let half = 1i128 << (w - 1);
                if lo >= -half && hi < half {
                    return Self::from_s(w, lo as i64, hi as i64);
                }
                if (x.uhi as u128) * (y.uhi as u128) <= m64(w) as u128 {
                    return Self::from_u(w, x.ulo * y.ulo, x.uhi * y.uhi);
                }
                f
            }
            N::UDiv(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if y.ulo > 0 {
                    Self::from_u(w, x.ulo / y.uhi, x.uhi / y.ulo)
                } else {
                    f
                }
            }
            N::URem(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if y.ulo > 0 {
                    Self::from_u(w, 0, x.uhi.min(y.uhi - 1))
                } else {
                    Self::from_u(w, 0, x.uhi)
                }
            }
            N::SDiv(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if y.slo > 0 && x.slo > i64::MIN {
                    let c = [x.slo / y.slo, x.slo / y.shi, x.shi / y.slo, x.shi / y.shi];
                    Self::from_s(w, *c.iter().min().unwrap(), *c.iter().max().unwrap())
                } else {
                    f
                }
            }
            N::SRem(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if y.slo > 0 {
                    let m = y.shi - 1;
                    let lo = if x.slo >= 0 { 0 } else { (-m).max(x.slo) };
                    let hi = if x.shi < 0 { 0 } else { m.min(x.shi) };
                    Self::from_s(w, lo, hi)
                } else {
                    f
                }
            }
            N::Lshr(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                let lo = if y.uhi >= 64 { 0 } else { x.ulo >> y.uhi };
                let hi = if y.ulo >= 64 { 0 } else { x.uhi >> y.ulo };
                Self::from_u(w, lo, hi)
            }
            N::Ashr(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                let s1 = y.ulo.min(63);
                let s2 = y.uhi.min(63);
                let c = [x.slo >> s1, x.slo >> s2, x.shi >> s1, x.shi >> s2];
                Self::from_s(w, *c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
            N::Shl(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if y.uhi < 64 && (x.uhi as u128) << y.uhi <= m64(w) as u128 {
                    Self::from_u(w, x.ulo << y.ulo, x.uhi << y.uhi)
                } else {
                    f
                }
            }
            N::Ult(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if self.w[*a as usize] <= 64 {
                    if x.uhi < y.ulo {
                        return Self::from_u(1, 1, 1);
                    }
                    if x.ulo >= y.uhi {
                        return Self::from_u(1, 0, 0);
                    }
                }
                f
            }
            N::Slt(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if self.w[*a as usize] <= 64 {
                    if x.shi < y.slo {
                        return Self::from_u(1, 1, 1);
                    }
                    if x.slo >= y.shi {
                        return Self::from_u(1, 0, 0);
                    }
                }
                f
            }
            N::Eq(a, b) => {
                let (x, y) = (self.r[*a as usize], self.r[*b as usize]);
                if self.w[*a as usize] <= 64 && (x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo) {
                    return Self::from_u(1, 0, 0);
                }
                f
            }
            _ => f,
        }
    }

    // ---- constructors
    pub fn c(&mut self, w: u32, v: u128) -> E {
        self.mk(w, N::C(mask(w, v)))
    }
    pub fn ci(&mut self, w: u32, v: i128) -> E {
        self.c(w, v as u128)
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        if let N::C(v) = self.n[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn scv(&self, e: E) -> Option<i128> {
        self.cv(e).map(|v| sx(self.w[e as usize], v))
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize]
    }
    pub fn var(&mut self, name: &str, idx: u32, w: u32, lo: u64, hi: u64, input: bool) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, lo, hi, input, idx });
        self.mk(w, N::Var(id))
    }
    pub fn uf(&mut self, name: &str, w: u32, args: Vec<E>) -> E {
        let id = if let Some(&k) = self.uf_ix.get(name) {
            k
        } else {
            let k = self.ufs.len() as u32;
            self.ufs.push((name.to_string(), w));
            self.uf_ix.insert(name.to_string(), k);
            k
        };
        self.mk(w, N::Uf(id, args.into()))
    }
    pub fn table(&mut self, w: u32, v: Vec<u64>) -> u32 {
        if let Some(l) = self.table_ix.get(&v) {
            for (tw, id) in l {
                if *tw == w {
                    return *id;
                }
            }
        }
        let id = self.tables.len() as u32;
        self.tables.push(Table { w, v: Rc::new(v.clone()) });
        self.table_ix.entry(v).or_default().push((w, id));
        id
    }
    /// the xor form of a bit
    fn xform(&self, e: E) -> (bool, Vec<E>) {
        match &self.n[e as usize] {
            N::C(c) => (c & 1 == 1, vec![]),
            N::Xor(c, l) => (c & 1 == 1, l.to_vec()),
            _ => (false, vec![e]),
        }
    }
    fn xadd(a: &mut (bool, Vec<E>), b: &(bool, Vec<E>)) {
        a.0 ^= b.0;
        let (mut i, mut j) = (0, 0);
        let mut o = Vec::with_capacity(a.1.len() + b.1.len());
        while i < a.1.len() || j < b.1.len() {
            if j >= b.1.len() || i < a.1.len() && a.1[i] < b.1[j] {
                o.push(a.1[i]);
                i += 1;
            } else if i >= a.1.len() || b.1[j] < a.1[i] {
                o.push(b.1[j]);
                j += 1;
            } else {
                i += 1;
                j += 1;
            }
        }
        a.1 = o;
    }
    /// is the bit l zero wherever the conjunction c of affine equations holds?
    fn vanishes(&mut self, l: E, c: E) -> bool {
        let mut rows: Vec<(bool, Vec<E>)> = match self.space.get(&c) {
            Some(r) => r.clone(),
            None => {
                let lits: Vec<E> = match &self.n[c as usize] {
                    N::And(v) => v.to_vec(),
                    _ => vec![c],
                };
                let mut rows: Vec<(bool, Vec<E>)> = vec![];
                if lits.len() <= 64 {
                    for e in lits {
                        if let N::Eq(x, y) = self.n[e as usize] {
                            let w = self.w[x as usize];
                            if w <= 64 {
                                for k in 0..w {
                                    let a = self.ext(x, k, 1);
                                    let b = self.ext(y, k, 1);
                                    let mut r = self.xform(a);
                                    let q = self.xform(b);
                                    Self::xadd(&mut r, &q);
                                    rows.push(r);
                                }
                            }
                        } else {
                            let mut r = self.xform(e);
                            r.0 ^= true;
                            rows.push(r);
                        }
                    }
                }
                // echelon form, pivot = largest leaf
                let mut ech: Vec<(bool, Vec<E>)> = vec![];
                for mut r in rows {
                    loop {
                        let Some(&p) = r.1.last() else { break };
                        match ech.iter().position(|x| *x.1.last().unwrap() == p) {
                            Some(k) => {
                                let q = ech[k].clone();
                                Self::xadd(&mut r, &q);
                            }
                            None => break,
                        }
                    }
                    if !r.1.is_empty() {
                        ech.push(r);
                    }
                }
                ech.sort_by(|a, b| b.1.last().cmp(&a.1.last()));
                if self.space.len() > 100000 {
                    self.space.clear();
                }
                self.space.insert(c, ech.clone());
                ech
            }
        };
        let mut f = self.xform(l);
        for r in rows.drain(..) {
            let p = *r.1.last().unwrap();
            if f.1.binary_search(&p).is_ok() {
                Self::xadd(&mut f, &r);
            }
        }
        f.1.is_empty() && !f.0
    }
    /// a term that depends on one narrow subterm only, tabulated over it
    fn tabulate(&mut self, e: E) -> Option<(E, u32)> {
        if let Some(r) = self.tabulated.get(&e) {
            return *r;
        }
        let r = self.tabulate1(e);
        self.tabulated.insert(e, r);
        r
    }
    fn tabulate1(&mut self, e: E) -> Option<(E, u32)> {
        if self.w[e as usize] > 64 {
            return None;
        }
        // candidates: indices of the tables below e
        let mut cand: Vec<E> = vec![];
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![e];
        let mut big = false;
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if seen.len() > 48 {
                big = true;
                break;
            }
            if let N::Look(_, i) = self.n[x as usize] {
                cand.push(i);
            }
            if cand.len() > 8 {
                big = true;
                break;
            }
            match &self.n[x as usize] {
                N::Lin(..) | N::And(_) | N::Or(_) | N::Xor(..) | N::Concat(_) | N::Ext(..) | N::SExt(_) | N::Ite(..) | N::Eq(..) | N::Ult(..) | N::Slt(..) | N::Look(..) => st.extend(self.children(x)),
                _ => {}
            }
        }
        let _ = big;
        cand.sort();
        cand.dedup();
        'c: for v in cand {
            let vw = self.w[v as usize];
            if vw > 16 || v == e {
                continue;
            }
            // pieces of v, and simple predicates on them, are functions of v as well
            let size = 1usize << vw;
            let mut val: HashMap<E, Rc<Vec<u64>>> = HashMap::new();
            let pieces: Vec<E> = match &self.n[v as usize] {
                N::Concat(l) => l.to_vec(),
                N::Xor(..) => vec![v],
                _ => vec![],
            };
            let mut lo = vw;
            for p in pieces {
                let pw = self.w[p as usize];
                lo -= pw;
                if self.cv(p).is_some() {
                    continue;
                }
                let m = m64(pw);
                if p != v {
                    val.insert(p, Rc::new((0..size as u64).map(|k| k >> lo & m).collect()));
                }
                for b in 0..pw {
                    let x = self.ext(p, b, 1);
                    val.insert(x, Rc::new((0..size as u64).map(|k| k >> (lo + b) & 1).collect()));
                    let x = self.not(x);
                    val.insert(x, Rc::new((0..size as u64).map(|k| (k >> (lo + b) & 1) ^ 1).collect()));
                }
                if pw > 1 {
                    let z = self.c(pw, 0);
                    let x = self.eq(p, z);
                    val.insert(x, Rc::new((0..size as u64).map(|k| (k >> lo & m == 0) as u64).collect()));
                }
            }
            val.insert(v, Rc::new((0..size as u64).collect()));
            // everything below e must go through v
            let mut seen = std::collections::HashSet::new();
            let mut st = vec![e];
            let mut order: Vec<E> = vec![];
            while let Some(x) = st.pop() {
                if val.contains_key(&x) || !seen.insert(x) {
                    continue;
                }
                if seen.len() > 64 || self.w[x as usize] > 64 {
                    continue 'c;
                }
                match &self.n[x as usize] {
                    N::C(_) => {}
                    N::Lin(..) | N::And(_) | N::Or(_) | N::Xor(..) | N::Concat(_) | N::Ext(..) | N::SExt(_) | N::Ite(..) | N::Eq(..) | N::Ult(..) | N::Slt(..) | N::Look(..) => st.extend(self.children(x)),
                    _ => continue 'c,
                }
                order.push(x);
            }
            order.sort();
            for x in &order {
                let w = self.w[*x as usize];
                let m = m64(w);
                let g = |k: &E| val[k].clone();
                let sg = |k: &E, i: u64| -> i64 { sx(self.w[*k as usize], i as u128) as i64 };
                let r: Vec<u64> = match &self.n[*x as usize] {
                    N::C(c) => vec![*c as u64; size],
                    N::Lin(c, ts) => {
                        let mut r = vec![*c as u64; size];
                        for (k, t) in ts.iter() {
                            let a = g(t);
                            for i in 0..size {
                                r[i] = r[i].wrapping_add(a[i].wrapping_mul(*k as u64));
                            }
                        }
                        r.iter().map(|z| z & m).collect()
                    }
                    N::And(l) => (0..size).map(|i| l.iter().fold(m, |z, k| z & val[k][i])).collect(),
                    N::Or(l) => (0..size).map(|i| l.iter().fold(0, |z, k| z | val[k][i])).collect(),
                    N::Xor(c, l) => (0..size).map(|i| l.iter().fold(*c as u64 & m, |z, k| z ^ val[k][i])).collect(),
                    N::Concat(l) => (0..size)
                        .map(|i| {
                            let mut z = 0u64;
                            for k in l.iter() {
                                let kw = self.w[*k as usize];
                                z = if kw >= 64 { val[k][i] } else { z << kw | val[k][i] };
                            }
                            z
                        })
                        .collect(),
                    N::Ext(a, lo) => g(a).iter().map(|z| z >> lo & m).collect(),
                    N::SExt(a) => g(a).iter().map(|z| sg(a, *z) as u64 & m).collect(),
                    N::Ite(c, a, b) => (0..size).map(|i| if val[c][i] & 1 == 1 { val[a][i] } else { val[b][i] }).collect(),
                    N::Eq(a, b) => (0..size).map(|i| (val[a][i] == val[b][i]) as u64).collect(),
                    N::Ult(a, b) => (0..size).map(|i| (val[a][i] < val[b][i]) as u64).collect(),
                    N::Slt(a, b) => (0..size).map(|i| (sg(a, val[a][i]) < sg(b, val[b][i])) as u64).collect(),
                    N::Look(t, a) => {
                        let tv = self.tables[*t as usize].v.clone();
                        g(a).iter().map(|z| tv[(*z as usize).min(tv.len() - 1)]).collect()
                    }
                    _ => unreachable!(),
                };
                val.insert(*x, Rc::new(r));
            }
            let t = self.table(self.w[e as usize], val[&e].to_vec());
            return Some((v, t));
        }
        None
    }
    /// a comparison that depends on one table index only
    fn tab_bool(&mut self, e: E) -> E {
        if !self.compose {
            return e;
        }
        let ok = match &self.n[e as usize] {
            N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => {
                let f = |x: E| matches!(self.n[x as usize], N::Look(..) | N::Ite(..) | N::Lin(..));
                f(*a) && (f(*b) || self.cv(*b).is_some()) || f(*b) && self.cv(*a).is_some()
            }
            _ => false,
        };
        if ok {
            if let Some((v, t)) = self.tabulate(e) {
                return self.look(t, v);
            }
        }
        e
    }
    pub fn look(&mut self, t: u32, idx: E) -> E {
        let tb = &self.tables[t as usize];
        let w = tb.w;
        let r = self.r[idx as usize];
        let n = tb.v.len() as u64;
        let lo = r.ulo.min(n - 1);
        let hi = r.uhi.min(n - 1);
        if lo == hi {
            let v = tb.v[lo as usize];
            return self.c(w, v as u128);
        }
        let first = tb.v[lo as usize];
        let v = tb.v.clone();
        if v[lo as usize..=hi as usize].iter().all(|x| *x == first) {
            return self.c(w, first as u128);
        }
        if let N::Ite(c, a, b) = self.n[idx as usize] {
            if self.cv(a).is_some() && self.cv(b).is_some() {
                let x = self.look(t, a);
                let y = self.look(t, b);
                return self.ite(c, x, y);
            }
        }
        if hi - lo == 1 {
            let l = self.c(self.w[idx as usize], lo as u128);
            let q = self.eq(idx, l);
            let a = self.c(w, v[lo as usize] as u128);
            let b = self.c(w, v[hi as usize] as u128);
            return self.ite(q, a, b);
        }
        // a table inverse to the one that produced the index
        if let N::Look(s, j) = self.n[idx as usize] {
            let rj = self.r[j as usize];
            let m = self.tables[s as usize].v.len() as u64;
            let (jl, jh) = (rj.ulo.min(m - 1), rj.uhi.min(m - 1));
            let key = (t, s, jl, jh);
            let aff = match self.affine_ix.get(&key) {
                Some(a) => *a,
                None => {
                    let sv = &self.tables[s as usize].v;
                    let msk = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                    let at = |k: u64| sv[k as usize];
                    let mut a = None;
                    if at(jl) < n && at(jl + 1) < n {
                        let (x, y) = (v[at(jl) as usize] & msk, v[at(jl + 1) as usize] & msk);
                        let d = y.wrapping_sub(x) & msk;
                        if d == 1 || d == msk {
                            let c0 = x.wrapping_sub(d.wrapping_mul(jl)) & msk;
                            if (jl..=jh).all(|k| at(k) < n && v[at(k) as usize] & msk == c0.wrapping_add(d.wrapping_mul(k)) & msk) {
                                a = Some((c0, d));
                            }
                        }
                    }
                    self.affine_ix.insert(key, a);
                    a
                }
            };
            if let Some((c0, d)) = aff {
                let z = self.zext_or_trunc(j, w);
                return self.lin(w, c0 as u128, vec![(d as u128, z)]);
            }
        }
        if w == 1 {
            // a predicate with one exception
            let ones = v[lo as usize..=hi as usize].iter().filter(|x| **x & 1 == 1).count() as u64;
            if ones == 1 || ones == hi - lo {
                let k = (lo..=hi).find(|k| (v[*k as usize] & 1 == 1) == (ones == 1)).unwrap();
                let l = self.c(self.w[idx as usize], k as u128);
                let q = self.eq(idx, l);
                return if ones == 1 { q } else { self.not(q) };
            }
        }
        if self.compose && matches!(self.n[idx as usize], N::Ite(..) | N::Lin(..) | N::Look(..) | N::Concat(_)) {
            if let Some((b, it)) = self.tabulate(idx) {
                let iv = self.tables[it as usize].v.clone();
                let nv: Vec<u64> = iv.iter().map(|k| v[(*k as usize).min(v.len() - 1)]).collect();
                let nt = self.table(w, nv);
                return self.look(nt, b);
            }
        }
        // linear over GF(2)?
        let iw = self.w[idx as usize];
        if self.compose && iw >= 2 && iw <= 16 && n >= 1 << iw && v[0] == 0 {
            let lin = match self.linear_ix.get(&t) {
                Some(l) => *l,
                None => {
                    let l = (1..1usize << iw).all(|k| {
                        let b = k & k.wrapping_neg();
                        v[k] == v[k ^ b] ^ v[b]
                    });
                    self.linear_ix.insert(t, l);
                    l
                }
            };
            if lin {
                let bits: Vec<E> = (0..iw).map(|k| self.ext(idx, k, 1)).collect();
                let mut out = vec![];
                for j in (0..w).rev() {
                    let sel: Vec<E> = (0..iw as usize).filter(|k| v[1 << k] >> j & 1 == 1).map(|k| bits[k]).collect();
                    let x = if sel.is_empty() { FALSE } else { self.xor_n(1, 0, sel) };
                    out.push(x);
                }
                return self.concat(out);
            }
        }
        // identity table?
        if (lo..=hi).all(|k| v[k as usize] == k) {
            return self.zext_or_trunc(idx, w);
        }
        self.mk(w, N::Look(t, idx))
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w[a as usize];
        let ones = mask(w, u128::MAX);
        self.xor_n(w, ones, vec![a])
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.and_n(vec![a, b])
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if w == 1 {
            let x = self.not(a);
            let y = self.not(b);
            let z = self.and(x, y);
            return self.not(z);
        }
        self.or_n(vec![a, b])
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        self.xor_n(w, 0, vec![a, b])
    }
    pub fn implies(&mut self, a: E, b: E) -> E {
        let nb = self.not(b);
        let x = self.and(a, nb);
        self.not(x)
    }

    fn bounds(&self, es: &[E]) -> Option<Vec<u32>> {
        // union of the piece boundaries of all Concat arguments
        let mut any = false;
        let mut bs: Vec<u32> = vec![];
        for &e in es {
            if let N::Concat(ps) = &self.n[e as usize] {
                any = true;
                let mut pos = 0;
                for p in ps.iter().rev() {
                    pos += self.w[*p as usize];
                    bs.push(pos);
                }
            }
        }
        if !any {
            return None;
        }
        bs.sort();
        bs.dedup();
        Some(bs)
    }
    fn split<F: FnMut(&mut Ctx, Vec<E>, u32, u32) -> E>(&mut self, bs: &[u32], es: &[E], mut f: F) -> E {
        let mut lo = 0;
        let mut out = vec![];
        for &b in bs {
            let pw = b - lo;
            let sub: Vec<E> = es.iter().map(|&e| self.ext(e, lo, pw)).collect();
            let r = f(self, sub, lo, pw);
            out.push(r);
            lo = b;
        }
        out.reverse();
        self.concat(out)
    }
    fn runs(w: u32, k: u128) -> Vec<(u32, u32, bool)> {
        let mut v = vec![];
        let mut i = 0;
        while i < w {
            let b = (k >> i) & 1;
            let st = i;
            while i < w && (k >> i) & 1 == b {
                i += 1;
            }
            v.push((st, i - st, b == 1));
        }
        v
    }

    pub fn and_n(&mut self, es: Vec<E>) -> E {
        let w = self.w[es[0] as usize];
        let ones = mask(w, u128::MAX);
        let mut k = ones;
        let mut v: Vec<E> = vec![];
        for e in es {
            match &self.n[e as usize] {
                N::C(c) => k &= *c,
                N::And(l) => v.extend(l.iter().cloned()),
                _ => v.push(e),
            }
        }
        if k == 0 {
            return self.c(w, 0);
        }
        v.sort();
        v.dedup();
        if v.is_empty() {
            return self.c(w, k);
        }
        if k != ones {
            let rs = Self::runs(w, k);
            let mut out = vec![];
            for (lo, n, b) in rs {
                if !b {
                    let z = self.c(n, 0);
                    out.push(z);
                } else {
                    let sub: Vec<E> = v.iter().map(|&e| self.ext(e, lo, n)).collect();
                    let r = self.and_n(sub);
                    out.push(r);
                }
            }
            out.reverse();
            return self.concat(out);
        }
        if v.len() == 1 {
            return v[0];
        }
        if let Some(bs) = self.bounds(&v) {
            return self.split(&bs, &v, |c, s, _, _| c.and_n(s));
        }
        // complementary pair
        if w == 1 {
            // absorb: x & !x ; also x & (a | x) etc.
            for i in 0..v.len() {
                if let N::Xor(1, l) = &self.n[v[i] as usize] {
                    if l.len() == 1 {
                        let inner = l[0];
                        if v.binary_search(&inner).is_ok() {
                            return FALSE;
                        }
                        // !(and of subset present) => false ; !(A & B) with A present => !B
                        if let N::And(sub) = &self.n[inner as usize] {
                            let sub: Vec<E> = sub.to_vec();
                            let rest: Vec<E> = sub.iter().cloned().filter(|x| v.binary_search(x).is_err()).collect();
                            if rest.is_empty() {
                                return FALSE;
                            }
                            // an element whose complement is present makes the conjunction false: drop v[i]
                            let mut drop = false;
                            for &x in &rest {
                                let nx = self.not(x);
                                if nx != v[i] && v.contains(&nx) {
                                    drop = true;
                                    break;
                                }
                            }
                            if drop {
                                let mut v2 = v.clone();
                                v2.remove(i);
                                return self.and_n(v2);
                            }
                            if rest.len() < sub.len() {
                                let a = self.and_n(rest);
                                let na = self.not(a);
                                let mut v2 = v.clone();
                                v2.remove(i);
                                v2.push(na);
                                return self.and_n(v2);
                            }
                        }
                    }
                }
            }
            // contradictory or redundant affine equations
            if self.compose && v.len() >= 2 && v.len() <= 40 {
                let xs: Vec<usize> = (0..v.len()).filter(|i| matches!(&self.n[v[*i] as usize], N::Xor(_, l) if l.len() > 1)).collect();
                if xs.len() >= 2 {
                    // single leaves first: they make the rest redundant, not the other way round
                    let mut ech: Vec<(bool, Vec<E>)> = vec![];
                    let mut gone = None;
                    let mut order: Vec<usize> = (0..v.len()).filter(|i| !matches!(self.n[v[*i] as usize], N::And(_) | N::Ite(..) | N::Eq(..))).collect();
                    order.sort_by_key(|i| self.xform(v[*i]).1.len());
                    for i in order {
                        let mut r = self.xform(v[i]);
                        r.0 ^= true;
                        for q in &ech {
                            let p = *q.1.last().unwrap();
                            if r.1.binary_search(&p).is_ok() {
                                Self::xadd(&mut r, q);
                            }
                        }
                        if r.1.is_empty() {
                            if r.0 {
                                return FALSE;
                            }
                            gone = Some(i);
                            break;
                        }
                        let p = *r.1.last().unwrap();
                        // keep the pivots reduced: descending order of pivots
                        let at = ech.iter().position(|q| *q.1.last().unwrap() < p).unwrap_or(ech.len());
                        ech.insert(at, r);
                    }
                    if let Some(i) = gone {
                        let mut v2 = v.clone();
                        v2.remove(i);
                        return self.and_n(v2);
                    }
                }
            }
            // a predicate patched at one point
            if v.len() >= 2 && v.len() <= 6 {
                for j in 0..v.len() {
                    let N::Look(t, x) = self.n[v[j] as usize] else { continue };
                    for i in 0..v.len() {
                        if i == j {
                            continue;
                        }
                        for flip in [false, true] {
                            if flip != matches!(self.n[v[i] as usize], N::Xor(1, _)) {
                                continue;
                            }
                            if let Some(p) = self.is_point(v[i], x, flip) {
                                let mut tv = self.tables[t as usize].v.to_vec();
                                if p as usize >= tv.len() {
                                    continue;
                                }
                                let mut v2 = v.clone();
                                if flip {
                                    // x != p
                                    tv[p as usize] = 0;
                                    let nt = self.table(1, tv);
                                    let l = self.look(nt, x);
                                    v2.remove(i.max(j));
                                    v2.remove(i.min(j));
                                    v2.push(l);
                                } else if tv[p as usize] & 1 == 1 {
                                    v2.remove(j);
                                } else {
                                    return FALSE;
                                }
                                return self.and_n(v2);
                            }
                        }
                    }
                }
            }
            if v.len() > 2 && v.len() <= 64 && self.compose {
                for j in 0..v.len() {
                    let N::Look(t, x) = self.n[v[j] as usize] else { continue };
                    if !matches!(self.n[x as usize], N::Concat(_)) {
                        continue;
                    }
                    let z = self.c(self.w[x as usize], 0);
                    let q = self.eq(x, z);
                    if let N::And(l) = &self.n[q as usize] {
                        if l.iter().all(|e| v.binary_search(e).is_ok()) {
                            if self.tables[t as usize].v[0] & 1 == 0 {
                                return FALSE;
                            }
                            let mut v2 = v.clone();
                            v2.remove(j);
                            return self.and_n(v2);
                        }
                    }
                }
            }
            // l & !(conjunction) = l where l vanishes on the affine space of the conjunction
            if v.len() >= 2 && v.len() <= 4 {
                for i in 0..v.len() {
                    let N::Xor(1, l) = &self.n[v[i] as usize] else { continue };
                    if l.len() != 1 {
                        continue;
                    }
                    let inner = l[0];
                    if !matches!(self.n[inner as usize], N::And(_) | N::Eq(..)) {
                        continue;
                    }
                    for j in 0..v.len() {
                        if j != i && matches!(self.n[v[j] as usize], N::Xor(..) | N::Ext(..)) && self.vanishes(v[j], inner) {
                            let mut v2 = v.clone();
                            v2.remove(i);
                            return self.and_n(v2);
                        }
                    }
                }
            }
            // Eq(x,c1) & Eq(x,c2)
            let mut eqs: Vec<(E, u128)> = vec![];
            for &e in &v {
                if let N::Eq(a, b) = self.n[e as usize] {
                    if let Some(c) = self.cv(b) {
                        if eqs.iter().any(|(x, y)| *x == a && *y != c) {
                            return FALSE;
                        }
                        eqs.push((a, c));
                    }
                }
            }
        } else {
            for i in 0..v.len() {
                if let N::Xor(k, l) = &self.n[v[i] as usize] {
                    if *k == ones && l.len() == 1 && v.binary_search(&l[0]).is_ok() {
                        return self.c(w, 0);
                    }
                }
            }
            // push sign masks: SExt(c) & x  = Ite(c, x, 0)
            for i in 0..v.len() {
                if let N::SExt(c) = self.n[v[i] as usize] {
                    if self.w[c as usize] == 1 {
                        let mut v2 = v.clone();
                        v2.remove(i);
                        let x = self.and_n(v2);
                        let z = self.c(w, 0);
                        return self.ite(c, x, z);
                    }
                }
            }
        }
        self.mk(w, N::And(v.into()))
    }
    pub fn or_n(&mut self, es: Vec<E>) -> E {
        let w = self.w[es[0] as usize];
        if w == 1 {
            let v: Vec<E> = es.iter().map(|&e| self.not(e)).collect();
            let a = self.and_n(v);
            return self.not(a);
        }
        let ones = mask(w, u128::MAX);
        let mut k = 0;
        let mut v: Vec<E> = vec![];
        for e in es {
            match &self.n[e as usize] {
                N::C(c) => k |= *c,
                N::Or(l) => v.extend(l.iter().cloned()),
                _ => v.push(e),
            }
        }
        if k == ones {
            return self.c(w, k);
        }
        v.sort();
        v.dedup();
        if v.is_empty() {
            return self.c(w, k);
        }
        if k != 0 {
            let rs = Self::runs(w, k);
            let mut out = vec![];
            for (lo, n, b) in rs {
                if b {
                    let z = self.c(n, u128::MAX);
                    out.push(z);
                } else {
                    let sub: Vec<E> = v.iter().map(|&e| self.ext(e, lo, n)).collect();
                    let r = self.or_n(sub);
                    out.push(r);
                }
            }
            out.reverse();
            return self.concat(out);
        }
        if v.len() == 1 {
            return v[0];
        }
        if let Some(bs) = self.bounds(&v) {
            return self.split(&bs, &v, |c, s, _, _| c.or_n(s));
        }
        for i in 0..v.len() {
            if let N::Xor(k, l) = &self.n[v[i] as usize] {
                if *k == ones && l.len() == 1 && v.binary_search(&l[0]).is_ok() {
                    return self.c(w, ones);
                }
            }
            if let N::SExt(c) = self.n[v[i] as usize] {
                if self.w[c as usize] == 1 {
                    let mut v2 = v.clone();
                    v2.remove(i);
                    let x = self.or_n(v2);
                    let z = self.c(w, ones);
                    return self.ite(c, z, x);
                }
            }
        }
        self.mk(w, N::Or(v.into()))
    }
    pub fn xor_n(&mut self, w: u32, k: u128, es: Vec<E>) -> E {
        let mut k = k;
        let mut v: Vec<E> = vec![];
        for e in es {
            match &self.n[e as usize] {
                N::C(c) => k ^= *c,
                N::Xor(c, l) => {
                    k ^= *c;
                    v.extend(l.iter().cloned());
                }
                _ => v.push(e),
            }
        }
        v.sort();
        let mut u: Vec<E> = Vec::with_capacity(v.len());
        for e in v {
            if u.last() == Some(&e) {
                u.pop();
            } else {
                u.push(e);
            }
        }
        if u.is_empty() {
            return self.c(w, k);
        }
        if u.len() == 1 && k == 0 {
            return u[0];
        }
        if w == 1 && self.compose && u.len() > 1 {
            // a predicate flipped at zero
            for j in 0..u.len() {
                let N::Look(t, x) = self.n[u[j] as usize] else { continue };
                if !u.iter().any(|e| matches!(self.n[*e as usize], N::And(_) | N::Eq(..))) {
                    break;
                }
                let z = self.c(self.w[x as usize], 0);
                let q = self.eq(x, z);
                if let Ok(i) = u.binary_search(&q) {
                    let mut v = self.tables[t as usize].v.to_vec();
                    v[0] ^= 1;
                    let nt = self.table(1, v);
                    let l = self.look(nt, x);
                    let mut u2 = u.clone();
                    u2.remove(i.max(j));
                    u2.remove(i.min(j));
                    u2.push(l);
                    return self.xor_n(w, k, u2);
                }
            }
        }
        if w > 1 {
            if let Some(bs) = self.bounds(&u) {
                return self.split(&bs, &u, |c, s, lo, pw| c.xor_n(pw, mask(pw, k >> lo), s));
            }
            if u.len() == 1 {
                // complement / constant xor of a two-constant ite
                if let N::Ite(c, a, b) = self.n[u[0] as usize] {
                    if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                        let x = self.c(w, x ^ k);
                        let y = self.c(w, y ^ k);
                        return self.ite(c, x, y);
                    }
                }
                if let N::SExt(x) = self.n[u[0] as usize] {
                    if self.w[x as usize] == 1 {
                        let o = self.c(w, k ^ mask(w, u128::MAX));
                        let z = self.c(w, k);
                        if k == mask(w, u128::MAX) {
                            let nx = self.not(x);
                            return self.sext(nx, w);
                        }
                        return self.ite(x, o, z);
                    }
                }
            }
        }
        self.mk(w, N::Xor(k, u.into()))
    }

    /// the bit b if e is b extended with zeros
    fn bit_of(&self, e: E) -> Option<E> {
        if let N::Concat(ps) = &self.n[e as usize] {
            if ps.len() == 2 && self.w[ps[1] as usize] == 1 && self.cv(ps[0]) == Some(0) {
                return Some(ps[1]);
            }
        }
        None
    }
    pub fn ext(&mut self, e: E, lo: u32, n: u32) -> E {
        let w = self.w[e as usize];
        if lo == 0 && n == w {
            return e;
        }
        debug_assert!(lo + n <= w);
        match &self.n[e as usize] {
            N::C(v) => {
                let v = *v;
                self.c(n, v >> lo)
            }
            N::Ext(x, l) => {
                let (x, l) = (*x, *l);
                self.ext(x, l + lo, n)
            }
            N::Concat(ps) => {
                let ps: Vec<E> = ps.to_vec();
                let mut out = vec![];
                let mut pos = 0;
                for p in ps.iter().rev() {
                    let pw = self.w[*p as usize];
                    let a = pos.max(lo);
                    let b = (pos + pw).min(lo + n);
                    if a < b {
                        let x = self.ext(*p, a - pos, b - a);
                        out.push(x);
                    }
                    pos += pw;
                }
                out.reverse();
                self.concat(out)
            }
            N::And(v) => {
                let v = v.to_vec();
                let s: Vec<E> = v.iter().map(|&x| self.ext(x, lo, n)).collect();
                self.and_n(s)
            }
            N::Or(v) => {
                let v = v.to_vec();
                let s: Vec<E> = v.iter().map(|&x| self.ext(x, lo, n)).collect();
                self.or_n(s)
            }
            N::Xor(k, v) => {
                let k = *k;
                let v = v.to_vec();
                let s: Vec<E> = v.iter().map(|&x| self.ext(x, lo, n)).collect();
                self.xor_n(n, mask(n, k >> lo), s)
            }
            N::SExt(x) => {
                let x = *x;
                let xw = self.w[x as usize];
                if lo + n <= xw {
                    self.ext(x, lo, n)
                } else if lo >= xw {
                    let s = self.ext(x, xw - 1, 1);
                    self.sext(s, n)
                } else {
                    let y = self.ext(x, lo, xw - lo);
                    self.sext(y, n)
                }
            }
            N::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                let x = self.ext(a, lo, n);
                let y = self.ext(b, lo, n);
                self.ite(c, x, y)
            }
            N::Lin(k, ts) if lo > 0 && ts.len() == 1 && self.bit_of(ts[0].1).is_some() => {
                // two values only
                let (k, cf) = (*k, ts[0].0);
                let b = self.bit_of(ts[0].1).unwrap();
                let x = self.c(n, mask(n, mask(w, k.wrapping_add(cf)) >> lo));
                let y = self.c(n, mask(n, k >> lo));
                self.ite(b, x, y)
            }
            N::Lin(k, ts) if lo == 0 => {
                let k = *k;
                let ts = ts.to_vec();
                let mut t2 = vec![];
                for (c, x) in ts {
                    let y = self.ext(x, 0, n);
                    t2.push((mask(n, c), y));
                }
                self.lin(n, mask(n, k), t2)
            }
            N::Mul(a, b) if lo == 0 => {
                let (a, b) = (*a, *b);
                let x = self.ext(a, 0, n);
                let y = self.ext(b, 0, n);
                self.mul(x, y)
            }
            N::Look(t, i) => {
                let (t, i) = (*t, *i);
                let v: Vec<u64> = self.tables[t as usize].v.iter().map(|x| (x >> lo) & m64(n)).collect();
                let t2 = self.table(n, v);
                self.look(t2, i)
            }
            _ => {
                // high bits known zero
                let r = self.r[e as usize];
                if w <= 64 {
                    if lo > 0 && (r.uhi >> lo) == 0 {
                        return self.c(n, 0);
                    }
                    let need = 64 - r.uhi.leading_zeros();
                    if need > lo && lo + n > need {
                        let a = self.ext_raw(e, lo, need - lo);
                        return self.zext(a, n);
                    }
                }
                self.ext_raw(e, lo, n)
            }
        }
    }
    fn ext_raw(&mut self, e: E, lo: u32, n: u32) -> E {
        if lo == 0 && n == self.w[e as usize] {
            return e;
        }
        self.mk(n, N::Ext(e, lo))
    }
    pub fn concat(&mut self, ps: Vec<E>) -> E {
        // flatten
        let mut fl: Vec<E> = Vec::with_capacity(ps.len());
        for p in ps {
            if let N::Concat(l) = &self.n[p as usize] {
                let l = l.to_vec();
                for q in l {
                    self.cpush(&mut fl, q);
                }
            } else {
                self.cpush(&mut fl, p);
            }
        }
        if fl.len() == 1 {
            return fl[0];
        }
        let w: u32 = fl.iter().map(|p| self.w[*p as usize]).sum();
        self.mk(w, N::Concat(fl.into()))
    }
    fn cpush(&mut self, v: &mut Vec<E>, lo: E) {
        let mut lo = lo;
        while let Some(&hi) = v.last() {
            let (hw, lw) = (self.w[hi as usize], self.w[lo as usize]);
            let m = match (&self.n[hi as usize], &self.n[lo as usize]) {
                (N::C(a), N::C(b)) if hw + lw <= 128 => {
                    let r = (*a << lw) | *b;
                    Some(self.c(hw + lw, r))
                }
                (N::Ext(x, l1), N::Ext(y, l0)) if x == y && *l0 + lw == *l1 => {
                    let (x, l0) = (*x, *l0);
                    Some(self.ext_raw(x, l0, hw + lw))
                }
                (N::SExt(x), N::SExt(y)) if x == y && self.w[*x as usize] == 1 => {
                    let x = *x;
                    Some(self.sext(x, hw + lw))
                }
                (N::SExt(x), _) if *x == lo && lw == 1 => Some(self.sext(lo, hw + 1)),
                (_, N::SExt(y)) if *y == hi && hw == 1 => Some(self.sext(hi, lw + 1)),
                _ => None,
            };
            let m = m.or_else(|| {
                if lo == hi && hw == 1 {
                    return Some(self.sext(lo, 2));
                }
                // sign bits above a value
                if lw > 1 {
                    let s = match self.n[hi as usize] {
                        N::SExt(x) if self.w[x as usize] == 1 => Some(x),
                        _ if hw == 1 => Some(hi),
                        _ => None,
                    };
                    if let Some(s) = s {
                        if !matches!(self.n[lo as usize], N::C(_)) && !matches!(self.n[s as usize], N::C(_)) {
                            let top = self.ext(lo, lw - 1, 1);
                            if top == s {
                                return Some(self.sext_raw(lo, hw + lw));
                            }
                        }
                    }
                }
                // x = Concat(Ext(x, hi), low part of x that is not an Ext node)
                if let N::Ext(x, l1) = self.n[hi as usize] {
                    if l1 == lw && !matches!(self.n[lo as usize], N::C(_)) {
                        let y = self.ext(x, 0, lw);
                        if y == lo {
                            return Some(self.ext_raw(x, 0, hw + lw));
                        }
                    }
                }
                None
            });
            match m {
                Some(x) => {
                    v.pop();
                    lo = x;
                    if let N::Concat(l) = &self.n[lo as usize] {
                        let l = l.to_vec();
                        for q in l {
                            v.push(q);
                        }
                        return;
                    }
                }
                None => break,
            }
        }
        v.push(lo);
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w[e as usize];
        if ew == w {
            return e;
        }
        if let Some(x) = self.distribute(e, w, false) {
            return x;
        }
        if let N::Ite(c, a, b) = self.n[e as usize] {
            if ew > 1 && (self.cv(a).is_some() || self.cv(b).is_some()) {
                let x = self.zext(a, w);
                let y = self.zext(b, w);
                return self.ite(c, x, y);
            }
        }
        let z = self.c(w - ew, 0);
        self.concat(vec![z, e])
    }
    pub fn zext_or_trunc(&mut self, e: E, w: u32) -> E {
        let ew = self.w[e as usize];
        if w > ew {
            self.zext(e, w)
        } else {
            self.ext(e, 0, w)
        }
    }
    fn distribute(&mut self, e: E, w: u32, signed: bool) -> Option<E> {
        let ew = self.w[e as usize];
        if ew > 64 || w > 128 {
            return None;
        }
        if let N::Lin(c, ts) = &self.n[e as usize] {
            let half = 1i128 << (ew - 1);
            let (mut lo, mut hi) = (sx(ew, *c), sx(ew, *c));
            let c0 = lo;
            for (k, x) in ts.iter() {
                let r = self.r[*x as usize];
                let k = sx(ew, *k);
                let (a, b) = (k.checked_mul(r.slo as i128)?, k.checked_mul(r.shi as i128)?);
                lo += a.min(b);
                hi += a.max(b);
            }
            let ok = if signed { lo >= -half && hi < half } else { lo >= 0 && hi < 2 * half };
            if !ok {
                return None;
            }
            let ts = ts.to_vec();
            let mut t2 = vec![];
            for (k, x) in ts {
                let y = self.sext(x, w);
                t2.push((mask(w, sx(ew, k) as u128), y));
            }
            return Some(self.lin(w, mask(w, c0 as u128), t2));
        }
        None
    }
    fn sext_raw(&mut self, e: E, w: u32) -> E {
        if let N::SExt(x) = self.n[e as usize] {
            return self.mk(w, N::SExt(x));
        }
        self.mk(w, N::SExt(e))
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w[e as usize];
        if ew == w {
            return e;
        }
        if let Some(v) = self.scv(e) {
            return self.c(w, v as u128);
        }
        if ew <= 64 && self.r[e as usize].slo >= 0 {
            return self.zext(e, w);
        }
        if let Some(x) = self.distribute(e, w, true) {
            return x;
        }
        match &self.n[e as usize] {
            N::SExt(x) => {
                let x = *x;
                self.mk(w, N::SExt(x))
            }
            N::Concat(ps) => {
                let mut ps = ps.to_vec();
                let tw = self.w[ps[0] as usize];
                ps[0] = self.sext(ps[0], tw + w - ew);
                self.concat(ps)
            }
            N::Ite(c, a, b) if ew > 1 && (self.cv(*a).is_some() || self.cv(*b).is_some()) => {
                let (c, a, b) = (*c, *a, *b);
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                self.ite(c, x, y)
            }
            N::Look(t, i) if w <= 64 => {
                let (t, i) = (*t, *i);
                let v: Vec<u64> = self.tables[t as usize].v.iter().map(|x| sx(ew, *x as u128) as u64 & m64(w)).collect();
                let t2 = self.table(w, v);
                self.look(t2, i)
            }
            _ => self.sext_raw(e, w),
        }
    }

    pub fn lin(&mut self, w: u32, c: u128, ts: Vec<(u128, E)>) -> E {
        let mut c = mask(w, c);
        let mut v: Vec<(u128, E)> = Vec::with_capacity(ts.len());
        let mut stack = ts;
        stack.reverse();
        while let Some((k, e)) = stack.pop() {
            let k = mask(w, k);
            if k == 0 {
                continue;
            }
            match &self.n[e as usize] {
                N::C(x) => c = mask(w, c.wrapping_add(k.wrapping_mul(*x))),
                N::Lin(c2, l) => {
                    c = mask(w, c.wrapping_add(k.wrapping_mul(*c2)));
                    for (k2, e2) in l.iter() {
                        v.push((mask(w, k.wrapping_mul(*k2)), *e2));
                    }
                }
                N::Xor(m, l) if w > 1 && l.len() == 1 && *m == mask(w, u128::MAX) => {
                    // ~x = -x-1
                    let x = l[0];
                    let nk = mask(w, k.wrapping_neg());
                    c = mask(w, c.wrapping_add(nk));
                    stack.push((nk, x));
                }
                N::Concat(ps) => {
                    // trailing zeros become a coefficient
                    let last = *ps.last().unwrap();
                    if let N::C(x) = self.n[last as usize] {
                        let lw = self.w[last as usize];
                        if x == 0 {
                            let mut q = vec![self.c(lw, 0)];
                            if let N::Concat(ps) = &self.n[e as usize] {
                                q.extend(ps[..ps.len() - 1].iter());
                            }
                            let y = self.concat(q);
                            stack.push((mask(w, k.wrapping_mul(1u128 << lw)), y));
                            continue;
                        } else {
                            let mut q = vec![];
                            if let N::Concat(ps) = &self.n[e as usize] {
                                q.extend(ps[..ps.len() - 1].iter());
                            }
                            let z = self.c(lw, 0);
                            q.push(z);
                            c = mask(w, c.wrapping_add(k.wrapping_mul(x)));
                            let y = self.concat(q);
                            stack.push((k, y));
                            continue;
                        }
                    }
                    v.push((k, e));
                }
                _ => v.push((k, e)),
            }
        }
        v.sort_by_key(|x| x.1);
        let mut u: Vec<(u128, E)> = Vec::with_capacity(v.len());
        for (k, e) in v {
            if let Some(l) = u.last_mut() {
                if l.1 == e {
                    l.0 = mask(w, l.0.wrapping_add(k));
                    continue;
                }
            }
            u.push((k, e));
        }
        u.retain(|x| x.0 != 0);
        if u.is_empty() {
            return self.c(w, c);
        }
        if w == 1 {
            return self.xor_n(1, c, u.into_iter().map(|x| x.1).collect());
        }
        if u.len() == 1 && c == 0 {
            let (k, e) = u[0];
            if k == 1 {
                return e;
            }
            if k.is_power_of_two() {
                let s = k.trailing_zeros();
                let hi = self.ext(e, 0, w - s);
                let z = self.c(s, 0);
                // only if it does not go back to a Lin
                if !matches!(self.n[hi as usize], N::Lin(..)) {
                    return self.concat(vec![hi, z]);
                }
            }
        }
        if u.len() == 1 {
            // single two-constant ite
            let (k, e) = u[0];
            if let N::Ite(cc, a, b) = self.n[e as usize] {
                if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                    let x = self.c(w, c.wrapping_add(k.wrapping_mul(x)));
                    let y = self.c(w, c.wrapping_add(k.wrapping_mul(y)));
                    return self.ite(cc, x, y);
                }
            }
            if let N::Look(t, i) = self.n[e as usize] {
                if w <= 64 {
                    let vv: Vec<u64> = self.tables[t as usize].v.iter().map(|x| mask(w, c.wrapping_add(k.wrapping_mul(*x as u128))) as u64).collect();
                    let t2 = self.table(w, vv);
                    return self.look(t2, i);
                }
            }
            if k == mask(w, u128::MAX) && c == k {
                // -x-1 = ~x
                return self.mk(w, N::Xor(k, vec![e].into()));
            }
        }
        // constant below the bits of aligned terms with no overlap stays in Lin form
        self.mk(w, N::Lin(c, u.into()))
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_add(y));
        }
        self.lin(w, 0, vec![(1, a), (1, b)])
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(w, x.wrapping_sub(y));
        }
        self.lin(w, 0, vec![(1, a), (mask(w, u128::MAX), b)])
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w[a as usize];
        self.lin(w, 0, vec![(mask(w, u128::MAX), a)])
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(w, x.wrapping_mul(y)),
            (Some(x), None) => return self.lin(w, 0, vec![(x, b)]),
            (None, Some(y)) => return self.lin(w, 0, vec![(y, a)]),
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        for (p, q) in [(a, b), (b, a)] {
            if let N::Ite(c, x, y) = self.n[p as usize] {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let s = self.mul(x, q);
                    let t = self.mul(y, q);
                    return self.ite(c, s, t);
                }
            }
            if w <= 64 && self.r[p as usize].uhi == 1 {
                let c = self.ext(p, 0, 1);
                let z = self.c(w, 0);
                return self.ite(c, q, z);
            }
            // a factor with only two values, from one bit
            let two = match self.n[p as usize] {
                N::SExt(x) if self.w[x as usize] == 1 => Some((x, u128::MAX, 0)),
                N::Lin(k, ref ts) if ts.len() == 1 && w <= 64 && self.r[ts[0].1 as usize].uhi == 1 => Some((ts[0].1, k.wrapping_add(ts[0].0), k)),
                _ => None,
            };
            if let Some((x, hi, lo)) = two {
                let c = self.ext(x, 0, 1);
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                let s = self.lin(w, 0, vec![(hi & m, q)]);
                let t = self.lin(w, 0, vec![(lo & m, q)]);
                return self.ite(c, s, t);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(w, N::Mul(a, b))
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(w, x / y),
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => {
                let s = y.trailing_zeros();
                let h = self.ext(a, s, w - s);
                return self.zext(h, w);
            }
            _ => {}
        }
        self.mk(w, N::UDiv(a, b))
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(w, x % y),
            (_, Some(1)) => return self.c(w, 0),
            (_, Some(y)) if y.is_power_of_two() => {
                let s = y.trailing_zeros();
                let h = self.ext(a, 0, s);
                return self.zext(h, w);
            }
            _ => {}
        }
        if w <= 64 && self.r[a as usize].uhi < self.r[b as usize].ulo {
            return a;
        }
        self.mk(w, N::URem(a, b))
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if w <= 64 && self.r[a as usize].slo >= 0 && self.r[b as usize].slo >= 0 {
            return self.udiv(a, b);
        }
        match (self.scv(a), self.scv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(w, x.wrapping_div(y) as u128),
            (_, Some(1)) => return a,
            _ => {}
        }
        self.mk(w, N::SDiv(a, b))
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if w <= 64 && self.r[a as usize].slo >= 0 && self.r[b as usize].slo >= 0 {
            return self.urem(a, b);
        }
        match (self.scv(a), self.scv(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(w, x.wrapping_rem(y) as u128),
            _ => {}
        }
        self.mk(w, N::SRem(a, b))
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if let Some(s) = self.cv(b) {
            if s >= w as u128 {
                return self.c(w, 0);
            }
            let s = s as u32;
            if s == 0 {
                return a;
            }
            let hi = self.ext(a, 0, w - s);
            let z = self.c(s, 0);
            return self.concat(vec![hi, z]);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if let Some(x) = self.shift_mux(a, b, 0) {
            return x;
        }
        self.mk(w, N::Shl(a, b))
    }
    // a shift whose amount is a two-constant ite
    fn shift_mux(&mut self, a: E, b: E, k: u32) -> Option<E> {
        if let N::Ite(c, x, y) = self.n[b as usize] {
            if self.cv(x).is_some() && self.cv(y).is_some() {
                let (p, q) = match k {
                    0 => (self.shl(a, x), self.shl(a, y)),
                    1 => (self.lshr(a, x), self.lshr(a, y)),
                    _ => (self.ashr(a, x), self.ashr(a, y)),
                };
                return Some(self.ite(c, p, q));
            }
        }
        None
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if let Some(s) = self.cv(b) {
            if s >= w as u128 {
                return self.c(w, 0);
            }
            let s = s as u32;
            if s == 0 {
                return a;
            }
            let h = self.ext(a, s, w - s);
            let z = self.c(s, 0);
            return self.concat(vec![z, h]);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if let Some(x) = self.shift_mux(a, b, 1) {
            return x;
        }
        self.mk(w, N::Lshr(a, b))
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w[a as usize];
        if w <= 64 && self.r[a as usize].slo >= 0 {
            return self.lshr(a, b);
        }
        if let Some(s) = self.cv(b) {
            let s = s.min(w as u128 - 1) as u32;
            if s == 0 {
                return a;
            }
            let h = self.ext(a, s, w - s);
            return self.sext(h, w);
        }
        if let Some(x) = self.shift_mux(a, b, 2) {
            return x;
        }
        self.mk(w, N::Ashr(a, b))
    }

    /// does c (negated when flip) say that i equals a constant?
    fn is_point(&mut self, c: E, i: E, flip: bool) -> Option<u64> {
        let c = if flip { self.not(c) } else { c };
        let cands: Vec<u64> = match self.n[c as usize] {
            N::Eq(_, b) => match self.cv(b) {
                Some(k) if k < 1 << 16 => vec![k as u64],
                _ => vec![0],
            },
            N::And(_) => vec![0],
            N::Xor(..) | N::Ext(..) if self.w[i as usize] <= 2 => vec![0, 1],
            _ => return None,
        };
        for k in cands {
            let kc = self.c(self.w[i as usize], k as u128);
            if self.eq(i, kc) == c {
                return Some(k);
            }
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if c == TRUE {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let w = self.w[a as usize];
        // a table patched at one point
        for (yes, no, flip) in [(a, b, false), (b, a, true)] {
            if let (N::Look(t, i), Some(k)) = (&self.n[no as usize], self.cv(yes)) {
                let (t, i) = (*t, *i);
                if let Some(p) = self.is_point(c, i, flip) {
                    let mut v = self.tables[t as usize].v.to_vec();
                    if (p as usize) < v.len() {
                        v[p as usize] = k as u64;
                        let t = self.table(w, v);
                        return self.look(t, i);
                    }
                }
            }
        }
        // negated condition
        if let N::Xor(1, l) = &self.n[c as usize] {
            if l.len() == 1 {
                let x = l[0];
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            if a == TRUE {
                return self.or(c, b);
            }
            if a == FALSE {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b == FALSE {
                return self.and(c, a);
            }
            if b == TRUE {
                let nc = self.not(c);
                return self.or(nc, a);
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
            let nb = self.not(b);
            if a == nb {
                // c ? !b : b
                return self.xor(c, b);
            }
        }
        // inner ites on the same condition
        if let N::Ite(c2, x, y) = self.n[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if y == b {
                let cc = self.and(c, c2);
                return self.ite(cc, x, b);
            }
            if x == b {
                let n2 = self.not(c2);
                let cc = self.and(c, n2);
                return self.ite(cc, y, b);
            }
        }
        if let N::Ite(c2, x, y) = self.n[b as usize] {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
            if y == a {
                let n2 = self.not(c2);
                let cc = self.or(c, n2);
                return self.ite(cc, a, x);
            }
        }
        // c implies structure: Eq(x,k) ? x.. : (only the trivial case)
        if let N::Eq(x, k) = self.n[c as usize] {
            if b == x && a == k || a == x && b == k && false {
                return b;
            }
        }
        // xor difference: c ? (B^k) : B
        if let (N::Xor(k1, l1), _) = (&self.n[a as usize], 0) {
            let hit = l1.binary_search(&b).is_ok() || if let N::Xor(_, l2) = &self.n[b as usize] { l2.iter().any(|x| l1.binary_search(x).is_ok()) } else { false };
            let _ = k1;
            if hit {
                let d = self.xor(a, b);
                let z = self.c(w, 0);
                let m = self.ite(c, d, z);
                return self.xor(m, b);
            }
        }
        if let N::Xor(_, l2) = &self.n[b as usize] {
            if l2.binary_search(&a).is_ok() {
                let d = self.xor(a, b);
                let z = self.c(w, 0);
                let m = self.ite(c, z, d);
                return self.xor(m, a);
            }
        }
        // common pieces of concatenations
        if w > 1 {
            let ca = matches!(self.n[a as usize], N::Concat(_));
            let cb = matches!(self.n[b as usize], N::Concat(_));
            if ca && cb || (ca && self.cv(b).is_some()) || (cb && self.cv(a).is_some()) {
                let bs = self.bounds(&[a, b]).unwrap();
                if bs.len() > 1 {
                    return self.split(&bs, &[a, b], |cx, s, _, _| cx.ite(c, s[0], s[1]));
                }
            }
            if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                if x == mask(w, u128::MAX) && y == 0 {
                    return self.sext(c, w);
                }
                if y == mask(w, u128::MAX) && x == 0 {
                    let nc = self.not(c);
                    return self.sext(nc, w);
                }
                if x == 1 && y == 0 {
                    return self.zext(c, w);
                }
                if y == 1 && x == 0 {
                    let nc = self.not(c);
                    return self.zext(nc, w);
                }
            }
        }
        self.mk(w, N::Ite(c, a, b))
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return TRUE;
        }
        let w = self.w[a as usize];
        debug_assert_eq!(w, self.w[b as usize]);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return if x == y { TRUE } else { FALSE };
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        // constant on the right; otherwise ordered
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if w <= 64 {
            let (x, y) = (self.r[a as usize], self.r[b as usize]);
            if x.uhi < y.ulo || y.uhi < x.ulo || x.shi < y.slo || y.shi < x.slo {
                return FALSE;
            }
        }
        if let Some(bs) = self.bounds(&[a, b]) {
            if bs.len() > 1 {
                // piecewise comparison, unless it would tear arithmetic apart
                let arith = [a, b].iter().any(|&e| matches!(self.n[e as usize], N::Lin(..) | N::Mul(..)));
                if !arith {
                    let mut lo = 0;
                    let mut v = vec![];
                    for p in bs {
                        let x = self.ext(a, lo, p - lo);
                        let y = self.ext(b, lo, p - lo);
                        let q = self.eq(x, y);
                        if q == FALSE {
                            return FALSE;
                        }
                        v.push(q);
                        lo = p;
                    }
                    return self.and_n(v);
                }
            }
        }
        if let Some(k) = self.cv(b) {
            match &self.n[a as usize] {
                N::Ite(c, x, y) => {
                    let (c, x, y) = (*c, *x, *y);
                    if (self.cv(x).is_some() || self.cv(y).is_some()) && self.depth < 200 {
                        self.depth += 1;
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        self.depth -= 1;
                        return self.ite(c, p, q);
                    }
                }
                N::SExt(x) => {
                    let x = *x;
                    let xw = self.w[x as usize];
                    let lowk = self.c(xw, k);
                    let s = self.sext(lowk, w);
                    if s != b {
                        return FALSE;
                    }
                    return self.eq(x, lowk);
                }
                N::Xor(c, l) => {
                    let (c, l) = (*c, l.clone());
                    if c != 0 || l.len() > 1 {
                        if c != 0 {
                            let x = self.xor_n(w, 0, l.to_vec());
                            let kk = self.c(w, k ^ c);
                            return self.eq(x, kk);
                        }
                        if k == 0 && l.len() == 2 {
                            return self.eq(l[0], l[1]);
                        }
                    }
                }
                N::Lin(c, ts) => {
                    let (c, ts) = (*c, ts.clone());
                    if c != 0 {
                        let x = self.lin(w, 0, ts.to_vec());
                        let kk = self.c(w, k.wrapping_sub(c));
                        return self.eq(x, kk);
                    }
                    if ts.len() == 1 && ts[0].0 & 1 == 1 {
                        // odd coefficient: multiply by the inverse
                        let mut inv: u128 = 1;
                        for _ in 0..7 {
                            inv = inv.wrapping_mul(2u128.wrapping_sub(ts[0].0.wrapping_mul(inv)));
                        }
                        let kk = self.c(w, k.wrapping_mul(inv));
                        return self.eq(ts[0].1, kk);
                    }
                    if k == 0 && ts.len() == 2 && ts[0].0 == 1 && ts[1].0 == mask(w, u128::MAX) {
                        return self.eq_raw(ts[0].1, ts[1].1);
                    }
                    if k == 0 && ts.len() == 2 && ts[1].0 == 1 && ts[0].0 == mask(w, u128::MAX) {
                        return self.eq_raw(ts[0].1, ts[1].1);
                    }
                }
                N::Look(t, i) => {
                    let (t, i) = (*t, *i);
                    let r = self.r[i as usize];
                    let v = self.tables[t as usize].v.clone();
                    let hits: Vec<u64> = (r.ulo..=r.uhi.min(v.len() as u64 - 1)).filter(|j| v[*j as usize] as u128 == k).collect();
                    if hits.is_empty() {
                        return FALSE;
                    }
                    if hits.len() == 1 {
                        let h = self.c(self.w[i as usize], hits[0] as u128);
                        return self.eq(i, h);
                    }
                }
                _ => {}
            }
        } else {
            let lin = matches!(self.n[a as usize], N::Lin(..)) || matches!(self.n[b as usize], N::Lin(..));
            if lin {
                let d = self.sub(a, b);
                if let Some(x) = self.cv(d) {
                    return if x == 0 { TRUE } else { FALSE };
                }
                let z = self.c(w, 0);
                if matches!(self.n[d as usize], N::Lin(..)) {
                    return self.eq(d, z);
                }
                return self.eq(d, z);
            }
            let bx = matches!(self.n[a as usize], N::Xor(..)) || matches!(self.n[b as usize], N::Xor(..));
            if bx {
                let d = self.xor(a, b);
                if let Some(x) = self.cv(d) {
                    return if x == 0 { TRUE } else { FALSE };
                }
                let z = self.c(w, 0);
                return self.eq(d, z);
            }
            if let (N::Ite(c1, x1, y1), N::Ite(c2, x2, y2)) = (self.n[a as usize].clone(), self.n[b as usize].clone()) {
                if c1 == c2 {
                    let p = self.eq(x1, x2);
                    let q = self.eq(y1, y2);
                    return self.ite(c1, p, q);
                }
            }
        }
        self.eq_raw(a, b)
    }
    fn eq_raw(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        let e = self.mk(1, N::Eq(a, b));
        self.tab_bool(e)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let x = self.eq(a, b);
        self.not(x)
    }
    fn cmp_ite(&mut self, a: E, b: E, f: fn(&mut Ctx, E, E) -> E) -> Option<E> {
        if self.depth > 200 {
            return None;
        }
        if self.cv(b).is_some() {
            if let N::Ite(c, x, y) = self.n[a as usize] {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    self.depth += 1;
                    let p = f(self, x, b);
                    let q = f(self, y, b);
                    self.depth -= 1;
                    return Some(self.ite(c, p, q));
                }
            }
            if let N::Look(t, i) = self.n[a as usize] {
                let kb = b;
                let v = self.tables[t as usize].v.clone();
                let w = self.w[a as usize];
                let mut bits = vec![];
                for x in v.iter() {
                    let cx = self.c(w, *x as u128);
                    let r = f(self, cx, kb);
                    bits.push((r == TRUE) as u64);
                }
                let t2 = self.table(1, bits);
                return Some(self.look(t2, i));
            }
        }
        if self.cv(a).is_some() {
            if let N::Ite(c, x, y) = self.n[b as usize] {
                if self.cv(x).is_some() || self.cv(y).is_some() {
                    self.depth += 1;
                    let p = f(self, a, x);
                    let q = f(self, a, y);
                    self.depth -= 1;
                    return Some(self.ite(c, p, q));
                }
            }
        }
        None
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return FALSE;
        }
        let w = self.w[a as usize];
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return if x < y { TRUE } else { FALSE };
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.cv(b) == Some(1) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if self.cv(a) == Some(0) {
            return self.ne(b, a);
        }
        if w <= 64 {
            let (x, y) = (self.r[a as usize], self.r[b as usize]);
            if x.uhi < y.ulo {
                return TRUE;
            }
            if x.ulo >= y.uhi {
                return FALSE;
            }
        }
        // strip a common leading part
        if let Some(bs) = self.bounds(&[a, b]) {
            if bs.len() > 1 {
                let lo = bs[bs.len() - 2];
                let x = self.ext(a, lo, w - lo);
                let y = self.ext(b, lo, w - lo);
                if x == y {
                    let x = self.ext(a, 0, lo);
                    let y = self.ext(b, 0, lo);
                    return self.ult(x, y);
                }
            }
        }
        if let Some(x) = self.cmp_ite(a, b, Ctx::ult) {
            return x;
        }
        let e = self.mk(1, N::Ult(a, b));
        self.tab_bool(e)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return FALSE;
        }
        let w = self.w[a as usize];
        if let (Some(x), Some(y)) = (self.scv(a), self.scv(b)) {
            return if x < y { TRUE } else { FALSE };
        }
        if w <= 64 {
            let (x, y) = (self.r[a as usize], self.r[b as usize]);
            if x.shi < y.slo {
                return TRUE;
            }
            if x.slo >= y.shi {
                return FALSE;
            }
            if x.slo >= 0 && y.slo >= 0 {
                return self.ult(a, b);
            }
        }
        if self.cv(b) == Some(0) {
            // sign bit
            if !matches!(self.n[a as usize], N::Lin(..) | N::Mul(..)) {
                return self.ext(a, w - 1, 1);
            }
        }
        // both sign-extended from a smaller width
        match (&self.n[a as usize], &self.n[b as usize]) {
            (N::SExt(x), N::SExt(y)) if self.w[*x as usize] == self.w[*y as usize] => {
                let (x, y) = (*x, *y);
                return self.slt(x, y);
            }
            (N::SExt(x), N::C(_)) => {
                let x = *x;
                let xw = self.w[x as usize];
                if let Some(k) = self.scv(b) {
                    let half = 1i128 << (xw - 1);
                    if k >= -half && k < half {
                        let kk = self.ci(xw, k);
                        return self.slt(x, kk);
                    }
                }
            }
            (N::C(_), N::SExt(y)) => {
                let y = *y;
                let yw = self.w[y as usize];
                if let Some(k) = self.scv(a) {
                    let half = 1i128 << (yw - 1);
                    if k >= -half && k < half {
                        let kk = self.ci(yw, k);
                        return self.slt(kk, y);
                    }
                }
            }
            _ => {}
        }
        if let Some(x) = self.cmp_ite(a, b, Ctx::slt) {
            return x;
        }
        let e = self.mk(1, N::Slt(a, b));
        self.tab_bool(e)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn fp(&mut self, w: u32, op: Fop, args: Vec<E>) -> E {
        if args.iter().all(|a| self.cv(*a).is_some()) {
            let vs: Vec<u64> = args.iter().map(|a| self.cv(*a).unwrap() as u64).collect();
            let ws: Vec<u32> = args.iter().map(|a| self.w[*a as usize]).collect();
            if let Some(v) = fp_eval(op, w, &vs, &ws) {
                return self.c(w, v as u128);
            }
        }
        self.mk(w, N::Fp(op, args.into()))
    }
    pub fn children(&self, e: E) -> Vec<E> {
        match &self.n[e as usize] {
            N::C(_) | N::Var(_) => vec![],
            N::Lin(_, t) => t.iter().map(|x| x.1).collect(),
            N::And(v) | N::Or(v) | N::Xor(_, v) | N::Concat(v) | N::Uf(_, v) | N::Fp(_, v) => v.to_vec(),
            N::Ext(a, _) | N::SExt(a) | N::Look(_, a) => vec![*a],
            N::Mul(a, b) | N::Shl(a, b) | N::Lshr(a, b) | N::Ashr(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => vec![*a, *b],
            N::Ite(a, b, c) => vec![*a, *b, *c],
        }
    }
    /// reachable nodes in topological (id) order
    pub fn cone(&self, roots: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<E> = roots.to_vec();
        let mut out = vec![];
        while let Some(e) = st.pop() {
            if seen.insert(e) {
                out.push(e);
                st.extend(self.children(e));
            }
        }
        out.sort();
        out
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let w = self.w[e as usize];
        if d == 0 {
            return format!("#{}", e);
        }
        let s = |x: &E| self.show(*x, d - 1);
        match &self.n[e as usize] {
            N::C(v) => format!("{}:{}", v, w),
            N::Var(k) => format!("{}[{}]", self.vars[*k as usize].name, self.vars[*k as usize].idx),
            N::Lin(c, t) => {
                let mut r = format!("(+{} {}", w, sx(w, *c));
                for (k, x) in t.iter() {
                    r += &format!(" {}*{}", sx(w, *k), s(x));
                }
                r + ")"
            }
            N::And(v) => format!("(and {})", v.iter().map(s).collect::<Vec<_>>().join(" ")),
            N::Or(v) => format!("(or {})", v.iter().map(s).collect::<Vec<_>>().join(" ")),
            N::Xor(k, v) => format!("(xor {} {})", k, v.iter().map(s).collect::<Vec<_>>().join(" ")),
            N::Concat(v) => format!("(cat {})", v.iter().map(s).collect::<Vec<_>>().join(" ")),
            N::Ext(a, l) => format!("{}[{}+{}]", s(a), l, w),
            N::SExt(a) => format!("(sext{} {})", w, s(a)),
            N::Ite(a, b, c) => format!("(ite {} {} {})", s(a), s(b), s(c)),
            N::Look(t, i) => format!("(T{} {})", t, s(i)),
            N::Uf(f, v) => format!("({} {})", self.ufs[*f as usize].0, v.iter().map(s).collect::<Vec<_>>().join(" ")),
            N::Fp(f, v) => format!("({:?} {})", f, v.iter().map(s).collect::<Vec<_>>().join(" ")),
            n => {
                let nm = format!("{:?}", n);
                let nm = nm.split('(').next().unwrap().to_string();
                format!("({} {})", nm, self.children(e).iter().map(s).collect::<Vec<_>>().join(" "))
            }
        }
    }
}

pub fn fp_eval(op: Fop, w: u32, v: &[u64], ws: &[u32]) -> Option<u64> {
    let f32v = |i: usize| f32::from_bits(v[i] as u32);
    let f64v = |i: usize| f64::from_bits(v[i]);
    let is32 = ws[0] == 32;
    Some(match op {
        Fop::Add | Fop::Sub | Fop::Mul | Fop::Div => {
            if is32 {
                let (a, b) = (f32v(0), f32v(1));
                (match op {
                    Fop::Add => a + b,
                    Fop::Sub => a - b,
                    Fop::Mul => a * b,
                    _ => a / b,
                })
                .to_bits() as u64
            } else {
                let (a, b) = (f64v(0), f64v(1));
                (match op {
                    Fop::Add => a + b,
                    Fop::Sub => a - b,
                    Fop::Mul => a * b,
                    _ => a / b,
                })
                .to_bits()
            }
        }
        Fop::Sqrt => {
            if is32 {
                f32v(0).sqrt().to_bits() as u64
            } else {
                f64v(0).sqrt().to_bits()
            }
        }
        Fop::Cmp(p) => {
            let (a, b) = if is32 { (f32v(0) as f64, f32v(1) as f64) } else { (f64v(0), f64v(1)) };
            let un = a.is_nan() || b.is_nan();
            // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
            let r = if un {
                p & 8 != 0
            } else if a == b {
                p & 1 != 0
            } else if a > b {
                p & 2 != 0
            } else {
                p & 4 != 0
            };
            r as u64
        }
        Fop::ToF(_) => {
            if is32 && w == 64 {
                (f32v(0) as f64).to_bits()
            } else if !is32 && w == 32 {
                (f64v(0) as f32).to_bits() as u64
            } else {
                v[0]
            }
        }
        Fop::FromS => {
            let x = sx(ws[0], v[0] as u128) as i64;
            if w == 32 {
                (x as f32).to_bits() as u64
            } else {
                (x as f64).to_bits()
            }
        }
        Fop::FromU => {
            if w == 32 {
                (v[0] as f32).to_bits() as u64
            } else {
                (v[0] as f64).to_bits()
            }
        }
        Fop::ToS => {
            let x = if is32 { f32v(0) as f64 } else { f64v(0) };
            (x as i64) as u64 & m64(w)
        }
        Fop::ToU => {
            let x = if is32 { f32v(0) as f64 } else { f64v(0) };
            (x as u64) & m64(w)
        }
        Fop::Round => {
            if is32 {
                let x = f32v(0) as f64;
                (rne(x) as f32).to_bits() as u64
            } else {
                rne(f64v(0)).to_bits()
            }
        }
        Fop::Misc(_) => return None,
    })
}
fn rne(x: f64) -> f64 {
    let r = x.round();
    if (x - x.trunc()).abs() == 0.5 {
        2.0 * (x / 2.0).round()
    } else {
        r
    }
}
