//! And-inverter graphs: bit-blasting of terms, bit-parallel simulation, exhaustive evaluation, CNF for a SAT solver.
use crate::expr::*;
use crate::ir::mask;
use std::collections::HashMap;
use std::io::Write;

pub type L = u32; // literal: 2*node + negated
pub const F: L = 0;
pub const T: L = 1;

pub struct Aig {
    pub n: Vec<(L, L)>, // inputs: (u32::MAX, input number)
    strash: HashMap<(L, L), u32>,
    pub inputs: Vec<(u32, u32)>, // (term var node E, bit)
    pub memo: HashMap<E, Vec<L>>,
    ufs: HashMap<(u32, u32), Vec<(Vec<L>, Vec<L>)>>, // per function (and width): argument bits, result bits
    pub side: Vec<L>,                         // functional consistency constraints
    pub limit: usize,
    pub looks: Vec<(u32, Vec<L>, Vec<L>)>,
    pub abstracted: bool,
    pub abs_look: usize,
    pub abs_lin: bool,
    pub lin_cap: Option<i128>,
    lins: HashMap<(u32, Vec<(u128, E)>), Vec<L>>,
}

pub struct Over;

impl Aig {
    pub fn new(limit: usize) -> Aig {
        Aig { n: vec![(0, 0)], strash: HashMap::new(), inputs: vec![], memo: HashMap::new(), ufs: HashMap::new(), looks: vec![], side: vec![], limit, abstracted: false, abs_look: usize::MAX, abs_lin: false, lin_cap: None, lins: HashMap::new() }
    }
    pub fn input(&mut self, e: E, bit: u32) -> L {
        let k = self.n.len() as u32;
        self.n.push((u32::MAX, self.inputs.len() as u32));
        self.inputs.push((e, bit));
        2 * k
    }
    #[inline]
    pub fn and(&mut self, a: L, b: L) -> L {
        if a == F || b == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&k) = self.strash.get(&(a, b)) {
            return 2 * k;
        }
        // one-level rewriting
        let k = self.n.len() as u32;
        if self.n.len() > self.limit {
            std::panic::panic_any(Over);
        }
        self.n.push((a, b));
        self.strash.insert((a, b), k);
        2 * k
    }
    pub fn or(&mut self, a: L, b: L) -> L {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn xor(&mut self, a: L, b: L) -> L {
        if a == F {
            return b;
        }
        if a == T {
            return b ^ 1;
        }
        if b == F {
            return a;
        }
        if b == T {
            return a ^ 1;
        }
        if a == b {
            return F;
        }
        if a == b ^ 1 {
            return T;
        }
        let neg = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let p = self.and(a, b ^ 1);
        let q = self.and(a ^ 1, b);
        self.or(p, q) ^ neg
    }
    pub fn ite(&mut self, c: L, a: L, b: L) -> L {
        if c == T {
            return a;
        }
        if c == F {
            return b;
        }
        if a == b {
            return a;
        }
        if a == b ^ 1 {
            return self.xor(c, b);
        }
        let p = self.and(c, a);
        let q = self.and(c ^ 1, b);
        self.or(p, q)
    }
    fn add(&mut self, a: &[L], b: &[L], cin: L) -> Vec<L> {
        let mut c = cin;
        let mut out = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            out.push(self.xor(x, c));
            if i + 1 < a.len() {
                let p = self.and(a[i], b[i]);
                let q = self.and(x, c);
                c = self.or(p, q);
            }
        }
        out
    }
    fn ult(&mut self, a: &[L], b: &[L]) -> L {
        let mut r = F;
        for i in 0..a.len() {
            let d = self.xor(a[i], b[i]);
            r = self.ite(d, b[i], r);
        }
        r
    }
    fn eqv(&mut self, a: &[L], b: &[L]) -> L {
        let mut v: Vec<L> = (0..a.len()).map(|i| self.xor(a[i], b[i]) ^ 1).collect();
        self.andv(&mut v)
    }
    pub fn andv(&mut self, v: &mut Vec<L>) -> L {
        if v.is_empty() {
            return T;
        }
        while v.len() > 1 {
            let mut w = vec![];
            for c in v.chunks(2) {
                w.push(if c.len() == 2 { self.and(c[0], c[1]) } else { c[0] });
            }
            *v = w;
        }
        v[0]
    }
    fn muxtab(&mut self, tab: &[u8], idx: &[L], memo: &mut HashMap<Vec<u8>, L>) -> L {
        if tab.iter().all(|x| *x == tab[0]) {
            return if tab[0] == 0 { F } else { T };
        }
        if let Some(&l) = memo.get(tab) {
            return l;
        }
        let h = tab.len() / 2;
        let b = idx[idx.len() - 1];
        let lo = self.muxtab(&tab[..h], &idx[..idx.len() - 1], memo);
        let hi = self.muxtab(&tab[h..], &idx[..idx.len() - 1], memo);
        let r = self.ite(b, hi, lo);
        memo.insert(tab.to_vec(), r);
        r
    }
    fn divrem(&mut self, a: &[L], b: &[L]) -> (Vec<L>, Vec<L>) {
        let w = a.len();
        let mut r = vec![F; w + 1];
        let mut q = vec![F; w];
        let mut bb = b.to_vec();
        bb.push(F);
        for i in (0..w).rev() {
            r.rotate_right(1);
            r[0] = a[i];
            let lt = self.ult(&r, &bb);
            q[i] = lt ^ 1;
            let nb: Vec<L> = bb.iter().map(|x| x ^ 1).collect();
            let d = self.add(&r, &nb, T);
            for k in 0..=w {
                r[k] = self.ite(lt, r[k], d[k]);
            }
        }
        r.truncate(w);
        (q, r)
    }
    fn neg(&mut self, a: &[L]) -> Vec<L> {
        let na: Vec<L> = a.iter().map(|x| x ^ 1).collect();
        let z = vec![F; a.len()];
        self.add(&na, &z, T)
    }
    fn shift(&mut self, a: &[L], s: &[L], kind: u8) -> Vec<L> {
        // 0 shl 1 lshr 2 ashr
        let w = a.len();
        let fill = if kind == 2 { a[w - 1] } else { F };
        let mut v = a.to_vec();
        let mut over = F;
        for (k, &b) in s.iter().enumerate() {
            if k >= 32 || (1usize << k) >= w {
                over = self.or(over, b);
                continue;
            }
            let d = 1usize << k;
            let mut u = v.clone();
            for i in 0..w {
                let x = if kind == 0 {
                    if i >= d {
                        v[i - d]
                    } else {
                        F
                    }
                } else if i + d < w {
                    v[i + d]
                } else {
                    fill
                };
                u[i] = self.ite(b, x, v[i]);
            }
            v = u;
        }
        for i in 0..w {
            v[i] = self.ite(over, fill, v[i]);
        }
        v
    }
    fn fcmp(&mut self, code: u8, a: &[L], b: &[L]) -> L {
        let w = a.len();
        let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
        let mut nanv = vec![];
        for x in [a, b] {
            let mut e: Vec<L> = x[mb..mb + eb].to_vec();
            let allones = self.andv(&mut e);
            let mut m = F;
            for i in 0..mb {
                m = self.or(m, x[i]);
            }
            nanv.push(self.and(allones, m));
        }
        let un = self.or(nanv[0], nanv[1]);
        let mut z = F;
        for i in 0..w - 1 {
            let t = self.or(a[i], b[i]);
            z = self.or(z, t);
        }
        let bothzero = z ^ 1;
        let e = self.eqv(a, b);
        let eq = self.or(e, bothzero);
        let mlt = self.ult(&a[..w - 1], &b[..w - 1]);
        let mgt = self.ult(&b[..w - 1], &a[..w - 1]);
        let (sa, sb) = (a[w - 1], b[w - 1]);
        // a<b : sa&!sb (not both zero) | !sa&!sb&mlt | sa&sb&mgt
        let t1 = self.and(sa, sb ^ 1);
        let t2 = self.and(sa ^ 1, sb ^ 1);
        let t2 = self.and(t2, mlt);
        let t3 = self.and(sa, sb);
        let t3 = self.and(t3, mgt);
        let lt = self.or(t1, t2);
        let lt = self.or(lt, t3);
        let lt = self.and(lt, eq ^ 1);
        let gt = self.or(lt, eq) ^ 1;
        let mut r = F;
        if code & 1 != 0 {
            r = self.or(r, eq);
        }
        if code & 2 != 0 {
            r = self.or(r, gt);
        }
        if code & 4 != 0 {
            r = self.or(r, lt);
        }
        let r = self.and(r, un ^ 1);
        if code & 8 != 0 {
            self.or(r, un)
        } else {
            r
        }
    }
    pub fn blast(&mut self, x: &Ctx, root: E) -> Vec<L> {
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.memo.contains_key(&e) {
                st.pop();
                continue;
            }
            let ch = x.children(e);
            let mut ready = true;
            for c in ch {
                if !self.memo.contains_key(&c) {
                    st.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let v = self.node(x, e);
            debug_assert_eq!(v.len() as u32, x.w[e as usize]);
            self.memo.insert(e, v);
        }
        self.memo[&root].clone()
    }
    /// If the sums are only chosen, negated and compared with each other and with zero,
    /// then only their order matters: keeping the signs and ranking the magnitudes gives
    /// values no larger than the number of sums.  Returns that number.
    pub fn order_only(&self, x: &Ctx, roots: &[E]) -> Option<i128> {
        #[derive(Clone, Copy, PartialEq)]
        enum C {
            None,  // no sum inside, other than under comparisons
            Order, // a sum, a choice of sums, a negation
            Zero,
            Diff, // the difference of two sums
        }
        let mut kind: HashMap<E, C> = HashMap::new();
        let mut sums = std::collections::HashSet::new();
        let mut cone = x.cone(roots);
        cone.sort();
        for e in cone {
            let w = x.w[e as usize];
            let k = match &x.n[e as usize] {
                N::C(0) => C::Zero,
                N::Lin(c, ts) if ts.len() >= 2 && ts.iter().all(|t| self.plain(x, t.1)) => {
                    // the interval must not wrap
                    let (mut lo, mut hi) = (0i128, 0i128);
                    for (k, t) in ts.iter() {
                        let r = x.r[*t as usize];
                        let k = sx(w, *k);
                        let (a, b) = (k.saturating_mul(r.slo as i128), k.saturating_mul(r.shi as i128));
                        lo = lo.saturating_add(a.min(b));
                        hi = hi.saturating_add(a.max(b));
                    }
                    let half = 1i128 << (w.min(120) - 1);
                    if *c != 0 || w > 64 || lo <= -half || hi >= half {
                        return None
                    }
                    let mut t2: Vec<(u128, E)> = ts.to_vec();
                    t2.sort_by_key(|t| t.1);
                    if sx(w, t2[0].0) < 0 {
                        for t in t2.iter_mut() {
                            t.0 = mask(w, t.0.wrapping_neg());
                        }
                    }
                    sums.insert(t2);
                    C::Order
                }
                N::Lin(0, ts) if ts.len() >= 3 && ts.iter().filter(|t| !self.plain(x, t.1)).count() == 1 && kind.get(&ts.iter().find(|t| !self.plain(x, t.1)).unwrap().1) == Some(&C::Order) => {
                    // a sum minus or plus a choice of sums, to be compared with zero
                    let other = ts.iter().find(|t| !self.plain(x, t.1)).unwrap();
                    if sx(w, other.0).abs() != 1 {
                        return None;
                    }
                    let (mut lo, mut hi) = (0i128, 0i128);
                    let mut t2: Vec<(u128, E)> = ts.iter().filter(|t| self.plain(x, t.1)).cloned().collect();
                    for (k, t) in t2.iter() {
                        let r = x.r[*t as usize];
                        let k = sx(w, *k);
                        let (a, b) = (k.saturating_mul(r.slo as i128), k.saturating_mul(r.shi as i128));
                        lo = lo.saturating_add(a.min(b));
                        hi = hi.saturating_add(a.max(b));
                    }
                    let half = 1i128 << (w.min(120) - 1);
                    if w > 64 || lo <= -half || hi >= half {
                        return None;
                    }
                    t2.sort_by_key(|t| t.1);
                    if sx(w, t2[0].0) < 0 {
                        for t in t2.iter_mut() {
                            t.0 = mask(w, t.0.wrapping_neg());
                        }
                    }
                    sums.insert(t2);
                    C::Diff
                }
                N::Lin(c, ts) if ts.len() == 1 && kind.get(&ts[0].1) == Some(&C::Order) => {
                    if *c == 0 && sx(w, ts[0].0) == -1 {
                        C::Order
                    } else {
                        return None
                    }
                }
                N::Eq(a, b) if kind.get(a) == Some(&C::Diff) || kind.get(b) == Some(&C::Diff) => {
                    if kind.get(a) != Some(&C::Zero) && kind.get(b) != Some(&C::Zero) {
                        return None;
                    }
                    C::None
                }
                N::Ite(c, a, b) => {
                    if kind.get(c) == Some(&C::Order) {
                        return None
                    }
                    match (kind.get(a)?, kind.get(b)?) {
                        (C::Order, C::None) | (C::None, C::Order) | (C::Diff, _) | (_, C::Diff) => return None,
                        (C::Order, _) | (_, C::Order) => C::Order,
                        (C::Zero, C::Zero) => C::Zero,
                        _ => C::None,
                    }
                }
                N::Slt(a, b) | N::Eq(a, b) => {
                    match (kind.get(a)?, kind.get(b)?) {
                        (C::Order, C::None) | (C::None, C::Order) | (C::Diff, _) | (_, C::Diff) => return None,
                        _ => {}
                    }
                    C::None
                }
                N::Lin(_, ts) if ts.iter().filter(|t| self.plain(x, t.1)).count() >= 2 => return None,
                _ => {
                    for c in x.children(e) {
                        if matches!(kind.get(&c), Some(&C::Order) | Some(&C::Diff)) {
                            return None
                        }
                    }
                    C::None
                }
            };
            kind.insert(e, k);
        }
        Some(sums.len() as i128)
    }
    /// inputs, extended or cut
    fn plain(&self, x: &Ctx, e: E) -> bool {
        match &x.n[e as usize] {
            N::Var(_) => true,
            N::SExt(a) => self.plain(x, *a),
            N::Ext(a, _) => self.plain(x, *a),
            N::Lin(_, t) => t.iter().all(|t| self.plain(x, t.1)),
            N::Concat(v) => v.iter().all(|a| matches!(&x.n[*a as usize], N::C(_)) || self.plain(x, *a)),
            _ => false,
        }
    }
    /// a sum as an unknown with the range of the sum; equal sums and opposite sums share it
    fn lin_var(&mut self, x: &Ctx, e: E, c: u128, mut ts: Vec<(u128, E)>) -> Vec<L> {
        self.abstracted = true;
        let w = x.w[e as usize];
        ts.sort_by_key(|t| t.1);
        let neg = sx(w, ts[0].0) < 0;
        if neg {
            for t in ts.iter_mut() {
                t.0 = mask(w, t.0.wrapping_neg());
            }
        }
        let key = (w, ts.clone());
        let v = match self.lins.get(&key) {
            Some(v) => v.clone(),
            None => {
                let (mut lo, mut hi) = (0i128, 0i128);
                for (k, t) in &ts {
                    let r = x.r[*t as usize];
                    let k = sx(w, *k);
                    let (a, b) = (k.saturating_mul(r.slo as i128), k.saturating_mul(r.shi as i128));
                    lo = lo.saturating_add(a.min(b));
                    hi = hi.saturating_add(a.max(b));
                }
                if let Some(n) = self.lin_cap {
                    lo = lo.min(0).max(-n);
                    hi = hi.max(0).min(n);
                }
                let half = 1i128 << (w.min(120) - 1);
                let v = if w > 64 || lo < -half || hi >= half {
                    (0..w).map(|b| self.input(e, b)).collect::<Vec<L>>()
                } else {
                    let mut n = 1u32;
                    while lo < -(1i128 << (n - 1)) || hi >= 1i128 << (n - 1) {
                        n += 1;
                    }
                    let mut v: Vec<L> = (0..n).map(|b| self.input(e, b)).collect();
                    let flip = |v: &[L]| -> Vec<L> {
                        let mut v = v.to_vec();
                        let k = v.len() - 1;
                        v[k] ^= 1;
                        v
                    };
                    let kb = |k: i128| -> Vec<L> { (0..n).map(|j| if (k >> j) & 1 == 1 { T } else { F }).collect() };
                    let a = self.ult(&flip(&v), &flip(&kb(lo))) ^ 1;
                    self.side.push(a);
                    let b = self.ult(&flip(&kb(hi)), &flip(&v)) ^ 1;
                    self.side.push(b);
                    let s = v[n as usize - 1];
                    v.resize(w as usize, s);
                    v
                };
                self.lins.insert(key, v.clone());
                v
            }
        };
        let v = if neg { self.neg(&v) } else { v };
        let kb: Vec<L> = (0..w).map(|j| if (c >> j) & 1 == 1 { T } else { F }).collect();
        self.add(&v, &kb, F)
    }
    fn opaque(&mut self, x: &Ctx, e: E, fid: u32, args: &[E]) -> Vec<L> {
        self.abstracted = true;
        let w = x.w[e as usize];
        let r: Vec<L> = (0..w).map(|b| self.input(e, b)).collect();
        let mut a = vec![];
        for c in args {
            a.extend(self.memo[c].iter());
        }
        let l = self.ufs.entry((fid, w)).or_default().clone();
        for (pa, pr) in &l {
            if pa.len() == a.len() {
                let ea = self.eqv(pa, &a);
                let er = self.eqv(pr, &r);
                let c = self.or(ea ^ 1, er);
                self.side.push(c);
            }
        }
        self.ufs.get_mut(&(fid, w)).unwrap().push((a, r.clone()));
        r
    }
    fn node(&mut self, x: &Ctx, e: E) -> Vec<L> {
        let w = x.w[e as usize] as usize;
        let g = |s: &Aig, c: &E| s.memo[c].clone();
        match &x.n[e as usize] {
            N::C(v) => (0..w).map(|i| if (v >> i) & 1 == 1 { T } else { F }).collect(),
            N::Var(k) => {
                let vi = &x.vars[*k as usize];
                let (lo, hi) = (vi.lo, vi.hi);
                let r: Vec<L> = (0..w).map(|b| self.input(e, b as u32)).collect();
                let full = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                if hi < full {
                    let h: Vec<L> = (0..w).map(|i| if (hi >> i) & 1 == 1 { T } else { F }).collect();
                    let c = self.ult(&h, &r) ^ 1;
                    self.side.push(c);
                }
                if lo > 0 {
                    let h: Vec<L> = (0..w).map(|i| if (lo >> i) & 1 == 1 { T } else { F }).collect();
                    let c = self.ult(&r, &h) ^ 1;
                    self.side.push(c);
                }
                r
            }
            N::Lin(c, ts) if self.abs_lin && ts.iter().filter(|t| self.plain(x, t.1)).count() >= 2 => {
                let c = *c;
                let (ts, rest): (Vec<(u128, E)>, Vec<(u128, E)>) = ts.iter().partition(|t| self.plain(x, t.1));
                let mut r = self.lin_var(x, e, c, ts);
                for (k, t) in rest {
                    let mut v = g(self, &t);
                    let s = sx(w as u32, k);
                    if s < 0 {
                        v = self.neg(&v);
                    }
                    let m = s.unsigned_abs();
                    for i in 0..w {
                        if (m >> i) & 1 == 1 {
                            let mut sh = vec![F; i];
                            sh.extend(v[..w - i].iter());
                            r = self.add(&r, &sh, F);
                        }
                    }
                }
                r
            }
            N::Lin(c, ts) => {
                let mut k = *c;
                let mut adds: Vec<Vec<L>> = vec![];
                for (co, t) in ts.iter() {
                    let v = g(self, t);
                    let s = sx(w as u32, *co);
                    let (neg, mut m) = if s < 0 { (true, (-s) as u128) } else { (false, s as u128) };
                    // non-adjacent form of m
                    let mut sh = 0;
                    while m != 0 && sh < w {
                        let mut d = 0i32;
                        if m & 1 == 1 {
                            d = if m & 3 == 3 { -1 } else { 1 };
                            if d == 1 {
                                m -= 1
                            } else {
                                m += 1
                            }
                        }
                        if d != 0 {
                            let mut a = vec![F; w];
                            for i in sh..w {
                                a[i] = v[i - sh];
                            }
                            if (d < 0) != neg {
                                for l in a.iter_mut() {
                                    *l ^= 1;
                                }
                                k = k.wrapping_add(1);
                            }
                            adds.push(a);
                        }
                        m >>= 1;
                        sh += 1;
                    }
                }
                let k = mask(w as u32, k);
                let kv: Vec<L> = (0..w).map(|i| if (k >> i) & 1 == 1 { T } else { F }).collect();
                let mut acc = kv;
                if adds.len() > 2 {
                    // carry-save
                    let mut q: std::collections::VecDeque<Vec<L>> = adds.into_iter().collect();
                    q.push_back(acc);
                    while q.len() > 2 {
                        let (a, b, c) = (q.pop_front().unwrap(), q.pop_front().unwrap(), q.pop_front().unwrap());
                        let mut s = vec![F; w];
                        let mut cy = vec![F; w];
                        for i in 0..w {
                            let t = self.xor(a[i], b[i]);
                            s[i] = self.xor(t, c[i]);
                            if i + 1 < w {
                                let p = self.and(a[i], b[i]);
                                let r = self.and(t, c[i]);
                                cy[i + 1] = self.or(p, r);
                            }
                        }
                        q.push_back(s);
                        q.push_back(cy);
                    }
                    let a = q.pop_front().unwrap();
                    let b = q.pop_front().unwrap();
                    return self.add(&a, &b, F);
                }
                for a in adds {
                    acc = self.add(&a, &acc, F);
                }
                acc
            }
            N::Mul(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                let mut acc = vec![F; w];
                for i in 0..w {
                    if b[i] == F {
                        continue;
                    }
                    let mut p = vec![F; w];
                    for j in 0..w - i {
                        p[i + j] = self.and(a[j], b[i]);
                    }
                    acc = self.add(&acc, &p, F);
                }
                acc
            }
            N::And(v) => {
                let l: Vec<Vec<L>> = v.iter().map(|c| g(self, c)).collect();
                (0..w)
                    .map(|i| {
                        let mut c: Vec<L> = l.iter().map(|x| x[i]).collect();
                        self.andv(&mut c)
                    })
                    .collect()
            }
            N::Or(v) => {
                let l: Vec<Vec<L>> = v.iter().map(|c| g(self, c)).collect();
                (0..w)
                    .map(|i| {
                        let mut c: Vec<L> = l.iter().map(|x| x[i] ^ 1).collect();
                        self.andv(&mut c) ^ 1
                    })
                    .collect()
            }
            N::Xor(k, v) => {
                let l: Vec<Vec<L>> = v.iter().map(|c| g(self, c)).collect();
                (0..w)
                    .map(|i| {
                        let mut r = if (k >> i) & 1 == 1 { T } else { F };
                        for x in &l {
                            r = self.xor(r, x[i]);
                        }
                        r
                    })
                    .collect()
            }
            N::Concat(v) => {
                let mut r = vec![];
                for c in v.iter().rev() {
                    r.extend(self.memo[c].iter());
                }
                r
            }
            N::Ext(a, lo) => self.memo[a][*lo as usize..*lo as usize + w].to_vec(),
            N::SExt(a) => {
                let mut v = g(self, a);
                let s = *v.last().unwrap();
                v.resize(w, s);
                v
            }
            N::Shl(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                self.shift(&a, &b, 0)
            }
            N::Lshr(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                self.shift(&a, &b, 1)
            }
            N::Ashr(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                self.shift(&a, &b, 2)
            }
            N::UDiv(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                self.divrem(&a, &b).0
            }
            N::URem(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                self.divrem(&a, &b).1
            }
            N::SDiv(a, b) | N::SRem(a, b) => {
                let isdiv = matches!(&x.n[e as usize], N::SDiv(..));
                let (a, b) = (g(self, a), g(self, b));
                let (sa, sb) = (a[w - 1], b[w - 1]);
                let na = self.neg(&a);
                let nb = self.neg(&b);
                let ua: Vec<L> = (0..w).map(|i| self.ite(sa, na[i], a[i])).collect();
                let ub: Vec<L> = (0..w).map(|i| self.ite(sb, nb[i], b[i])).collect();
                let (q, r) = self.divrem(&ua, &ub);
                if isdiv {
                    let s = self.xor(sa, sb);
                    let nq = self.neg(&q);
                    (0..w).map(|i| self.ite(s, nq[i], q[i])).collect()
                } else {
                    let nr = self.neg(&r);
                    (0..w).map(|i| self.ite(sa, nr[i], r[i])).collect()
                }
            }
            N::Ite(c, a, b) => {
                let c = self.memo[c][0];
                let (a, b) = (g(self, a), g(self, b));
                (0..w).map(|i| self.ite(c, a[i], b[i])).collect()
            }
            N::Eq(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                vec![self.eqv(&a, &b)]
            }
            N::Ult(a, b) => {
                let (a, b) = (g(self, a), g(self, b));
                vec![self.ult(&a, &b)]
            }
            N::Slt(a, b) => {
                let (mut a, mut b) = (g(self, a), g(self, b));
                let n = a.len();
                a[n - 1] ^= 1;
                b[n - 1] ^= 1;
                vec![self.ult(&a, &b)]
            }
            N::Look(t, i) => {
                let tab = x.tables[*t as usize].v.clone();
                if tab.len() >= self.abs_look {
                    // the table as an unknown function that keeps to its range
                    let (t, i) = (*t, *i);
                    {
                        // predicates that single out few indices are kept exactly
                        let ones = tab.iter().filter(|v| **v & 1 == 1).count();
                        if w == 1 && (ones <= 4 || tab.len() - ones <= 4) {
                            let inv = ones > 4;
                            let idx = g(self, &i);
                            let mut any = F;
                            for (k, v) in tab.iter().enumerate() {
                                if (*v & 1 == 1) != inv {
                                    let kl: Vec<L> = (0..idx.len()).map(|j| if j < 64 && (k >> j) & 1 == 1 { T } else { F }).collect();
                                    let q = self.eqv(&idx, &kl);
                                    any = self.or(any, q);
                                }
                            }
                            return vec![if inv { any ^ 1 } else { any }];
                        }
                    }
                    let r = self.opaque(x, e, 0x2000_0000 + t, &[i]);
                    let rg = x.r[i as usize];
                    let hi = (rg.uhi as usize).min(tab.len() - 1);
                    let lo = (rg.ulo as usize).min(hi);
                    let idx = g(self, &i);
                    for (ex, a, b) in [(None, lo, hi), (Some(lo), lo + 1, hi), (Some(hi), lo, hi.saturating_sub(1))] {
                        if a > b || b >= tab.len() {
                            continue;
                        }
                        let (mut mn, mut mx) = (u64::MAX, 0);
                        for v in &tab[a..=b] {
                            mn = mn.min(*v);
                            mx = mx.max(*v);
                        }
                        let kb = |k: u64| -> Vec<L> { (0..w).map(|j| if j < 64 && (k >> j) & 1 == 1 { T } else { F }).collect() };
                        let c1 = self.ult(&r, &kb(mn)) ^ 1;
                        let c2 = self.ult(&kb(mx), &r) ^ 1;
                        let mut ok = self.and(c1, c2);
                        if let Some(k) = ex {
                            let kl: Vec<L> = (0..idx.len()).map(|j| if j < 64 && (k >> j) & 1 == 1 { T } else { F }).collect();
                            let at = self.eqv(&idx, &kl);
                            let is = self.eqv(&r, &kb(tab[k]));
                            ok = self.ite(at, is, ok);
                        }
                        self.side.push(ok);
                    }
                    // tables related by a constant sum or difference on the index range
                    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                    for (ot, oidx, or) in self.looks.clone() {
                        let o = &x.tables[ot as usize].v;
                        if oidx != idx || or.len() != r.len() || o.len() <= hi || ot == t {
                            continue;
                        }
                        let s = tab[lo].wrapping_add(o[lo]) & m;
                        let d = tab[lo].wrapping_sub(o[lo]) & m;
                        let kb = |k: u64| -> Vec<L> { (0..w).map(|j| if j < 64 && (k >> j) & 1 == 1 { T } else { F }).collect() };
                        if (lo..=hi).all(|k| tab[k].wrapping_add(o[k]) & m == s) {
                            let z = self.add(&r, &or, F);
                            let q = self.eqv(&z, &kb(s));
                            self.side.push(q);
                        } else if (lo..=hi).all(|k| tab[k].wrapping_sub(o[k]) & m == d) {
                            let z = self.add(&or, &kb(d), F);
                            let q = self.eqv(&z, &r);
                            self.side.push(q);
                        }
                    }
                    self.looks.push((t, idx, r.clone()));
                    return r;
                }
                let idx = g(self, i);
                let need = ((64 - (tab.len() as u64 - 1).leading_zeros()) as usize).max(1);
                let idx = if idx.len() > need { idx[..need].to_vec() } else { idx };
                let sz = 1usize << idx.len();
                (0..w)
                    .map(|b| {
                        let mut bits: Vec<u8> = tab.iter().map(|v| ((v >> b) & 1) as u8).collect();
                        let last = *bits.last().unwrap();
                        bits.resize(sz, last);
                        let mut memo = HashMap::new();
                        self.muxtab(&bits, &idx, &mut memo)
                    })
                    .collect()
            }
            N::Uf(f, a) => {
                let a = a.to_vec();
                self.opaque(x, e, *f, &a)
            }
            N::Fp(Fop::Cmp(c), a) => {
                let (p, q) = (g(self, &a[0]), g(self, &a[1]));
                vec![self.fcmp(*c, &p, &q)]
            }
            N::Fp(op, a) => {
                let id = 0x1000_0000
                    + match op {
                        Fop::Add => 0,
                        Fop::Sub => 1,
                        Fop::Mul => 2,
                        Fop::Div => 3,
                        Fop::Sqrt => 4,
                        Fop::ToF(_) => 5,
                        Fop::FromS => 6,
                        Fop::FromU => 7,
                        Fop::ToS => 8,
                        Fop::ToU => 9,
                        Fop::Round => 10,
                        Fop::Misc(k) => 100 + k,
                        Fop::Cmp(_) => 11,
                    };
                let a = a.to_vec();
                self.opaque(x, e, id, &a)
            }
        }
    }
    /// nodes in the cone of the given literals, in topological order
    pub fn cone(&self, ls: &[L]) -> Vec<u32> {
        let mut seen = vec![false; self.n.len()];
        let mut st: Vec<u32> = ls.iter().map(|l| l >> 1).collect();
        let mut out = vec![];
        while let Some(k) = st.pop() {
            if seen[k as usize] {
                continue;
            }
            seen[k as usize] = true;
            out.push(k);
            let (a, b) = self.n[k as usize];
            if k != 0 && a != u32::MAX {
                st.push(a >> 1);
                st.push(b >> 1);
            }
        }
        out.sort();
        out
    }
    /// 64-pattern words; inputs given per input number; returns the value of each literal
    pub fn sim(&self, cone: &[u32], inp: &dyn Fn(u32) -> u64, val: &mut Vec<u64>) {
        val.resize(self.n.len(), 0);
        for &k in cone {
            if k == 0 {
                val[0] = 0;
                continue;
            }
            let (a, b) = self.n[k as usize];
            val[k as usize] = if a == u32::MAX {
                inp(b)
            } else {
                let x = val[(a >> 1) as usize] ^ (0u64.wrapping_sub((a & 1) as u64));
                let y = val[(b >> 1) as usize] ^ (0u64.wrapping_sub((b & 1) as u64));
                x & y
            };
        }
    }
    /// is there an assignment making `bad` true? complete when the cone has few inputs.
    /// Ok(None): no. Ok(Some(assign)): yes. Err: too expensive.
    pub fn exhaustive(&self, bad: L, max_cost: u64) -> Result<Option<Vec<bool>>, ()> {
        let cone = self.cone(&[bad]);
        let ins: Vec<u32> = cone.iter().filter(|k| **k != 0 && self.n[**k as usize].0 == u32::MAX).map(|k| self.n[*k as usize].1).collect();
        let nb = ins.len();
        if nb > 34 {
            return Err(());
        }
        let words = if nb <= 6 { 1u64 } else { 1u64 << (nb - 6) };
        if words.saturating_mul(cone.len() as u64) > max_cost {
            return Err(());
        }
        // compact tape, 8 words at a time
        let mut pos: HashMap<u32, u32> = HashMap::new();
        for (i, k) in cone.iter().enumerate() {
            pos.insert(*k, i as u32);
        }
        let inpos: HashMap<u32, u32> = ins.iter().enumerate().map(|(i, k)| (*k, i as u32)).collect();
        #[derive(Clone, Copy)]
        struct Op(u32, u32);
        let tape: Vec<Op> = cone
            .iter()
            .map(|k| {
                let (a, b) = self.n[*k as usize];
                if *k == 0 {
                    Op(u32::MAX, u32::MAX)
                } else if a == u32::MAX {
                    Op(u32::MAX, inpos[&b])
                } else {
                    Op(pos[&(a >> 1)] * 2 + (a & 1), pos[&(b >> 1)] * 2 + (b & 1))
                }
            })
            .collect();
        let badp = pos.get(&(bad >> 1)).cloned().unwrap_or(0);
        const W: usize = 8;
        const PAT: [u64; 6] = [0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000];
        let mut v = vec![[0u64; W]; cone.len()];
        let mut base = 0u64;
        while base < words {
            for (i, o) in tape.iter().enumerate() {
                if o.0 == u32::MAX {
                    if o.1 == u32::MAX {
                        v[i] = [0; W];
                    } else if o.1 < 6 {
                        v[i] = [PAT[o.1 as usize]; W];
                    } else {
                        for j in 0..W {
                            v[i][j] = if ((base + j as u64) >> (o.1 - 6)) & 1 == 1 { u64::MAX } else { 0 };
                        }
                    }
                } else {
                    let ma = 0u64.wrapping_sub((o.0 & 1) as u64);
                    let mb = 0u64.wrapping_sub((o.1 & 1) as u64);
                    let a = v[(o.0 >> 1) as usize];
                    let b = v[(o.1 >> 1) as usize];
                    let mut r = [0u64; W];
                    for j in 0..W {
                        r[j] = (a[j] ^ ma) & (b[j] ^ mb);
                    }
                    v[i] = r;
                }
            }
            let m = 0u64.wrapping_sub((bad & 1) as u64);
            for j in 0..W {
                if base + j as u64 >= words {
                    break;
                }
                let x = v[badp as usize][j] ^ m;
                if x != 0 {
                    let bit = x.trailing_zeros() as u64;
                    let mut asg = vec![false; self.inputs.len()];
                    for (i, k) in ins.iter().enumerate() {
                        asg[*k as usize] = if i < 6 { (bit >> i) & 1 == 1 } else { ((base + j as u64) >> (i - 6)) & 1 == 1 };
                    }
                    return Ok(Some(asg));
                }
            }
            base += W as u64;
        }
        Ok(None)
    }
    pub fn cnf(&self, roots: &[L], path: &str) -> std::io::Result<Vec<u32>> {
        // every root literal is asserted; returns for each input number its CNF variable (0 = absent)
        let cone = self.cone(roots);
        let mut var: HashMap<u32, i64> = HashMap::new();
        for (i, k) in cone.iter().enumerate() {
            var.insert(*k, i as i64 + 1);
        }
        let lit = |l: L| -> i64 {
            let v = var[&(l >> 1)];
            if l & 1 == 1 {
                -v
            } else {
                v
            }
        };
        let mut cl: Vec<String> = vec![];
        let mut inv = vec![0u32; self.inputs.len()];
        for &k in &cone {
            if k == 0 {
                cl.push(format!("-{} 0\n", var[&0]));
                continue;
            }
            let (a, b) = self.n[k as usize];
            let v = var[&k];
            if a == u32::MAX {
                inv[b as usize] = v as u32;
                continue;
            }
            let (x, y) = (lit(a), lit(b));
            cl.push(format!("{} {} 0\n{} {} 0\n{} {} {} 0\n", -v, x, -v, y, v, -x, -y));
        }
        let ncl = cone.iter().filter(|k| **k == 0).count() + 3 * cone.iter().filter(|k| **k != 0 && self.n[**k as usize].0 != u32::MAX).count() + roots.len();
        let mut f = std::io::BufWriter::new(std::fs::File::create(path)?);
        writeln!(f, "p cnf {} {}", cone.len(), ncl)?;
        for c in cl {
            f.write_all(c.as_bytes())?;
        }
        for r in roots {
            writeln!(f, "{} 0", lit(*r))?;
        }
        f.flush()?;
        Ok(inv)
    }
}
