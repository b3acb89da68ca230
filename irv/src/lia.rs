//! Obligations as linear integer arithmetic for an SMT solver: sums that cannot wrap
//! become integer sums, everything not understood becomes an unknown with its range.
//! Sound for proving only.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write;

pub struct Lia<'a> {
    x: &'a Ctx,
    decl: String,
    defs: String,
    b: HashMap<E, String>,
    s: HashMap<E, String>,
    n: usize,
    pub linear: usize,
    left: usize,
}
fn num(v: i128) -> String {
    if v < 0 {
        format!("(- {})", v.unsigned_abs())
    } else {
        format!("{}", v)
    }
}
impl<'a> Lia<'a> {
    pub fn new(x: &'a Ctx, limit: usize) -> Lia<'a> {
        Lia { x, decl: String::new(), defs: String::new(), b: HashMap::new(), s: HashMap::new(), n: 0, linear: 0, left: limit }
    }
    fn tick(&mut self) -> Option<()> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(())
    }
    fn named(&mut self, sort: &str, body: String) -> String {
        self.n += 1;
        let n = format!("t{}", self.n);
        let _ = write!(self.defs, "(define-fun {} () {} {})\n", n, sort, body);
        n
    }
    fn unknown_bool(&mut self) -> String {
        self.n += 1;
        let n = format!("b{}", self.n);
        let _ = write!(self.defs, "(declare-fun {} () Bool)\n", n);
        n
    }
    fn unknown_int(&mut self, lo: i128, hi: i128) -> String {
        self.n += 1;
        let n = format!("i{}", self.n);
        let _ = write!(self.defs, "(declare-fun {} () Int)\n(assert (<= {} {} {}))\n", n, num(lo), n, num(hi));
        n
    }
    /// one-bit term as a truth value
    pub fn boolean(&mut self, e: E) -> Option<String> {
        if let Some(s) = self.b.get(&e) {
            return Some(s.clone());
        }
        self.tick()?;
        let x = self.x;
        debug_assert_eq!(x.w[e as usize], 1);
        let r = match &x.n[e as usize] {
            N::C(v) => (if *v & 1 == 1 { "true" } else { "false" }).to_string(),
            N::And(v) | N::Or(v) => {
                let op = if matches!(&x.n[e as usize], N::And(_)) { "and" } else { "or" };
                let mut s = format!("({}", op);
                for c in v.iter() {
                    s += " ";
                    s += &self.boolean(*c)?;
                }
                self.named("Bool", s + ")")
            }
            N::Xor(k, v) => {
                let mut s = (if *k & 1 == 1 { "true" } else { "false" }).to_string();
                for c in v.iter() {
                    s = format!("(xor {} {})", s, self.boolean(*c)?);
                }
                self.named("Bool", s)
            }
            N::Ite(c, a, b) => {
                let s = format!("(ite {} {} {})", self.boolean(*c)?, self.boolean(*a)?, self.boolean(*b)?);
                self.named("Bool", s)
            }
            N::Eq(a, b) => {
                let s = if x.w[*a as usize] == 1 {
                    format!("(= {} {})", self.boolean(*a)?, self.boolean(*b)?)
                } else if x.w[*a as usize] > 64 {
                    return Some(self.unknown_bool());
                } else {
                    format!("(= {} {})", self.signed(*a)?, self.signed(*b)?)
                };
                self.named("Bool", s)
            }
            N::Slt(a, b) if x.w[*a as usize] > 1 && x.w[*a as usize] <= 64 => {
                let s = format!("(< {} {})", self.signed(*a)?, self.signed(*b)?);
                self.named("Bool", s)
            }
            N::Ult(a, b) if x.w[*a as usize] > 1 && x.w[*a as usize] < 64 => {
                let s = format!("(< {} {})", self.unsigned(*a)?, self.unsigned(*b)?);
                self.named("Bool", s)
            }
            N::Ext(a, lo) if *lo + 1 == x.w[*a as usize] && x.w[*a as usize] <= 64 => {
                let s = format!("(< {} 0)", self.signed(*a)?);
                self.named("Bool", s)
            }
            _ => self.unknown_bool(),
        };
        self.b.insert(e, r.clone());
        Some(r)
    }
    fn unsigned(&mut self, e: E) -> Option<String> {
        let r = self.x.r[e as usize];
        if let N::Concat(v) = &self.x.n[e as usize] {
            // zeros in front
            if v.len() == 2 && self.x.cv(v[0]) == Some(0) {
                let v1 = v[1];
                return if self.x.w[v1 as usize] == 1 { Some(format!("(ite {} 1 0)", self.boolean(v1)?)) } else { self.unsigned(v1) };
            }
        }
        let s = self.signed(e)?;
        if r.slo >= 0 {
            return Some(s);
        }
        let p = 1i128 << self.x.w[e as usize];
        Some(self.named("Int", format!("(ite (< {} 0) (+ {} {}) {})", s, s, p, s)))
    }
    /// the signed value
    fn signed(&mut self, e: E) -> Option<String> {
        if let Some(s) = self.s.get(&e) {
            return Some(s.clone());
        }
        self.tick()?;
        let x = self.x;
        let w = x.w[e as usize];
        if w > 64 {
            return None;
        }
        let r = x.r[e as usize];
        let out = match &x.n[e as usize] {
            N::C(v) => num(sx(w, *v)),
            _ if w == 1 => format!("(ite {} (- 1) 0)", self.boolean(e)?),
            N::SExt(a) => {
                let a = *a;
                self.signed(a)?
            }
            N::Concat(v) if v.len() == 2 && x.cv(v[0]) == Some(0) && r.slo >= 0 => {
                let v1 = v[1];
                if x.w[v1 as usize] == 1 {
                    let s = format!("(ite {} 1 0)", self.boolean(v1)?);
                    self.named("Int", s)
                } else {
                    self.unsigned(v1)?
                }
            }
            N::Ite(c, a, b) => {
                let s = format!("(ite {} {} {})", self.boolean(*c)?, self.signed(*a)?, self.signed(*b)?);
                self.named("Int", s)
            }
            N::Lin(c, ts) => {
                let half = 1i128 << (w - 1);
                let mut found = None;
                for uns in [false, true] {
                    let (mut lo, mut hi) = (0i128, 0i128);
                    for (k, t) in ts.iter() {
                        let r = x.r[*t as usize];
                        let k = sx(w, *k);
                        let (p, q) = if uns { (r.ulo as i128, r.uhi as i128) } else { (r.slo as i128, r.shi as i128) };
                        let (a, b) = (k.saturating_mul(p), k.saturating_mul(q));
                        lo = lo.saturating_add(a.min(b));
                        hi = hi.saturating_add(a.max(b));
                    }
                    for c in [sx(w, *c), *c as i128] {
                        if lo.saturating_add(c) >= -half && hi.saturating_add(c) < half {
                            found = Some((uns, c));
                        }
                    }
                    if found.is_some() {
                        break;
                    }
                }
                match found {
                    None => self.unknown_int(r.slo as i128, r.shi as i128),
                    Some((uns, c)) => {
                        let mut s = format!("(+ {}", num(c));
                        for (k, t) in ts.iter() {
                            let v = if uns { self.unsigned(*t)? } else { self.signed(*t)? };
                            s += &format!(" (* {} {})", num(sx(w, *k)), v);
                        }
                        self.linear += 1;
                        self.named("Int", s + ")")
                    }
                }
            }
            _ => self.unknown_int(r.slo as i128, r.shi as i128),
        };
        self.s.insert(e, out.clone());
        Some(out)
    }
    pub fn script(self, root: String) -> String {
        format!("(set-logic QF_LIA)\n{}{}(assert {})\n(check-sat)\n", self.decl, self.defs, root)
    }
}
