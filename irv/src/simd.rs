//! Semantics of LLVM intrinsics, lane by lane.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;

impl Exec {
    fn sat_s(&mut self, wide: E, w: u32) -> E {
        let ww = self.x.width(wide);
        let hi = self.x.ci(ww, (1i128 << (w - 1)) - 1);
        let lo = self.x.ci(ww, -(1i128 << (w - 1)));
        let c1 = self.x.slt(hi, wide);
        let c2 = self.x.slt(wide, lo);
        let n = self.x.ext(wide, 0, w);
        let h = self.x.ci(w, (1i128 << (w - 1)) - 1);
        let l = self.x.ci(w, -(1i128 << (w - 1)));
        let r = self.x.ite(c2, l, n);
        self.x.ite(c1, h, r)
    }
    fn op2(&mut self, op: &str, a: E, b: E) -> E {
        let w = self.x.width(a);
        match op {
            "smax" => {
                let c = self.x.slt(a, b);
                self.x.ite(c, b, a)
            }
            "smin" => {
                let c = self.x.slt(b, a);
                self.x.ite(c, b, a)
            }
            "umax" => {
                let c = self.x.ult(a, b);
                self.x.ite(c, b, a)
            }
            "umin" => {
                let c = self.x.ult(b, a);
                self.x.ite(c, b, a)
            }
            "sadd" | "ssub" => {
                let x = self.x.sext(a, w + 1);
                let y = self.x.sext(b, w + 1);
                let s = if op == "sadd" { self.x.add(x, y) } else { self.x.sub(x, y) };
                self.sat_s(s, w)
            }
            "uadd" => {
                let x = self.x.zext(a, w + 1);
                let y = self.x.zext(b, w + 1);
                let s = self.x.add(x, y);
                let c = self.x.ext(s, w, 1);
                let o = self.x.c(w, u128::MAX);
                let n = self.x.ext(s, 0, w);
                self.x.ite(c, o, n)
            }
            "usub" => {
                let c = self.x.ult(a, b);
                let z = self.x.c(w, 0);
                let s = self.x.sub(a, b);
                self.x.ite(c, z, s)
            }
            "psign" => {
                let z = self.x.c(w, 0);
                let c = self.x.slt(b, z);
                let e = self.x.eq(b, z);
                let n = self.x.neg(a);
                let r = self.x.ite(c, n, a);
                self.x.ite(e, z, r)
            }
            "fmaxx" => {
                let c = self.fcmp1(2, a, b);
                self.x.ite(c, a, b)
            }
            "fminx" => {
                let c = self.fcmp1(4, a, b);
                self.x.ite(c, a, b)
            }
            // NaN-propagating variants differ from the above only on NaN and on signed zeros
            _ => stop(format!("lane operation {}", op)),
        }
    }
    fn map2(&mut self, op: &str, a: &Val, b: &Val, ty: &Ty) -> Val {
        let x = self.lanes(a, ty);
        let y = self.lanes(b, ty);
        let r: Vec<E> = x.iter().zip(y.iter()).map(|(p, q)| self.op2(op, *p, *q)).collect();
        if matches!(self.m.res(ty), Ty::Vec(..)) {
            Exec::mkvec(r)
        } else {
            Val::I(r[0])
        }
    }
    fn map1<F: FnMut(&mut Exec, E) -> E>(&mut self, a: &Val, ty: &Ty, mut f: F) -> Val {
        let x = self.lanes(a, ty);
        let r: Vec<E> = x.iter().map(|p| f(self, *p)).collect();
        if matches!(self.m.res(ty), Ty::Vec(..)) {
            Exec::mkvec(r)
        } else {
            Val::I(r[0])
        }
    }
    fn pick(&mut self, tbl: &[E], idx: E, bits: u32) -> E {
        // tbl has 1<<bits entries
        if let Some(v) = self.x.cv(idx) {
            return tbl[v as usize];
        }
        if bits == 0 {
            return tbl[0];
        }
        let h = tbl.len() / 2;
        let i2 = self.x.ext(idx, 0, bits - 1 + (bits == 1) as u32);
        let b = self.x.ext(idx, bits - 1, 1);
        if bits == 1 {
            return self.x.ite(b, tbl[1], tbl[0]);
        }
        let l = self.pick(&tbl[..h], i2, bits - 1);
        let u = self.pick(&tbl[h..], i2, bits - 1);
        self.x.ite(b, u, l)
    }
    pub fn intrinsic(&mut self, st: &mut St, name: &str, ret: &Ty, args: &[Arg], av: Vec<Val>) -> Option<Val> {
        let n = name.strip_prefix("llvm.").unwrap();
        if n.starts_with("lifetime") || n.starts_with("dbg.") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("stackrestore") || n.starts_with("prefetch") || n.starts_with("invariant") {
            return Some(Val::U);
        }
        if n.starts_with("stacksave") {
            let z = self.x.c(64, 0);
            return Some(Val::P(0, z));
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let k = match &av[2] {
                Val::I(e) => *e,
                _ => return stop("memcpy size"),
            };
            return if self.memcpy(st, &av[0], &av[1], k) { Some(Val::U) } else { None };
        }
        if n.starts_with("memset") {
            let k = match &av[2] {
                Val::I(e) => *e,
                _ => return stop("memset size"),
            };
            let b = match &av[1] {
                Val::I(e) => *e,
                _ => self.undef(8),
            };
            return if self.memset(st, &av[0], b, k) { Some(Val::U) } else { None };
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            self.oblige(st, Kind::Safety, "trap", FALSE);
            return None;
        }
        let ty = &args[0].ty;
        let base: Vec<&str> = n.split('.').collect();
        let two = |op: &'static str, s: &mut Exec| Some(s.map2(op, &av[0], &av[1], ty));
        match base[0] {
            "smax" => return two("smax", self),
            "smin" => return two("smin", self),
            "umax" => return two("umax", self),
            "umin" => return two("umin", self),
            "sadd" if base[1] == "sat" => return two("sadd", self),
            "ssub" if base[1] == "sat" => return two("ssub", self),
            "uadd" if base[1] == "sat" => return two("uadd", self),
            "usub" if base[1] == "sat" => return two("usub", self),
            "abs" => return Some(self.map1(&av[0], ty, |s, e| s.iabs(e))),
            "fabs" => return Some(self.map1(&av[0], ty, |s, e| s.fabs(e))),
            "maxnum" | "maximum" => return two("fmaxx", self),
            "minnum" | "minimum" => return two("fminx", self),
            "expect" | "ptrmask" => return Some(av[0].clone()),
            "is" if base[1] == "constant" => return Some(Val::I(FALSE)),
            "objectsize" => return Some(Val::I(self.x.c(64, u128::MAX))),
            "sqrt" => {
                return Some(self.map1(&av[0], ty, |s, e| {
                    let w = s.x.width(e);
                    s.x.fp(w, Fop::Sqrt, vec![e])
                }))
            }
            "nearbyint" | "rint" | "roundeven" => {
                return Some(self.map1(&av[0], ty, |s, e| {
                    let w = s.x.width(e);
                    s.x.fp(w, Fop::Round, vec![e])
                }))
            }
            "copysign" => {
                let x = self.lanes(&av[0], ty);
                let y = self.lanes(&av[1], ty);
                let mut r = vec![];
                for (a, b) in x.iter().zip(y.iter()) {
                    let w = self.x.width(*a);
                    let lo = self.x.ext(*a, 0, w - 1);
                    let s = self.x.ext(*b, w - 1, 1);
                    r.push(self.x.concat(vec![s, lo]));
                }
                return Some(if matches!(self.m.res(ty), Ty::Vec(..)) { Exec::mkvec(r) } else { Val::I(r[0]) });
            }
            "fmuladd" | "fma" => {
                let (a, b, c) = (self.lanes(&av[0], ty), self.lanes(&av[1], ty), self.lanes(&av[2], ty));
                let mut r = vec![];
                for k in 0..a.len() {
                    let w = self.x.width(a[k]);
                    let p = self.x.fp(w, Fop::Mul, vec![a[k], b[k]]);
                    r.push(self.x.fp(w, Fop::Add, vec![p, c[k]]));
                }
                return Some(if matches!(self.m.res(ty), Ty::Vec(..)) { Exec::mkvec(r) } else { Val::I(r[0]) });
            }
            "ctpop" => {
                return Some(self.map1(&av[0], ty, |s, e| {
                    let w = s.x.width(e);
                    let mut r = s.x.c(w, 0);
                    for k in 0..w {
                        let b = s.x.ext(e, k, 1);
                        let b = s.x.zext(b, w);
                        r = s.x.add(r, b);
                    }
                    r
                }))
            }
            "ctlz" | "cttz" => {
                let lz = base[0] == "ctlz";
                return Some(self.map1(&av[0], ty, |s, e| {
                    let w = s.x.width(e);
                    let mut r = s.x.c(w, w as u128);
                    for k in 0..w {
                        let p = if lz { k } else { w - 1 - k };
                        let b = s.x.ext(e, p, 1);
                        let v = s.x.c(w, if lz { w - 1 - p } else { p } as u128);
                        r = s.x.ite(b, v, r);
                    }
                    r
                }));
            }
            "bswap" => {
                return Some(self.map1(&av[0], ty, |s, e| {
                    let w = s.x.width(e);
                    let v: Vec<E> = (0..w / 8).map(|k| s.x.ext(e, k * 8, 8)).collect();
                    s.x.concat(v)
                }))
            }
            "bitreverse" => {
                return Some(self.map1(&av[0], ty, |s, e| {
                    let w = s.x.width(e);
                    let v: Vec<E> = (0..w).map(|k| s.x.ext(e, k, 1)).collect();
                    s.x.concat(v)
                }))
            }
            "fshl" | "fshr" => {
                let (a, b, c) = (self.lanes(&av[0], ty), self.lanes(&av[1], ty), self.lanes(&av[2], ty));
                let mut r = vec![];
                for k in 0..a.len() {
                    let w = self.x.width(a[k]);
                    let m = self.x.c(w, w as u128);
                    let sh = self.x.urem(c[k], m);
                    let sh2 = self.x.zext(sh, 2 * w);
                    let cc = self.x.concat(vec![a[k], b[k]]);
                    let e = if base[0] == "fshl" {
                        let q = self.x.shl(cc, sh2);
                        self.x.ext(q, w, w)
                    } else {
                        let q = self.x.lshr(cc, sh2);
                        self.x.ext(q, 0, w)
                    };
                    r.push(e);
                }
                return Some(if matches!(self.m.res(ty), Ty::Vec(..)) { Exec::mkvec(r) } else { Val::I(r[0]) });
            }
            "uadd" | "sadd" | "umul" | "smul" | "usub" | "ssub" if base[2 - 1] == "with" => {
                let (a, b) = (self.lanes(&av[0], ty)[0], self.lanes(&av[1], ty)[0]);
                let w = self.x.width(a);
                let signed = base[0].starts_with('s');
                let ww = (2 * w).min(128);
                let (x, y) = if signed { (self.x.sext(a, ww), self.x.sext(b, ww)) } else { (self.x.zext(a, ww), self.x.zext(b, ww)) };
                let r = match &base[0][1..] {
                    "add" => self.x.add(x, y),
                    "sub" => self.x.sub(x, y),
                    _ => self.x.mul(x, y),
                };
                let n = self.x.ext(r, 0, w);
                let back = if signed { self.x.sext(n, ww) } else { self.x.zext(n, ww) };
                let o = self.x.ne(back, r);
                return Some(Val::V(std::rc::Rc::new(vec![Val::I(n), Val::I(o)])));
            }
            "vector" if base[1] == "reduce" => {
                let l = self.lanes(&av[0], ty);
                let mut r = l[0];
                for e in &l[1..] {
                    r = match base[2] {
                        "add" => self.x.add(r, *e),
                        "xor" => self.x.xor(r, *e),
                        "or" => self.x.or(r, *e),
                        "and" => self.x.and(r, *e),
                        "smax" | "smin" | "umax" | "umin" => self.op2(base[2], r, *e),
                        _ => return stop(format!("intrinsic {}", name)),
                    };
                }
                return Some(Val::I(r));
            }
            _ => {}
        }
        if n.starts_with("x86.") {
            let last = &base[2..];
            let fam = last.join(".");
            let f = fam.as_str();
            if f.starts_with("psign") {
                return two("psign", self);
            }
            if f.starts_with("max.p") {
                return two("fmaxx", self);
            }
            if f.starts_with("min.p") {
                return two("fminx", self);
            }
            if f.starts_with("psubus.") {
                return two("usub", self);
            }
            if f.starts_with("paddus.") {
                return two("uadd", self);
            }
            if f.starts_with("psubs.") {
                return two("ssub", self);
            }
            if f.starts_with("padds.") {
                return two("sadd", self);
            }
            if f.starts_with("pshuf.b") {
                let a = self.lanes(&av[0], ty);
                let i = self.lanes(&av[1], ty);
                let mut r = vec![];
                for k in 0..a.len() {
                    let lane = k / 16 * 16;
                    let top = self.x.ext(i[k], 7, 1);
                    let lo = self.x.ext(i[k], 0, 4);
                    let v = self.pick(&a[lane..lane + 16], lo, 4);
                    let z = self.x.c(8, 0);
                    r.push(self.x.ite(top, z, v));
                }
                return Some(Exec::mkvec(r));
            }
            if f == "permd" || f == "permps" {
                let a = self.lanes(&av[0], ty);
                let i = self.lanes(&av[1], &args[1].ty);
                let r: Vec<E> = (0..8)
                    .map(|k| {
                        let lo = self.x.ext(i[k], 0, 3);
                        self.pick(&a, lo, 3)
                    })
                    .collect();
                return Some(Exec::mkvec(r));
            }
            if f.starts_with("pslli.") || f.starts_with("psrli.") || f.starts_with("psrai.") {
                let a = self.lanes(&av[0], ty);
                let s = match &av[1] {
                    Val::I(e) => *e,
                    _ => return stop("shift"),
                };
                let c = self.x.cv(s).unwrap_or_else(|| stop("symbolic vector shift"));
                let r: Vec<E> = a
                    .iter()
                    .map(|e| {
                        let w = self.x.width(*e);
                        let k = self.x.c(w, c.min(w as u128));
                        match &f[..4] {
                            "psll" => self.x.shl(*e, k),
                            "psrl" => self.x.lshr(*e, k),
                            _ => self.x.ashr(*e, k),
                        }
                    })
                    .collect();
                return Some(Exec::mkvec(r));
            }
            if f.starts_with("cmp.p") {
                let a = self.lanes(&av[0], ty);
                let b = self.lanes(&av[1], ty);
                let p = match &av[2] {
                    Val::I(e) => self.x.cv(*e).unwrap() as u32,
                    _ => 99,
                };
                let code = match p {
                    0 | 16 => 1,
                    1 | 17 => 4,
                    2 | 18 => 5,
                    3 | 19 => 8,
                    4 | 20 => 14,
                    13 | 29 => 3,
                    14 | 30 => 2,
                    _ => return stop("cmpps predicate"),
                };
                let r: Vec<E> = a
                    .iter()
                    .zip(b.iter())
                    .map(|(x, y)| {
                        let w = self.x.width(*x);
                        let c = self.fcmp1(code, *x, *y);
                        self.x.sext(c, w)
                    })
                    .collect();
                return Some(Exec::mkvec(r));
            }
        }
        if n.starts_with("aarch64.neon.") {
            let op = base[2];
            match op {
                "sqadd" => return two("sadd", self),
                "sqsub" => return two("ssub", self),
                "uqsub" => return two("usub", self),
                "uqadd" => return two("uadd", self),
                "smax" => return two("smax", self),
                "smin" => return two("smin", self),
                "umax" => return two("umax", self),
                "umin" => return two("umin", self),
                "fmax" | "fmaxnm" => return two("fmaxx", self),
                "fmin" | "fminnm" => return two("fminx", self),
                "abs" => return Some(self.map1(&av[0], ty, |s, e| s.iabs(e))),
                "sqabs" => {
                    return Some(self.map1(&av[0], ty, |s, e| {
                        let w = s.x.width(e);
                        let mn = s.x.c(w, 1u128 << (w - 1));
                        let c = s.x.eq(e, mn);
                        let a = s.iabs(e);
                        let mx = s.x.c(w, (1u128 << (w - 1)) - 1);
                        s.x.ite(c, mx, a)
                    }))
                }
                "sqneg" => {
                    return Some(self.map1(&av[0], ty, |s, e| {
                        let w = s.x.width(e);
                        let mn = s.x.c(w, 1u128 << (w - 1));
                        let c = s.x.eq(e, mn);
                        let a = s.x.neg(e);
                        let mx = s.x.c(w, (1u128 << (w - 1)) - 1);
                        s.x.ite(c, mx, a)
                    }))
                }
                "tbl1" | "tbl2" => {
                    let mut t = self.lanes(&av[0], ty);
                    let ix = if op == "tbl2" {
                        let t2 = self.lanes(&av[1], ty);
                        t.extend(t2);
                        2
                    } else {
                        1
                    };
                    let i = self.lanes(&av[ix], &args[ix].ty);
                    let bits = t.len().trailing_zeros();
                    let mut r = vec![];
                    for e in i {
                        let n = self.x.c(8, t.len() as u128);
                        let inb = self.x.ult(e, n);
                        let lo = self.x.ext(e, 0, bits);
                        let v = self.pick(&t, lo, bits);
                        let z = self.x.c(8, 0);
                        r.push(self.x.ite(inb, v, z));
                    }
                    return Some(Exec::mkvec(r));
                }
                _ => {}
            }
        }
        let _ = ret;
        if matches!(base[0], "log" | "exp" | "sin" | "cos" | "pow" | "log2" | "log10" | "exp2") {
            let a: Vec<E> = av
                .iter()
                .map(|v| match v {
                    Val::I(e) => *e,
                    _ => stop("math arg"),
                })
                .collect();
            let w = self.m.bits(ret);
            *self.externs.entry(base[0].to_string()).or_insert(0) += 1;
            return Some(Val::I(self.x.uf(base[0], w, a)));
        }
        stop(format!("intrinsic {}", name))
    }
}
