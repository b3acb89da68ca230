//! Symbolic execution of the IR with state merging at immediate post-dominators.
//! Produces proof obligations (path condition and assumptions => condition).
use crate::expr::*;
use crate::ir::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

pub struct Stop(pub String);

pub fn stop<X>(s: impl Into<String>) -> X {
    std::panic::panic_any(Stop(s.into()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U,
    I(E),
    P(u32, E),
    PS(Rc<Vec<(E, u32, E)>>),
    V(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub t: u8, // 0 undef, 1 term byte, 2 pointer byte
    pub k: u8,
    pub id: u32,
}
pub const UNDEF: Cell = Cell { t: 0, k: 0, id: 0 };
const PG: usize = 64;
pub type Page = [Cell; PG];

#[derive(Clone)]
pub struct Obj {
    pub pages: Vec<Rc<Page>>,
}

#[derive(Clone)]
pub struct ObjInfo {
    pub size: u64,
    pub name: String,
    pub align: u64,
    pub func: Option<usize>,
    pub constant: bool,
    pub base: Option<E>,
    pub freed: bool,
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: Vec<(u32, Rc<Obj>)>,
}
impl Mem {
    fn pos(&self, id: u32) -> Result<usize, usize> {
        self.objs.binary_search_by_key(&id, |x| x.0)
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.pos(id).ok().map(|i| &self.objs[i].1)
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        match self.pos(id) {
            Ok(i) => Some(Rc::make_mut(&mut self.objs[i].1)),
            Err(_) => None,
        }
    }
    pub fn insert(&mut self, id: u32, o: Obj) {
        match self.pos(id) {
            Ok(i) => self.objs[i].1 = Rc::new(o),
            Err(i) => self.objs.insert(i, (id, Rc::new(o))),
        }
    }
    pub fn remove(&mut self, id: u32) {
        if let Ok(i) = self.pos(id) {
            self.objs.remove(i);
        }
    }
}

pub struct St {
    pub mem: Mem,
    pub env: Vec<Val>,
    pub pc: E,
    pub facts: Vec<E>,
    pub ret: Option<Val>,
}
impl St {
    fn fork(&self) -> St {
        St { mem: self.mem.clone(), env: self.env.clone(), pc: self.pc, facts: self.facts.clone(), ret: None }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Assert,  // property-level
    Lemma,   // helper contract / invariant
    Safety,  // repo assert(), out of bounds, null, division by zero
    Ub,      // signed overflow, shift amounts: reported, not deciding
    Cover,
}

pub struct Oblig {
    pub label: String,
    pub kind: Kind,
    pub pc: E,
    pub cond: E,
    pub n_assume: usize,
    pub func: String,
}

#[derive(Default, Clone)]
pub struct Opts {
    pub replace: HashMap<String, String>, // mangled callee -> contract function
    pub fork: Vec<String>,
    pub opaque: Vec<String>,
    pub ub: bool,
    pub max_steps: u64,
    pub demangled: HashMap<String, String>,
    pub trace: bool,
    pub feas_after: u32,
    pub nosafety: Vec<String>,
    pub invs: HashMap<(String, usize), String>,
}

pub struct Exec {
    pub m: Arc<Module>,
    pub x: Ctx,
    pub oi: Vec<ObjInfo>,
    pub ptrs: Vec<Val>,
    ptr_ix: HashMap<(u32, E), u32>,
    pub gobj: HashMap<usize, u32>,
    pub obligs: Vec<Oblig>,
    pub assumes: Vec<E>,
    pub gfacts: HashSet<E>,
    pub choices: Vec<(u32, u32)>, // (taken, n)
    pub choice_pos: usize,
    pub choice_names: Vec<String>,
    pub steps: u64,
    pub opts: Arc<Opts>,
    pub stack: Vec<usize>,
    pub inlined: HashMap<String, u64>,
    pub replaced: HashMap<String, u64>,
    pub externs: HashMap<String, u64>,
    pub undef_n: u32,
    pub oracle: Option<Box<dyn FnMut(&mut Ctx, &[E], E) -> Option<bool>>>, // is pc feasible? None = unknown
    pub deadline: Option<std::time::Instant>,
    pub ub_seen: u64,
    loop_iters: HashMap<(usize, u32), u32>,
    pub notes: Vec<String>,
    pub sym_unrolls: u64,
    pub feas_calls: u64,
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl Exec {
    pub fn new(m: Arc<Module>, opts: Arc<Opts>, choices: Vec<(u32, u32)>) -> Exec {
        let null = ObjInfo { size: 0, name: "null".into(), align: 1, func: None, constant: true, base: None, freed: false };
        let mut x = Ctx::new();
        let z = x.c(64, 0);
        let mut e = Exec {
            m,
            x,
            oi: vec![null],
            ptrs: vec![],
            ptr_ix: HashMap::new(),
            gobj: HashMap::new(),
            obligs: vec![],
            assumes: vec![],
            gfacts: HashSet::new(),
            choices,
            choice_pos: 0,
            choice_names: vec![],
            steps: 0,
            opts,
            stack: vec![],
            inlined: HashMap::new(),
            replaced: HashMap::new(),
            externs: HashMap::new(),
            undef_n: 0,
            oracle: None,
            deadline: None,
            ub_seen: 0,
            loop_iters: HashMap::new(),
            notes: vec![],
            sym_unrolls: 0,
            feas_calls: 0,
        };
        e.oi[0].base = Some(z);
        e
    }
    pub fn fname(&self) -> String {
        self.stack.last().map(|f| self.m.funcs[*f].name.clone()).unwrap_or_default()
    }
    pub fn c64(&mut self, v: i64) -> E {
        self.x.c(64, v as u64 as u128)
    }
    // ---------- objects
    pub fn new_obj(&mut self, mem: &mut Mem, size: u64, name: &str, align: u64) -> u32 {
        let id = self.oi.len() as u32;
        if size > (1 << 26) {
            return stop(format!("object too large: {} bytes {}", size, name));
        }
        self.oi.push(ObjInfo { size, name: name.to_string(), align, func: None, constant: false, base: None, freed: false });
        let np = (size as usize + PG - 1) / PG;
        let blank = Rc::new([UNDEF; PG]);
        mem.insert(id, Obj { pages: vec![blank; np] });
        id
    }
    pub fn base_of(&mut self, o: u32) -> E {
        if let Some(b) = self.oi[o as usize].base {
            return b;
        }
        let al = self.oi[o as usize].align.max(1).next_power_of_two().min(4096).trailing_zeros();
        let nm = format!("addr.{}", self.oi[o as usize].name);
        // 47-bit positive addresses, object does not wrap
        let v = self.x.var(&nm, o, 46 - al, 1, (1u64 << (46 - al)) - 1, false);
        let z = self.x.c(64 - 46, 0);
        let e = if al > 0 {
            let lz = self.x.c(al, 0);
            self.x.concat(vec![z, v, lz])
        } else {
            self.x.concat(vec![z, v])
        };
        self.oi[o as usize].base = Some(e);
        e
    }
    pub fn gptr(&mut self, g: usize, mem: &mut Mem) -> Val {
        let z = self.x.c(64, 0);
        if let Some(&o) = self.gobj.get(&g) {
            if mem.get(o).is_none() && self.oi[o as usize].func.is_none() {
                self.init_global(g, o, mem);
            }
            return Val::P(o, z);
        }
        let gl = self.m.globals[g].clone();
        if let Some(f) = gl.func {
            let id = self.oi.len() as u32;
            self.oi.push(ObjInfo { size: 1, name: gl.name.clone(), align: 16, func: Some(f), constant: true, base: None, freed: false });
            self.gobj.insert(g, id);
            return Val::P(id, z);
        }
        // alias
        if let Some(Op::Cast(k, o, _, _)) = &gl.init {
            if **k == CastK::AddrSpace {
                if let Op::Global(t) = **o {
                    return self.gptr(t, mem);
                }
            }
        }
        let size = if gl.ty == Ty::Void { 8 } else { self.m.size(&gl.ty) };
        let id = self.oi.len() as u32;
        self.oi.push(ObjInfo { size, name: gl.name.clone(), align: gl.align as u64, func: None, constant: gl.constant, base: None, freed: false });
        self.gobj.insert(g, id);
        self.init_global(g, id, mem);
        Val::P(id, z)
    }
    fn init_global(&mut self, g: usize, id: u32, mem: &mut Mem) {
        let size = self.oi[id as usize].size;
        let np = (size as usize + PG - 1) / PG;
        let blank = Rc::new([UNDEF; PG]);
        mem.insert(id, Obj { pages: vec![blank; np] });
        let m = self.m.clone();
        if let Some(init) = &m.globals[g].init {
            let ty = m.globals[g].ty.clone();
            self.store_const(mem, id, 0, &ty, init);
        }
    }
    fn store_const(&mut self, mem: &mut Mem, id: u32, off: u64, ty: &Ty, op: &Op) {
        let m = self.m.clone();
        match (op, m.res(ty)) {
            (Op::Str(s), _) => {
                for (i, b) in s.iter().enumerate() {
                    let e = self.x.c(8, *b as u128);
                    self.put(mem, id, off + i as u64, Cell { t: 1, k: 0, id: e });
                }
            }
            (Op::Zero(_), Ty::Ptr) => {
                let z = self.x.c(64, 0);
                self.store_at(mem, id, off, &Ty::Ptr, &Val::P(0, z));
            }
            (Op::Zero(_), Ty::Arr(n, t)) if self.has_ptr(t) => {
                let sz = m.size(t);
                for i in 0..*n {
                    self.store_const(mem, id, off + i * sz, t, &Op::Zero((**t).clone()));
                }
            }
            (Op::Zero(_), Ty::Struct(ts, p)) if self.has_ptr(m.res(ty)) => {
                for (k, t) in ts.iter().enumerate() {
                    let o = m.field_off(ts, *p, k);
                    self.store_const(mem, id, off + o, t, &Op::Zero(t.clone()));
                }
            }
            (Op::Zero(_), t) => {
                let z = self.x.c(8, 0);
                for i in 0..m.size(t) {
                    self.put(mem, id, off + i, Cell { t: 1, k: 0, id: z });
                }
            }
            (Op::Agg(_, v), Ty::Arr(_, t)) => {
                let sz = m.size(t);
                for (i, o) in v.iter().enumerate() {
                    self.store_const(mem, id, off + i as u64 * sz, t, o);
                }
            }
            (Op::Agg(_, v), Ty::Struct(ts, p)) => {
                for (k, o) in v.iter().enumerate() {
                    let fo = m.field_off(ts, *p, k);
                    self.store_const(mem, id, off + fo, &ts[k], o);
                }
            }
            _ => {
                let v = self.konst(op, ty, mem);
                self.store_at(mem, id, off, ty, &v);
            }
        }
    }
    fn has_ptr(&self, t: &Ty) -> bool {
        match self.m.res(t) {
            Ty::Ptr => true,
            Ty::Arr(_, t) => self.has_ptr(t),
            Ty::Struct(v, _) => v.iter().any(|t| self.has_ptr(t)),
            _ => false,
        }
    }
    fn cell(&self, mem: &Mem, id: u32, off: u64) -> Cell {
        match mem.get(id) {
            Some(o) => o.pages[off as usize / PG][off as usize % PG],
            None => stop(format!("access to a dead object {}", self.oi[id as usize].name)),
        }
    }
    fn put(&mut self, mem: &mut Mem, id: u32, off: u64, c: Cell) {
        match mem.get_mut(id) {
            Some(o) => {
                let p = &mut o.pages[off as usize / PG];
                if p[off as usize % PG] != c {
                    Rc::make_mut(p)[off as usize % PG] = c;
                }
            }
            None => stop(format!("store to a dead object {}", self.oi[id as usize].name)),
        }
    }
    fn pintern(&mut self, v: &Val) -> u32 {
        if let Val::P(o, f) = v {
            if let Some(&k) = self.ptr_ix.get(&(*o, *f)) {
                return k;
            }
            let k = self.ptrs.len() as u32;
            self.ptrs.push(v.clone());
            self.ptr_ix.insert((*o, *f), k);
            return k;
        }
        self.ptrs.push(v.clone());
        self.ptrs.len() as u32 - 1
    }
    pub fn undef(&mut self, w: u32) -> E {
        self.undef_n += 1;
        let n = self.undef_n;
        self.x.var("undef", n, w, 0, if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }, false)
    }
    fn cell_byte(&mut self, c: Cell) -> E {
        match c.t {
            1 => self.x.ext(c.id, c.k as u32 * 8, 8),
            0 => self.undef(8),
            _ => {
                let p = self.ptrs[c.id as usize].clone();
                let i = self.ptr_int(&p);
                self.x.ext(i, c.k as u32 * 8, 8)
            }
        }
    }
    pub fn ptr_int(&mut self, p: &Val) -> E {
        match p {
            Val::P(o, f) => {
                let b = self.base_of(*o);
                self.x.add(b, *f)
            }
            Val::PS(v) => {
                let v = v.clone();
                let mut r: Option<E> = None;
                for (g, o, f) in v.iter().rev() {
                    let b = self.base_of(*o);
                    let i = self.x.add(b, *f);
                    r = Some(match r {
                        None => i,
                        Some(x) => self.x.ite(*g, i, x),
                    });
                }
                r.unwrap()
            }
            Val::I(e) => *e,
            _ => self.undef(64),
        }
    }
    // ---------- typed access at a concrete place
    pub fn store_at(&mut self, mem: &mut Mem, id: u32, off: u64, ty: &Ty, v: &Val) {
        let m = self.m.clone();
        match m.res(ty) {
            Ty::Ptr => {
                let v = match v {
                    Val::I(_) => self.int_to_ptr(v),
                    x => x.clone(),
                };
                if v == Val::U {
                    for k in 0..8 {
                        self.put(mem, id, off + k, UNDEF);
                    }
                    return;
                }
                let p = self.pintern(&v);
                for k in 0..8 {
                    self.put(mem, id, off + k, Cell { t: 2, k: k as u8, id: p });
                }
            }
            Ty::Vec(n, t) => {
                let lw = m.bits(t);
                if lw % 8 != 0 {
                    let e = self.flatten(v, ty);
                    let w = self.x.width(e);
                    let w8 = (w + 7) / 8 * 8;
                    let e = self.x.zext(e, w8);
                    for k in 0..(w8 / 8) {
                        self.put(mem, id, off + k as u64, Cell { t: 1, k: k as u8, id: e });
                    }
                    return;
                }
                let sz = (lw / 8) as u64;
                match v {
                    Val::V(l) => {
                        for i in 0..*n {
                            self.store_at(mem, id, off + i as u64 * sz, t, &l[i as usize]);
                        }
                    }
                    _ => {
                        for i in 0..*n as u64 * sz {
                            self.put(mem, id, off + i, UNDEF);
                        }
                    }
                }
            }
            Ty::Arr(n, t) => {
                let sz = m.size(t);
                if let Val::V(l) = v {
                    for i in 0..*n {
                        self.store_at(mem, id, off + i * sz, t, &l[i as usize]);
                    }
                }
            }
            Ty::Struct(ts, p) => {
                if let Val::V(l) = v {
                    for (k, t) in ts.iter().enumerate() {
                        let fo = m.field_off(ts, *p, k);
                        self.store_at(mem, id, off + fo, t, &l[k]);
                    }
                }
            }
            t => {
                let n = m.size(t);
                match v {
                    Val::I(e) => {
                        let w = self.x.width(*e);
                        let e = if w as u64 != n * 8 { self.x.zext(*e, n as u32 * 8) } else { *e };
                        for k in 0..n {
                            self.put(mem, id, off + k, Cell { t: 1, k: k as u8, id: e });
                        }
                    }
                    Val::P(..) | Val::PS(_) => {
                        let p = self.pintern(v);
                        for k in 0..n {
                            self.put(mem, id, off + k, Cell { t: 2, k: k as u8, id: p });
                        }
                    }
                    _ => {
                        for k in 0..n {
                            self.put(mem, id, off + k, UNDEF);
                        }
                    }
                }
            }
        }
    }
    pub fn load_at(&mut self, mem: &Mem, id: u32, off: u64, ty: &Ty) -> Val {
        let m = self.m.clone();
        match m.res(ty) {
            Ty::Ptr => {
                let c0 = self.cell(mem, id, off);
                if c0.t == 2 && c0.k == 0 {
                    let ok = (1..8).all(|k| {
                        let c = self.cell(mem, id, off + k);
                        c.t == 2 && c.id == c0.id && c.k == k as u8
                    });
                    if ok {
                        return self.ptrs[c0.id as usize].clone();
                    }
                }
                if c0.t == 0 {
                    return Val::U;
                }
                let e = self.load_int(mem, id, off, 8);
                self.int_to_ptr(&Val::I(e))
            }
            Ty::Vec(n, t) => {
                let lw = m.bits(t);
                if lw % 8 != 0 {
                    let tot = lw * n;
                    let e = self.load_int(mem, id, off, ((tot + 7) / 8) as u64);
                    let e = self.x.ext(e, 0, tot);
                    return self.unflatten(e, ty);
                }
                let sz = (lw / 8) as u64;
                let l: Vec<Val> = (0..*n).map(|i| self.load_at(mem, id, off + i as u64 * sz, t)).collect();
                Val::V(Rc::new(l))
            }
            Ty::Arr(n, t) => {
                let sz = m.size(t);
                let l: Vec<Val> = (0..*n).map(|i| self.load_at(mem, id, off + i * sz, t)).collect();
                Val::V(Rc::new(l))
            }
            Ty::Struct(ts, p) => {
                let l: Vec<Val> = (0..ts.len()).map(|k| self.load_at(mem, id, off + m.field_off(ts, *p, k), &ts[k])).collect();
                Val::V(Rc::new(l))
            }
            t => {
                let n = m.size(t);
                let bits = m.bits(t);
                let e = self.load_int(mem, id, off, n);
                Val::I(self.x.ext(e, 0, bits))
            }
        }
    }
    fn load_int(&mut self, mem: &Mem, id: u32, off: u64, n: u64) -> E {
        let c0 = self.cell(mem, id, off);
        if c0.t == 1 && c0.k == 0 && self.x.width(c0.id) as u64 == n * 8 {
            let mut ok = true;
            for k in 1..n {
                let c = self.cell(mem, id, off + k);
                if c.t != 1 || c.id != c0.id || c.k != k as u8 {
                    ok = false;
                    break;
                }
            }
            if ok {
                return c0.id;
            }
        }
        if n == 8 && c0.t == 2 && c0.k == 0 {
            let p = self.ptrs[c0.id as usize].clone();
            if (1..8).all(|k| {
                let c = self.cell(mem, id, off + k);
                c.t == 2 && c.id == c0.id && c.k == k as u8
            }) {
                return self.ptr_int(&p);
            }
        }
        let mut v = vec![];
        for k in (0..n).rev() {
            let c = self.cell(mem, id, off + k);
            let b = self.cell_byte(c);
            v.push(b);
        }
        self.x.concat(v)
    }
    pub fn int_to_ptr(&mut self, v: &Val) -> Val {
        match v {
            Val::I(e) => {
                let e = *e;
                if let Some(c) = self.x.cv(e) {
                    let o = self.x.c(64, c);
                    return Val::P(0, o);
                }
                if let N::Ite(c, a, b) = self.x.n[e as usize] {
                    let p = self.int_to_ptr(&Val::I(a));
                    let q = self.int_to_ptr(&Val::I(b));
                    return self.merge_val(c, &p, &q);
                }
                // find a base variable with coefficient one
                for o in 1..self.oi.len() as u32 {
                    if let Some(b) = self.oi[o as usize].base {
                        let d = self.x.sub(e, b);
                        let bad = self.x.cone(&[d]).iter().any(|n| {
                            if let N::Var(k) = self.x.n[*n as usize] {
                                self.x.vars[k as usize].name.starts_with("addr.")
                            } else {
                                false
                            }
                        });
                        if !bad {
                            return Val::P(o, d);
                        }
                    }
                }
                stop("inttoptr of an unknown integer")
            }
            x => x.clone(),
        }
    }
    // ---------- vectors and bit casts
    pub fn flatten(&mut self, v: &Val, ty: &Ty) -> E {
        let m = self.m.clone();
        match (v, m.res(ty)) {
            (Val::I(e), _) => *e,
            (Val::V(l), Ty::Vec(_, t)) => {
                let t = t.clone();
                let mut ps: Vec<E> = l.iter().map(|x| self.flatten(x, &t)).collect();
                ps.reverse();
                self.x.concat(ps)
            }
            (Val::U, t) => {
                let w = m.bits(t);
                self.undef(w)
            }
            (Val::P(..), _) | (Val::PS(_), _) => self.ptr_int(v),
            _ => stop("flatten"),
        }
    }
    pub fn unflatten(&mut self, e: E, ty: &Ty) -> Val {
        let m = self.m.clone();
        match m.res(ty) {
            Ty::Vec(n, t) => {
                let w = m.bits(t);
                let l: Vec<Val> = (0..*n).map(|i| Val::I(self.x.ext(e, i * w, w))).collect();
                Val::V(Rc::new(l))
            }
            Ty::Ptr => self.int_to_ptr(&Val::I(e)),
            _ => Val::I(e),
        }
    }
    /// lane list regrouped to another lane width
    pub fn relane(&mut self, v: &[E], w2: u32) -> Vec<E> {
        if v.is_empty() {
            return vec![];
        }
        let w1 = self.x.width(v[0]);
        let tot = w1 * v.len() as u32;
        let mut out = vec![];
        for j in 0..tot / w2 {
            let (lo, hi) = (j * w2, (j + 1) * w2);
            let mut ps = vec![];
            let mut p = lo;
            while p < hi {
                let lane = p / w1;
                let o = p % w1;
                let n = (w1 - o).min(hi - p);
                let x = self.x.ext(v[lane as usize], o, n);
                ps.push(x);
                p += n;
            }
            ps.reverse();
            out.push(self.x.concat(ps));
        }
        out
    }
    pub fn lanes(&mut self, v: &Val, ty: &Ty) -> Vec<E> {
        let m = self.m.clone();
        match (v, m.res(ty)) {
            (Val::V(l), Ty::Vec(_, t)) => {
                let w = m.bits(t);
                l.iter()
                    .map(|x| match x {
                        Val::I(e) => *e,
                        Val::U => self.undef(w),
                        p => self.ptr_int(p),
                    })
                    .collect()
            }
            (Val::U, Ty::Vec(n, t)) => {
                let w = m.bits(t);
                (0..*n).map(|_| self.undef(w)).collect()
            }
            (Val::U, t) => {
                let w = m.bits(t);
                vec![self.undef(w)]
            }
            (Val::I(e), _) => vec![*e],
            (p, _) => vec![self.ptr_int(p)],
        }
    }
    pub fn mkvec(l: Vec<E>) -> Val {
        Val::V(Rc::new(l.into_iter().map(Val::I).collect()))
    }
    fn bitcast(&mut self, v: &Val, from: &Ty, to: &Ty) -> Val {
        let m = self.m.clone();
        let (f, t) = (m.res(from).clone(), m.res(to).clone());
        if f == t {
            return v.clone();
        }
        if matches!(f, Ty::Ptr) && matches!(t, Ty::Ptr) {
            return v.clone();
        }
        let l = self.lanes(v, &f);
        match &t {
            Ty::Vec(_, tt) => {
                let w = m.bits(tt);
                let r = self.relane(&l, w);
                Self::mkvec(r)
            }
            _ => {
                let w = m.bits(&t);
                let r = self.relane(&l, w);
                Val::I(r[0])
            }
        }
    }

    // ---------- merging
    pub fn merge_val(&mut self, c: E, a: &Val, b: &Val) -> Val {
        if a == b {
            return a.clone();
        }
        match (a, b) {
            (Val::U, x) | (x, Val::U) => x.clone(),
            (Val::I(x), Val::I(y)) => Val::I(self.x.ite(c, *x, *y)),
            (Val::V(x), Val::V(y)) => {
                let l: Vec<Val> = (0..x.len()).map(|i| self.merge_val(c, &x[i], &y[i])).collect();
                Val::V(Rc::new(l))
            }
            (Val::P(o, f), Val::P(p, g)) if o == p => Val::P(*o, self.x.ite(c, *f, *g)),
            (Val::P(..), Val::I(_)) | (Val::PS(_), Val::I(_)) => {
                let x = self.ptr_int(a);
                let y = self.ptr_int(b);
                Val::I(self.x.ite(c, x, y))
            }
            (Val::I(_), _) => {
                let x = self.ptr_int(a);
                let y = self.ptr_int(b);
                Val::I(self.x.ite(c, x, y))
            }
            _ => {
                let nc = self.x.not(c);
                let mut l: Vec<(E, u32, E)> = vec![];
                for (g, s) in [(c, a), (nc, b)] {
                    let items = match s {
                        Val::P(o, f) => vec![(TRUE, *o, *f)],
                        Val::PS(v) => v.to_vec(),
                        _ => stop("merge of a pointer and a non-pointer"),
                    };
                    for (h, o, f) in items {
                        let gg = self.x.and(g, h);
                        if gg == FALSE {
                            continue;
                        }
                        if let Some(q) = l.iter_mut().find(|q| q.1 == o && q.2 == f) {
                            q.0 = self.x.or(q.0, gg);
                        } else if let Some(k) = l.iter().position(|q| q.1 == o) {
                            // same object, different offset: one entry with an ite offset
                            let nf = self.x.ite(gg, f, l[k].2);
                            let ng = self.x.or(l[k].0, gg);
                            l[k] = (ng, o, nf);
                        } else {
                            l.push((gg, o, f));
                        }
                    }
                }
                if l.len() == 1 {
                    Val::P(l[0].1, l[0].2)
                } else {
                    Val::PS(Rc::new(l))
                }
            }
        }
    }
    fn merge_page(&mut self, c: E, a: &Page, b: &Page) -> Page {
        let mut r = *a;
        let mut i = 0;
        while i < PG {
            if a[i] == b[i] {
                i += 1;
                continue;
            }
            // pointer group
            if (a[i].t == 2 && a[i].k == 0 || b[i].t == 2 && b[i].k == 0) && i + 8 <= PG {
                let full = |p: &Page| (0..8).all(|k| p[i + k].t == 2 && p[i + k].id == p[i].id && p[i + k].k == k as u8);
                let (fa, fb) = (full(a), full(b));
                let zero = |s: &Exec, p: &Page| (0..8).all(|k| p[i + k].t == 1 && s.x.cv(p[i + k].id) == Some(0));
                let undef = |p: &Page| (0..8).all(|k| p[i + k].t == 0);
                let va = if fa {
                    Some(self.ptrs[a[i].id as usize].clone())
                } else if zero(self, a) {
                    let z = self.x.c(64, 0);
                    Some(Val::P(0, z))
                } else {
                    None
                };
                let vb = if fb {
                    Some(self.ptrs[b[i].id as usize].clone())
                } else if zero(self, b) {
                    let z = self.x.c(64, 0);
                    Some(Val::P(0, z))
                } else {
                    None
                };
                let m = match (va, vb) {
                    (Some(x), Some(y)) => Some(self.merge_val(c, &x, &y)),
                    (Some(x), None) if undef(b) => Some(x),
                    (None, Some(y)) if undef(a) => Some(y),
                    _ => None,
                };
                if let Some(v) = m {
                    if matches!(v, Val::P(..) | Val::PS(_)) {
                        let p = self.pintern(&v);
                        for k in 0..8 {
                            r[i + k] = Cell { t: 2, k: k as u8, id: p };
                        }
                        i += 8;
                        continue;
                    }
                }
            }
            // whole multi-byte term on both sides
            if a[i].t == 1 && b[i].t == 1 && a[i].k == 0 && b[i].k == 0 {
                let w = self.x.width(a[i].id);
                if w == self.x.width(b[i].id) && i + (w as usize / 8) <= PG {
                    let n = w as usize / 8;
                    let ok = (0..n).all(|k| a[i + k].t == 1 && b[i + k].t == 1 && a[i + k].id == a[i].id && b[i + k].id == b[i].id && a[i + k].k == k as u8 && b[i + k].k == k as u8);
                    if ok && n > 1 {
                        let e = self.x.ite(c, a[i].id, b[i].id);
                        for k in 0..n {
                            r[i + k] = Cell { t: 1, k: k as u8, id: e };
                        }
                        i += n;
                        continue;
                    }
                }
            }
            let x = self.cell_byte(a[i]);
            let y = self.cell_byte(b[i]);
            let e = self.x.ite(c, x, y);
            r[i] = Cell { t: 1, k: 0, id: e };
            i += 1;
        }
        r
    }
    fn merge_mem(&mut self, c: E, a: Mem, b: Mem) -> Mem {
        let mut out = Vec::with_capacity(a.objs.len());
        let (mut i, mut j) = (0, 0);
        while i < a.objs.len() || j < b.objs.len() {
            if j >= b.objs.len() || (i < a.objs.len() && a.objs[i].0 < b.objs[j].0) {
                out.push(a.objs[i].clone());
                i += 1;
            } else if i >= a.objs.len() || b.objs[j].0 < a.objs[i].0 {
                out.push(b.objs[j].clone());
                j += 1;
            } else {
                let (p, q) = (&a.objs[i].1, &b.objs[j].1);
                if Rc::ptr_eq(p, q) {
                    out.push(a.objs[i].clone());
                } else {
                    let mut pages = Vec::with_capacity(p.pages.len());
                    for (x, y) in p.pages.iter().zip(q.pages.iter()) {
                        if Rc::ptr_eq(x, y) || x == y {
                            pages.push(x.clone());
                        } else {
                            pages.push(Rc::new(self.merge_page(c, x, y)));
                        }
                    }
                    out.push((a.objs[i].0, Rc::new(Obj { pages })));
                }
                i += 1;
                j += 1;
            }
        }
        Mem { objs: out }
    }
    fn merge(&mut self, c: E, a: Option<St>, b: Option<St>, parent_pc: E, parent_facts: Vec<E>) -> Option<St> {
        match (a, b) {
            (None, None) => None,
            (Some(s), None) | (None, Some(s)) => Some(s),
            (Some(a), Some(b)) => {
                let mem = self.merge_mem(c, a.mem, b.mem);
                let mut env = Vec::with_capacity(a.env.len());
                for (x, y) in a.env.into_iter().zip(b.env.into_iter()) {
                    if x == y {
                        env.push(x);
                    } else {
                        env.push(self.merge_val(c, &x, &y));
                    }
                }
                let ret = match (a.ret, b.ret) {
                    (Some(x), Some(y)) => Some(self.merge_val(c, &x, &y)),
                    (x, None) => x,
                    (None, y) => y,
                };
                // what both sides learnt on the way stays known
                let mut pc = parent_pc;
                let mut facts = parent_facts;
                let common: Vec<E> = a.facts.iter().cloned().filter(|f| b.facts.contains(f) && !facts.contains(f)).collect();
                for f in common {
                    pc = self.x.and(pc, f);
                    facts.push(f);
                }
                Some(St { mem, env, pc, facts, ret })
            }
        }
    }

    // ---------- obligations
    pub fn known(&self, st: &St, c: E) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        if self.gfacts.contains(&c) || st.facts.contains(&c) {
            return Some(true);
        }
        None
    }
    pub fn simp(&mut self, st: &St, c: E) -> E {
        if let Some(b) = self.known(st, c) {
            return if b { TRUE } else { FALSE };
        }
        let nc = self.x.not(c);
        if let Some(b) = self.known(st, nc) {
            return if b { FALSE } else { TRUE };
        }
        // conjunctions / disjunctions of known literals
        if let N::And(v) = &self.x.n[c as usize] {
            let v = v.to_vec();
            let mut keep = vec![];
            for e in v {
                let s = self.simp(st, e);
                if s == FALSE {
                    return FALSE;
                }
                keep.push(s);
            }
            return self.x.and_n(keep);
        }
        if let N::Xor(1, l) = &self.x.n[c as usize] {
            if l.len() == 1 {
                let i = l[0];
                if let N::And(v) = &self.x.n[i as usize] {
                    let v = v.to_vec();
                    let mut keep = vec![];
                    for e in v {
                        let s = self.simp(st, e);
                        if s == FALSE {
                            return TRUE;
                        }
                        keep.push(s);
                    }
                    let a = self.x.and_n(keep);
                    return self.x.not(a);
                }
            }
        }
        c
    }
    fn add_fact(&mut self, st: &mut St, c: E) {
        if c == TRUE {
            return;
        }
        if let N::And(v) = &self.x.n[c as usize] {
            let v = v.to_vec();
            for e in v {
                self.add_fact(st, e);
            }
            return;
        }
        if !st.facts.contains(&c) {
            st.facts.push(c);
        }
    }
    /// continue only where c holds (an assumption); returns false if the state is dead
    pub fn assume(&mut self, st: &mut St, c: E) -> bool {
        let c = self.simp(st, c);
        if c == TRUE {
            return true;
        }
        let g = self.x.implies(st.pc, c);
        self.assumes.push(g);
        if c == FALSE {
            return false;
        }
        if st.pc == TRUE {
            let mut w = vec![c];
            while let Some(e) = w.pop() {
                self.gfacts.insert(e);
                if let N::And(v) = &self.x.n[e as usize] {
                    w.extend(v.iter());
                }
            }
        } else {
            self.add_fact(st, c);
            st.pc = self.x.and(st.pc, c);
        }
        true
    }
    pub fn oblige(&mut self, st: &mut St, kind: Kind, label: &str, c: E) {
        let c = self.simp(st, c);
        if kind == Kind::Ub && (c == TRUE || !self.opts.ub) {
            return;
        }
        let func = self.fname();
        if kind == Kind::Safety && c != TRUE && !self.opts.nosafety.is_empty() {
            let d = self.opts.demangled.get(&func).cloned().unwrap_or(func.clone());
            if self.opts.nosafety.iter().any(|p| d.contains(p)) {
                return;
            }
        }
        let pc = st.pc;
        let n = self.assumes.len();
        self.obligs.push(Oblig { label: label.to_string(), kind, pc, cond: c, n_assume: n, func });
    }

    // ---------- operands
    fn konst(&mut self, op: &Op, ty: &Ty, mem: &mut Mem) -> Val {
        let m = self.m.clone();
        match op {
            Op::Int(w, v) => Val::I(self.x.c(*w, *v)),
            Op::Fp(w, v) => Val::I(self.x.c(*w, *v)),
            Op::Null => {
                let z = self.x.c(64, 0);
                Val::P(0, z)
            }
            Op::Undef(_) => Val::U,
            Op::Zero(_) => self.zero(ty),
            Op::Agg(t, v) => {
                let t = t.clone();
                let l: Vec<Val> = match m.res(&t) {
                    Ty::Vec(_, et) | Ty::Arr(_, et) => v.iter().map(|o| self.konst(o, et, mem)).collect(),
                    Ty::Struct(ts, _) => v.iter().enumerate().map(|(k, o)| self.konst(o, &ts[k], mem)).collect(),
                    _ => return stop("agg const"),
                };
                Val::V(Rc::new(l))
            }
            Op::Str(s) => {
                let l: Vec<Val> = s.iter().map(|b| Val::I(self.x.c(8, *b as u128))).collect();
                Val::V(Rc::new(l))
            }
            Op::Global(g) => self.gptr(*g, mem),
            Op::Cast(k, o, f, t) => {
                let v = self.konst(o, f, mem);
                self.cast(**k, &v, f, t)
            }
            Op::Gep(t, v) => {
                let base = self.konst(&v[0].1, &v[0].0, mem);
                let idx: Vec<(Ty, Val)> = v[1..].iter().map(|(t, o)| (t.clone(), self.konst(o, t, mem))).collect();
                self.gep(t, &base, &idx)
            }
            Op::Bin(k, a, b, t) => {
                let x = self.konst(a, t, mem);
                let y = self.konst(b, t, mem);
                let (x, y) = (self.ptr_int(&x), self.ptr_int(&y));
                Val::I(match k.as_str() {
                    "add" => self.x.add(x, y),
                    "sub" => self.x.sub(x, y),
                    "mul" => self.x.mul(x, y),
                    "and" => self.x.and(x, y),
                    "or" => self.x.or(x, y),
                    "xor" => self.x.xor(x, y),
                    "shl" => self.x.shl(x, y),
                    _ => return stop("const bin"),
                })
            }
            _ => stop(format!("const operand {:?}", op)),
        }
    }
    fn zero(&mut self, ty: &Ty) -> Val {
        let m = self.m.clone();
        match m.res(ty) {
            Ty::Vec(n, t) => {
                let z = self.zero(t);
                Val::V(Rc::new(vec![z; *n as usize]))
            }
            Ty::Arr(n, t) => {
                let z = self.zero(t);
                Val::V(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(ts, _) => {
                let l: Vec<Val> = ts.iter().map(|t| self.zero(t)).collect();
                Val::V(Rc::new(l))
            }
            Ty::Ptr => {
                let z = self.x.c(64, 0);
                Val::P(0, z)
            }
            t => {
                let w = m.bits(t);
                Val::I(self.x.c(w, 0))
            }
        }
    }
    #[inline]
    fn val(&mut self, st: &mut St, op: &Op, ty: &Ty) -> Val {
        match op {
            Op::Local(s) => st.env[*s as usize].clone(),
            Op::Int(w, v) => Val::I(self.x.c(*w, *v)),
            _ => self.konst(op, ty, &mut st.mem),
        }
    }
    fn int(&mut self, st: &mut St, op: &Op, ty: &Ty) -> E {
        match self.val(st, op, ty) {
            Val::I(e) => e,
            Val::U => {
                let w = self.m.bits(ty);
                self.undef(w)
            }
            Val::V(_) => stop("vector where a scalar was expected"),
            p => self.ptr_int(&p),
        }
    }
    pub fn gep(&mut self, ty: &Ty, base: &Val, idx: &[(Ty, Val)]) -> Val {
        let m = self.m.clone();
        let mut off = self.x.c(64, 0);
        let mut t = ty.clone();
        for (k, (_, v)) in idx.iter().enumerate() {
            let i = match v {
                Val::I(e) => *e,
                Val::U => self.undef(64),
                p => self.ptr_int(p),
            };
            if k == 0 {
                let sz = m.size(&t);
                let i = self.x.sext(i, 64);
                let s = self.c64(sz as i64);
                let p = self.x.mul(i, s);
                off = self.x.add(off, p);
            } else {
                let rt = m.res(&t).clone();
                match rt {
                    Ty::Struct(ts, p) => {
                        let f = self.x.cv(i).unwrap() as usize;
                        let fo = m.field_off(&ts, p, f);
                        let c = self.c64(fo as i64);
                        off = self.x.add(off, c);
                        t = ts[f].clone();
                    }
                    Ty::Arr(_, et) | Ty::Vec(_, et) => {
                        let sz = m.size(&et);
                        let i = self.x.sext(i, 64);
                        let s = self.c64(sz as i64);
                        let p = self.x.mul(i, s);
                        off = self.x.add(off, p);
                        t = (*et).clone();
                    }
                    _ => return stop("gep into scalar"),
                }
            }
        }
        self.ptr_add(base, off)
    }
    pub fn ptr_add(&mut self, base: &Val, off: E) -> Val {
        match base {
            Val::P(o, f) => Val::P(*o, self.x.add(*f, off)),
            Val::PS(v) => {
                let l: Vec<(E, u32, E)> = v.iter().map(|(g, o, f)| (*g, *o, self.x.add(*f, off))).collect();
                Val::PS(Rc::new(l))
            }
            Val::U => Val::U,
            Val::I(_) => {
                let p = self.int_to_ptr(base);
                self.ptr_add(&p, off)
            }
            _ => stop("pointer arithmetic on a vector"),
        }
    }
    // ---------- memory access through pointers
    fn lin_terms(&mut self, e: E) -> (i64, Vec<(u64, E)>) {
        match self.x.n[e as usize].clone() {
            N::C(v) => (v as u64 as i64, vec![]),
            N::Lin(c, ts) => {
                let mut out = vec![];
                for (k, t) in ts.iter() {
                    out.push((*k as u64, *t));
                }
                (c as u64 as i64, out)
            }
            N::Concat(ps) => {
                let last = *ps.last().unwrap();
                if let N::C(v) = self.x.n[last as usize] {
                    let lw = self.x.width(last);
                    if lw < 60 {
                        let mut q: Vec<E> = vec![self.x.c(lw, 0)];
                        q.extend(ps[..ps.len() - 1].iter());
                        let y = self.x.concat(q);
                        return (v as i64, vec![(1u64 << lw, y)]);
                    }
                }
                (0, vec![(1, e)])
            }
            N::Ite(_, _, _) => (0, vec![(1, e)]),
            _ => (0, vec![(1, e)]),
        }
    }
    /// enumerate the concrete values of an offset: calls f for each, combining with a bit mux.
    fn mux_load(&mut self, mem: &Mem, id: u32, off: E, ty: &Ty, n: u64, size: u64) -> Val {
        if let Some(v) = self.x.cv(off) {
            return self.load_at(mem, id, v as u64, ty);
        }
        // ite offsets
        if let N::Ite(c, a, b) = self.x.n[off as usize] {
            let inb = |s: &Exec, e: E| s.x.cv(e).map(|v| v as u64 <= size - n).unwrap_or(true);
            if inb(self, a) && inb(self, b) {
                let x = self.mux_load(mem, id, a, ty, n, size);
                let y = self.mux_load(mem, id, b, ty, n, size);
                return self.merge_val(c, &x, &y);
            }
        }
        let (c0, ts) = self.lin_terms(off);
        if ts.len() == 1 {
            let (k, t) = ts[0];
            let r = self.x.r[t as usize];
            // candidate term values with in-bounds offset
            let ks = k as i64;
            let maxoff = (size - n) as i128;
            let (mut lo, mut hi) = (r.slo as i128, r.shi as i128);
            // c0 + ks*t in [0,maxoff]
            if ks > 0 {
                let l2 = (-(c0 as i128)).div_euclid(ks as i128) + if (-(c0 as i128)).rem_euclid(ks as i128) != 0 { 1 } else { 0 };
                let h2 = (maxoff - c0 as i128).div_euclid(ks as i128);
                lo = lo.max(l2);
                hi = hi.min(h2);
            } else if ks < 0 {
                let k2 = -(ks as i128);
                // c0 - k2*t <= maxoff  => t >= (c0-maxoff)/k2 ; >= 0 => t <= c0/k2
                let a = c0 as i128 - maxoff;
                let l2 = a.div_euclid(k2) + if a.rem_euclid(k2) != 0 { 1 } else { 0 };
                let h2 = (c0 as i128).div_euclid(k2);
                lo = lo.max(l2);
                hi = hi.min(h2);
            }
            if lo > hi {
                return Val::U;
            }
            let cnt = (hi - lo + 1) as u64;
            if cnt > 1 << 17 {
                return stop(format!("symbolic load over {} places", cnt));
            }
            let vals: Vec<Val> = (0..cnt).map(|j| self.load_at(mem, id, (c0 as i128 + ks as i128 * (lo + j as i128)) as u64, ty)).collect();
            // index term, rebased to zero
            let lo_e = self.c64(lo as i64);
            let idx = self.x.sub(t, lo_e);
            let bits = (64 - (cnt - 1).leading_zeros()).max(1);
            let idx = self.x.ext(idx, 0, bits);
            return self.mux(&vals, idx, bits);
        }
        // several terms: enumerate the one with the smallest range
        let mut best: Option<(usize, u64)> = None;
        for (i, (_, t)) in ts.iter().enumerate() {
            let r = self.x.r[*t as usize];
            let cnt = (r.shi as i128 - r.slo as i128 + 1).min(u64::MAX as i128) as u64;
            if best.is_none() || cnt < best.unwrap().1 {
                best = Some((i, cnt));
            }
        }
        let (bi, cnt) = best.unwrap();
        if cnt > 4096 {
            return stop("symbolic offset with several wide terms");
        }
        let (k, t) = ts[bi];
        let r = self.x.r[t as usize];
        let rest: Vec<(u128, E)> = ts.iter().enumerate().filter(|(i, _)| *i != bi).map(|(_, (k, e))| (*k as u128, *e)).collect();
        let mut vals = vec![];
        for v in r.slo..=r.shi {
            let c = (c0 as i128 + (k as i64) as i128 * v as i128) as u64;
            let o = self.x.lin(64, c as u128, rest.clone());
            // offsets entirely out of bounds contribute nothing
            let ro = self.x.r[o as usize];
            if ro.slo > (size - n) as i64 || ro.shi < 0 {
                vals.push(Val::U);
                continue;
            }
            vals.push(self.mux_load(mem, id, o, ty, n, size));
        }
        let lo_e = self.c64(r.slo);
        let idx = self.x.sub(t, lo_e);
        let bits = (64 - (cnt - 1).leading_zeros()).max(1);
        let idx = self.x.ext(idx, 0, bits);
        self.mux(&vals, idx, bits)
    }
    fn mux(&mut self, vals: &[Val], idx: E, bits: u32) -> Val {
        if vals.len() == 1 {
            return vals[0].clone();
        }
        // all constants: table
        let mut cs = vec![];
        let mut w = 0;
        for v in vals {
            match v {
                Val::I(e) if self.x.width(*e) <= 64 => {
                    if let Some(c) = self.x.cv(*e) {
                        cs.push(c as u64);
                        w = self.x.width(*e);
                        continue;
                    }
                }
                _ => {}
            }
            break;
        }
        if cs.len() == vals.len() {
            let t = self.x.table(w, cs);
            return Val::I(self.x.look(t, idx));
        }
        if let Val::V(_) = &vals[0] {
            // lane-wise, so that constant lanes become tables
            if let Some(n) = vals.iter().find_map(|v| if let Val::V(l) = v { Some(l.len()) } else { None }) {
                let mut out = vec![];
                for k in 0..n {
                    let col: Vec<Val> = vals.iter().map(|v| if let Val::V(l) = v { l[k].clone() } else { Val::U }).collect();
                    out.push(self.mux(&col, idx, bits));
                }
                return Val::V(Rc::new(out));
            }
        }
        let half = 1usize << (bits - 1);
        if vals.len() <= half {
            let i2 = self.x.ext(idx, 0, bits - 1);
            return self.mux(vals, i2, bits - 1);
        }
        let b = self.x.ext(idx, bits - 1, 1);
        if bits == 1 {
            return self.merge_val(b, &vals[1], &vals[0]);
        }
        let i2 = self.x.ext(idx, 0, bits - 1);
        if b == TRUE {
            return self.mux(&vals[half..], i2, bits - 1);
        }
        let l = self.mux(&vals[..half], i2, bits - 1);
        if b == FALSE {
            return l;
        }
        let h = self.mux(&vals[half..], i2, bits - 1);
        self.merge_val(b, &h, &l)
    }
    fn bounds_ok(&mut self, st: &mut St, id: u32, off: E, n: u64, what: &str) -> bool {
        let size = self.oi[id as usize].size;
        if id == 0 || self.oi[id as usize].func.is_some() {
            self.oblige(st, Kind::Safety, &format!("{} through a null pointer", what), FALSE);
            return false;
        }
        if self.oi[id as usize].freed {
            self.oblige(st, Kind::Safety, &format!("{} after free", what), FALSE);
            return false;
        }
        if n > size {
            self.oblige(st, Kind::Safety, &format!("{} outside {}", what, self.oi[id as usize].name.clone()), FALSE);
            return false;
        }
        let r = self.x.r[off as usize];
        if r.slo >= 0 && r.shi as u64 <= size - n {
            return true;
        }
        let lim = self.c64((size - n) as i64);
        let c = self.x.ule(off, lim);
        let nm = self.oi[id as usize].name.clone();
        self.oblige(st, Kind::Safety, &format!("{} outside {} ({} bytes)", what, nm, size), c);
        let c = self.simp(st, c);
        if c == FALSE {
            self.assume(st, c);
            return false;
        }
        true
    }
    /// None: the state is dead
    pub fn load(&mut self, st: &mut St, p: &Val, ty: &Ty) -> Option<Val> {
        let n = self.m.size(ty);
        match p {
            Val::P(o, f) => {
                if !self.bounds_ok(st, *o, *f, n, "load") {
                    return None;
                }
                if let Some(v) = self.x.cv(*f) {
                    return Some(self.load_at(&st.mem, *o, v as u64, ty));
                }
                let size = self.oi[*o as usize].size;
                let mem = st.mem.clone();
                Some(self.mux_load(&mem, *o, *f, ty, n, size))
            }
            Val::PS(l) => {
                let l = l.clone();
                let mut r: Option<Val> = None;
                for (g, o, f) in l.iter().rev() {
                    if *o == 0 {
                        let ng = self.x.not(*g);
                        self.oblige(st, Kind::Safety, "load through a null pointer", ng);
                        if !self.assume(st, ng) {
                            return None;
                        }
                        continue;
                    }
                    // bounds under the guard
                    let size = self.oi[*o as usize].size;
                    let rr = self.x.r[*f as usize];
                    if !(rr.slo >= 0 && size >= n && rr.shi as u64 <= size - n) {
                        let lim = self.c64(size as i64 - n as i64);
                        let c = self.x.ule(*f, lim);
                        let c = self.x.implies(*g, c);
                        self.oblige(st, Kind::Safety, "load outside an object", c);
                        if self.x.cv(*f).is_some() {
                            continue;
                        }
                    }
                    let mem = st.mem.clone();
                    let v = self.mux_load(&mem, *o, *f, ty, n, size);
                    r = Some(match r {
                        None => v,
                        Some(x) => self.merge_val(*g, &v, &x),
                    });
                }
                r
            }
            Val::U => {
                self.oblige(st, Kind::Safety, "load through an uninitialised pointer", FALSE);
                None
            }
            Val::I(_) => {
                let q = self.int_to_ptr(p);
                self.load(st, &q, ty)
            }
            _ => stop("load through a vector"),
        }
    }
    fn guarded_store(&mut self, st: &mut St, g: E, id: u32, off: u64, ty: &Ty, v: &Val) {
        if g == TRUE {
            let mut mem = std::mem::take(&mut st.mem);
            self.store_at(&mut mem, id, off, ty, v);
            st.mem = mem;
            return;
        }
        let old = self.load_raw(&st.mem, id, off, ty);
        let nv = self.merge_val(g, v, &old);
        let mut mem = std::mem::take(&mut st.mem);
        self.store_at(&mut mem, id, off, ty, &nv);
        st.mem = mem;
    }
    // load for a read-modify-write: undefined bytes become fresh values
    fn load_raw(&mut self, mem: &Mem, id: u32, off: u64, ty: &Ty) -> Val {
        self.load_at(mem, id, off, ty)
    }
    fn enum_offsets(&mut self, off: E, n: u64, size: u64) -> Vec<(E, u64)> {
        // list of (condition, concrete offset)
        if let Some(v) = self.x.cv(off) {
            return vec![(TRUE, v as u64)];
        }
        if let N::Ite(c, a, b) = self.x.n[off as usize] {
            let nc = self.x.not(c);
            let mut out = vec![];
            for (g, l) in [(c, self.enum_offsets(a, n, size)), (nc, self.enum_offsets(b, n, size))] {
                for (h, o) in l {
                    let gg = self.x.and(g, h);
                    if gg != FALSE {
                        out.push((gg, o));
                    }
                }
            }
            return out;
        }
        let (c0, ts) = self.lin_terms(off);
        let mut g = 0u64;
        for (k, _) in &ts {
            g = gcd(g, (*k as i64).unsigned_abs());
        }
        let g = g.max(1);
        let r = self.x.r[off as usize];
        let (mut lo, hi) = ((r.slo as i128).max(0), (r.shi as i128).min(size as i128 - n as i128));
        let rem = (c0 as i128).rem_euclid(g as i128);
        // first offset >= lo congruent to c0 modulo g
        let d = (rem - lo.rem_euclid(g as i128)).rem_euclid(g as i128);
        lo += d;
        let mut out = vec![];
        let mut o = lo;
        if (hi - lo) / g as i128 > 8192 {
            return stop("symbolic store over too many places");
        }
        while o <= hi {
            let k = self.c64(o as i64);
            let c = self.x.eq(off, k);
            if c != FALSE {
                out.push((c, o as u64));
            }
            o += g as i128;
        }
        out
    }
    pub fn store(&mut self, st: &mut St, p: &Val, ty: &Ty, v: &Val) -> bool {
        let n = self.m.size(ty);
        match p {
            Val::P(o, f) => {
                if !self.bounds_ok(st, *o, *f, n, "store") {
                    return false;
                }
                if self.oi[*o as usize].constant {
                    self.oblige(st, Kind::Safety, "store to a constant", FALSE);
                    return false;
                }
                if let Some(c) = self.x.cv(*f) {
                    let mut mem = std::mem::take(&mut st.mem);
                    self.store_at(&mut mem, *o, c as u64, ty, v);
                    st.mem = mem;
                    return true;
                }
                let size = self.oi[*o as usize].size;
                for (g, c) in self.enum_offsets(*f, n, size) {
                    let g = self.simp(st, g);
                    if g != FALSE {
                        self.guarded_store(st, g, *o, c, ty, v);
                    }
                }
                true
            }
            Val::PS(l) => {
                let l = l.clone();
                for (g, o, f) in l.iter() {
                    let ng = self.x.not(*g);
                    if *o == 0 {
                        self.oblige(st, Kind::Safety, "store through a null pointer", ng);
                        if !self.assume(st, ng) {
                            return false;
                        }
                        continue;
                    }
                    let size = self.oi[*o as usize].size;
                    let rr = self.x.r[*f as usize];
                    if !(rr.slo >= 0 && size >= n && rr.shi as u64 <= size - n) {
                        let lim = self.c64(size as i64 - n as i64);
                        let c = self.x.ule(*f, lim);
                        let c = self.x.implies(*g, c);
                        self.oblige(st, Kind::Safety, "store outside an object", c);
                    }
                    for (h, c) in self.enum_offsets(*f, n, size) {
                        let gg = self.x.and(*g, h);
                        if gg != FALSE {
                            self.guarded_store(st, gg, *o, c, ty, v);
                        }
                    }
                }
                true
            }
            Val::U => {
                self.oblige(st, Kind::Safety, "store through an uninitialised pointer", FALSE);
                false
            }
            Val::I(_) => {
                let q = self.int_to_ptr(p);
                self.store(st, &q, ty, v)
            }
            _ => stop("store through a vector"),
        }
    }
    pub fn memcpy(&mut self, st: &mut St, d: &Val, s: &Val, n: E) -> bool {
        let n = match self.x.cv(n) {
            Some(n) => n as u64,
            None => return self.memcpy_sym(st, d, s, n),
        };
        if n == 0 {
            return true;
        }
        if let (Val::P(od, fd), Val::P(os, fs)) = (d, s) {
            if let (Some(a), Some(b)) = (self.x.cv(*fd), self.x.cv(*fs)) {
                if !self.bounds_ok(st, *od, *fd, n, "memcpy") || !self.bounds_ok(st, *os, *fs, n, "memcpy") {
                    return false;
                }
                if self.oi[*od as usize].constant {
                    self.oblige(st, Kind::Safety, "store to a constant", FALSE);
                    return false;
                }
                let cells: Vec<Cell> = (0..n).map(|k| self.cell(&st.mem, *os, b as u64 + k)).collect();
                let mut mem = std::mem::take(&mut st.mem);
                for k in 0..n {
                    self.put(&mut mem, *od, a as u64 + k, cells[k as usize]);
                }
                st.mem = mem;
                return true;
            }
        }
        // generic: a byte vector (integers of 8..64 bits when it fits)
        let ty = match n {
            1 | 2 | 4 | 8 => Ty::Int(n as u32 * 8),
            _ => Ty::Arr(n, Box::new(Ty::Int(8))),
        };
        // pointers inside would be torn; only plain data reaches this path
        match self.load(st, s, &ty) {
            None => false,
            Some(v) => self.store(st, d, &ty, &v),
        }
    }
    fn memcpy_sym(&mut self, st: &mut St, d: &Val, s: &Val, n: E) -> bool {
        let r = self.x.r[n as usize];
        if r.uhi > 4096 {
            return stop("memcpy of symbolic size");
        }
        let mut old = vec![];
        for k in 0..r.uhi {
            let kk = self.c64(k as i64);
            let g = self.x.ult(kk, n);
            let g = self.simp(st, g);
            if g == FALSE {
                continue;
            }
            old.push((k, g));
        }
        // read everything first
        let mut vals = vec![];
        for (k, g) in &old {
            let kk = self.c64(*k as i64);
            let sp = self.ptr_add(s, kk);
            let mut t = st.fork();
            self.add_fact(&mut t, *g);
            t.pc = self.x.and(st.pc, *g);
            let in_range = if let Val::P(o, f) = &sp { self.x.cv(*f).map(|v| (v as u64) < self.oi[*o as usize].size).unwrap_or(true) } else { true };
            let v = if in_range { self.load(&mut t, &sp, &Ty::Int(8)) } else { self.oblige(&mut t, Kind::Safety, "memcpy source out of range", FALSE); None };
            vals.push(v);
        }
        for ((k, g), v) in old.iter().zip(vals) {
            let kk = self.c64(*k as i64);
            let dp = self.ptr_add(d, kk);
            if let (Some(v), Val::P(o, f)) = (v, &dp) {
                if let Some(c) = self.x.cv(*f) {
                    if (c as u64) < self.oi[*o as usize].size {
                        self.guarded_store(st, *g, *o, c as u64, &Ty::Int(8), &v);
                    } else {
                        let ng = self.x.not(*g);
                        self.oblige(st, Kind::Safety, "memcpy destination out of range", ng);
                    }
                    continue;
                }
            }
            return stop("memcpy with symbolic size and place");
        }
        true
    }
    pub fn memset(&mut self, st: &mut St, d: &Val, b: E, n: E) -> bool {
        let n = match self.x.cv(n) {
            Some(n) => n as u64,
            None => return stop("memset of symbolic size"),
        };
        if n == 0 {
            return true;
        }
        if let Val::P(o, f) = d {
            if let Some(a) = self.x.cv(*f) {
                if !self.bounds_ok(st, *o, *f, n, "memset") {
                    return false;
                }
                let mut mem = std::mem::take(&mut st.mem);
                for k in 0..n {
                    self.put(&mut mem, *o, a as u64 + k, Cell { t: 1, k: 0, id: b });
                }
                st.mem = mem;
                return true;
            }
        }
        for k in 0..n {
            let kk = self.c64(k as i64);
            let p = self.ptr_add(d, kk);
            if !self.store(st, &p, &Ty::Int(8), &Val::I(b)) {
                return false;
            }
        }
        true
    }
    pub fn cstr(&mut self, st: &St, p: &Val) -> String {
        let mut s = String::new();
        if let Val::P(o, f) = p {
            if let Some(mut k) = self.x.cv(*f) {
                while (k as u64) < self.oi[*o as usize].size {
                    let c = self.cell(&st.mem, *o, k as u64);
                    if c.t != 1 {
                        break;
                    }
                    let b = self.x.ext(c.id, c.k as u32 * 8, 8);
                    match self.x.cv(b) {
                        Some(0) | None => break,
                        Some(v) => s.push(v as u8 as char),
                    }
                    k += 1;
                }
            }
        }
        s
    }

    // ---------- casts and arithmetic
    fn cast(&mut self, k: CastK, v: &Val, from: &Ty, to: &Ty) -> Val {
        let m = self.m.clone();
        match k {
            CastK::Bitcast => return self.bitcast(v, from, to),
            CastK::AddrSpace => return v.clone(),
            CastK::PtrToInt => {
                let e = self.ptr_int(v);
                let w = m.bits(to);
                return Val::I(self.x.zext_or_trunc(e, w));
            }
            CastK::IntToPtr => return self.int_to_ptr(v),
            _ => {}
        }
        if let Ty::Vec(_, ft) = m.res(from) {
            let tt = match m.res(to) {
                Ty::Vec(_, t) => t.clone(),
                _ => return stop("cast"),
            };
            let l = self.lanes(v, from);
            let r: Vec<E> = l.iter().map(|e| self.cast1(k, *e, ft, &tt)).collect();
            return Self::mkvec(r);
        }
        match v {
            Val::U => {
                let w = m.bits(from);
                let e = self.undef(w);
                Val::I(self.cast1(k, e, from, to))
            }
            Val::I(e) => Val::I(self.cast1(k, *e, from, to)),
            p => {
                let e = self.ptr_int(p);
                Val::I(self.cast1(k, e, from, to))
            }
        }
    }
    fn cast1(&mut self, k: CastK, e: E, _from: &Ty, to: &Ty) -> E {
        let w = self.m.bits(to);
        match k {
            CastK::Trunc => self.x.ext(e, 0, w),
            CastK::Zext => self.x.zext(e, w),
            CastK::Sext => self.x.sext(e, w),
            CastK::FpTrunc | CastK::FpExt => self.x.fp(w, Fop::ToF(w), vec![e]),
            CastK::SiToFp => self.x.fp(w, Fop::FromS, vec![e]),
            CastK::UiToFp => self.x.fp(w, Fop::FromU, vec![e]),
            CastK::FpToSi => self.x.fp(w, Fop::ToS, vec![e]),
            CastK::FpToUi => self.x.fp(w, Fop::ToU, vec![e]),
            _ => stop("cast1"),
        }
    }
    fn bin1(&mut self, st: &mut St, k: BinK, a: E, b: E, nsw: bool, nuw: bool) -> Option<E> {
        let w = self.x.width(a);
        let _ = nuw;
        if nsw && self.opts.ub && w <= 64 && matches!(k, BinK::Add | BinK::Sub | BinK::Mul) {
            let w2 = if k == BinK::Mul { w * 2 } else { w + 1 };
            if w2 <= 128 {
                let x = self.x.sext(a, w2);
                let y = self.x.sext(b, w2);
                let wide = match k {
                    BinK::Add => self.x.add(x, y),
                    BinK::Sub => self.x.sub(x, y),
                    _ => self.x.mul(x, y),
                };
                let (ra, rb) = (self.x.r[a as usize], self.x.r[b as usize]);
                let half = 1i128 << (w - 1);
                let (lo, hi) = match k {
                    BinK::Add => (ra.slo as i128 + rb.slo as i128, ra.shi as i128 + rb.shi as i128),
                    BinK::Sub => (ra.slo as i128 - rb.shi as i128, ra.shi as i128 - rb.slo as i128),
                    _ => {
                        let p = [ra.slo as i128 * rb.slo as i128, ra.slo as i128 * rb.shi as i128, ra.shi as i128 * rb.slo as i128, ra.shi as i128 * rb.shi as i128];
                        (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                    }
                };
                if lo < -half || hi >= half {
                    let nar = self.x.ext(wide, 0, w);
                    let back = self.x.sext(nar, w2);
                    let c = self.x.eq(back, wide);
                    self.oblige(st, Kind::Ub, "signed overflow", c);
                }
            }
        }
        Some(match k {
            BinK::Add => self.x.add(a, b),
            BinK::Sub => self.x.sub(a, b),
            BinK::Mul => self.x.mul(a, b),
            BinK::And => self.x.and(a, b),
            BinK::Or => self.x.or(a, b),
            BinK::Xor => self.x.xor(a, b),
            BinK::Shl | BinK::LShr | BinK::AShr => {
                if self.opts.ub && self.x.r[b as usize].uhi >= w as u64 {
                    let lim = self.x.c(w, w as u128);
                    let c = self.x.ult(b, lim);
                    self.oblige(st, Kind::Ub, "shift amount", c);
                }
                match k {
                    BinK::Shl => self.x.shl(a, b),
                    BinK::LShr => self.x.lshr(a, b),
                    _ => self.x.ashr(a, b),
                }
            }
            BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem => {
                let z = self.x.c(w, 0);
                let c = self.x.ne(b, z);
                if c != TRUE {
                    self.oblige(st, Kind::Safety, "division by zero", c);
                    if !self.assume(st, c) {
                        return None;
                    }
                }
                match k {
                    BinK::UDiv => self.x.udiv(a, b),
                    BinK::URem => self.x.urem(a, b),
                    BinK::SDiv => self.x.sdiv(a, b),
                    _ => self.x.srem(a, b),
                }
            }
            BinK::FAdd => self.x.fp(w, Fop::Add, vec![a, b]),
            BinK::FSub => self.x.fp(w, Fop::Sub, vec![a, b]),
            BinK::FMul => self.x.fp(w, Fop::Mul, vec![a, b]),
            BinK::FDiv => self.x.fp(w, Fop::Div, vec![a, b]),
            BinK::FRem => return stop("frem"),
        })
    }
    fn icmp1(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.x.eq(a, b),
            Pred::Ne => self.x.ne(a, b),
            Pred::Ult => self.x.ult(a, b),
            Pred::Ule => self.x.ule(a, b),
            Pred::Ugt => self.x.ult(b, a),
            Pred::Uge => self.x.ule(b, a),
            Pred::Slt => self.x.slt(a, b),
            Pred::Sle => self.x.sle(a, b),
            Pred::Sgt => self.x.slt(b, a),
            Pred::Sge => self.x.sle(b, a),
        }
    }
    fn ptr_cmp(&mut self, p: Pred, a: &Val, b: &Val) -> E {
        let items = |v: &Val| -> Vec<(E, u32, E)> {
            match v {
                Val::P(o, f) => vec![(TRUE, *o, *f)],
                Val::PS(l) => l.to_vec(),
                _ => vec![],
            }
        };
        if matches!(a, Val::I(_) | Val::U) || matches!(b, Val::I(_) | Val::U) {
            let x = self.ptr_int(a);
            let y = self.ptr_int(b);
            return self.icmp1(p, x, y);
        }
        let (la, lb) = (items(a), items(b));
        let mut r = FALSE;
        for (g, o, f) in &la {
            for (h, q, e) in &lb {
                let c = if o == q {
                    self.icmp1(p, *f, *e)
                } else {
                    match p {
                        Pred::Eq => FALSE,
                        Pred::Ne => TRUE,
                        _ => {
                            let x = self.base_of(*o);
                            let x = self.x.add(x, *f);
                            let y = self.base_of(*q);
                            let y = self.x.add(y, *e);
                            self.icmp1(p, x, y)
                        }
                    }
                };
                let gh = self.x.and(*g, *h);
                let t = self.x.and(gh, c);
                r = self.x.or(r, t);
            }
        }
        r
    }

    // ---------- control flow
    fn enter(&mut self, st: &mut St, fi: usize, from: u32, to: u32) {
        // evaluate the phis of `to` for the edge from -> to
        let m = self.m.clone();
        let b = &m.funcs[fi].blocks[to as usize];
        let mut vals: Vec<(u32, Val)> = vec![];
        for (d, i) in &b.insts {
            if let Inst::Phi { ty, inc } = i {
                let (o, _) = match inc.iter().find(|x| x.1 == from) {
                    Some(x) => x,
                    None => return stop("phi without edge"),
                };
                let mut v = self.val(st, o, ty);
                if v == Val::U && matches!(o, Op::Undef(_)) {
                    // an uninitialised variable: any value
                    match m.res(ty) {
                        Ty::Int(_) | Ty::Float | Ty::Double => {
                            let w = m.bits(ty);
                            v = Val::I(self.undef(w));
                        }
                        Ty::Vec(..) => {
                            let l = self.lanes(&v, ty);
                            v = Self::mkvec(l);
                        }
                        _ => {}
                    }
                }
                vals.push((d.unwrap(), v));
            } else {
                break;
            }
        }
        for (d, v) in vals {
            st.env[d as usize] = v;
        }
    }

    /// run from block b (phis done) up to block `stop_at` (phis done, not executed) or the function's exit
    fn region(&mut self, mut st: St, fi: usize, b: u32, stop_at: u32) -> Option<St> {
        let m = self.m.clone();
        let f = &m.funcs[fi];
        let exit = f.blocks.len() as u32;
        let mut b = b;
        loop {
            if b == stop_at {
                return Some(st);
            }
            let blk = &f.blocks[b as usize];
            let n = blk.insts.len();
            for k in 0..n - 1 {
                let (d, i) = &blk.insts[k];
                if let Inst::Phi { .. } = i {
                    continue;
                }
                if !self.inst(&mut st, d, i) {
                    return None;
                }
            }
            self.steps += n as u64;
            if self.steps > self.opts.max_steps {
                return stop("step limit");
            }
            if self.steps & 0xfff < n as u64 {
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        return stop("time limit in symbolic execution");
                    }
                }
            }
            match &blk.insts[n - 1].1 {
                Inst::Br { t } => {
                    self.enter(&mut st, fi, b, *t);
                    b = *t;
                }
                Inst::CondBr { c, t, f: fl } => {
                    let cond = self.int(&mut st, c, &Ty::Int(1));
                    let cond = self.simp(&st, cond);
                    if cond == TRUE || *t == *fl {
                        self.enter(&mut st, fi, b, *t);
                        b = *t;
                        continue;
                    }
                    if cond == FALSE {
                        self.enter(&mut st, fi, b, *fl);
                        b = *fl;
                        continue;
                    }
                    if let Some(dir) = self.decide(&mut st, fi, b, cond) {
                        let (to, fact) = if dir { (*t, cond) } else { (*fl, self.x.not(cond)) };
                        self.add_fact(&mut st, fact);
                        self.enter(&mut st, fi, b, to);
                        b = to;
                        continue;
                    }
                    let j = f.ipdom[b as usize];
                    let nc = self.x.not(cond);
                    let ppc = st.pc;
                    let pfacts = st.facts.clone();
                    let mut s1 = st.fork();
                    s1.pc = self.x.and(st.pc, cond);
                    self.add_fact(&mut s1, cond);
                    self.enter(&mut s1, fi, b, *t);
                    let mut s2 = st;
                    s2.pc = self.x.and(s2.pc, nc);
                    self.add_fact(&mut s2, nc);
                    self.enter(&mut s2, fi, b, *fl);
                    let (p1, p2) = (s1.pc, s2.pc);
                    let r1 = self.region(s1, fi, *t, j);
                    if r1.is_none() {
                        let np = self.x.not(p1);
                        self.assumes.push(np);
                    }
                    let r2 = self.region(s2, fi, *fl, j);
                    if r2.is_none() {
                        let np = self.x.not(p2);
                        self.assumes.push(np);
                    }
                    match self.merge(cond, r1, r2, ppc, pfacts) {
                        None => return None,
                        Some(s) => st = s,
                    }
                    if j == exit {
                        return Some(st);
                    }
                    b = j;
                }
                Inst::Switch { ty, v, d, cases } => {
                    let e = self.int(&mut st, v, ty);
                    if let Some(c) = self.x.cv(e) {
                        let t = cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*d);
                        self.enter(&mut st, fi, b, t);
                        b = t;
                        continue;
                    }
                    // sequence of guarded alternatives
                    let j = f.ipdom[b as usize];
                    let ppc = st.pc;
                    let pfacts = st.facts.clone();
                    let mut alts: Vec<(E, u32)> = vec![];
                    let mut none = TRUE;
                    let w = self.x.width(e);
                    for (c, t) in cases {
                        let k = self.x.c(w, *c);
                        let q = self.x.eq(e, k);
                        let q = self.simp(&st, q);
                        if q != FALSE {
                            alts.push((q, *t));
                        }
                        let nq = self.x.not(q);
                        none = self.x.and(none, nq);
                    }
                    let none = self.simp(&st, none);
                    if none != FALSE {
                        alts.push((none, *d));
                    }
                    let mut acc: Option<St> = None;
                    for (q, t) in alts {
                        let mut s = st.fork();
                        s.pc = self.x.and(st.pc, q);
                        self.add_fact(&mut s, q);
                        self.enter(&mut s, fi, b, t);
                        let p = s.pc;
                        let r = self.region(s, fi, t, j);
                        if r.is_none() {
                            let np = self.x.not(p);
                            self.assumes.push(np);
                            continue;
                        }
                        acc = match acc {
                            None => r,
                            some => self.merge(q, r, some, ppc, pfacts.clone()),
                        };
                    }
                    match acc {
                        None => return None,
                        Some(s) => st = s,
                    }
                    if j == exit {
                        return Some(st);
                    }
                    b = j;
                }
                Inst::Ret { v } => {
                    st.ret = Some(match v {
                        None => Val::U,
                        Some((t, o)) => self.val(&mut st, o, t),
                    });
                    return Some(st);
                }
                Inst::Unreachable => {
                    self.oblige(&mut st, Kind::Safety, "unreachable code reached", FALSE);
                    return None;
                }
                _ => return stop("terminator"),
            }
        }
    }
    /// can a symbolic branch be decided (infeasible side), or must the run be forked?
    fn decide(&mut self, st: &mut St, fi: usize, b: u32, cond: E) -> Option<bool> {
        let m = self.m.clone();
        let f = &m.funcs[fi];
        let forked = !self.opts.fork.is_empty() && {
            let d = self.opts.demangled.get(&f.name).cloned().unwrap_or(f.name.clone());
            self.opts.fork.iter().any(|p| d.contains(p.as_str()))
        };
        let is_header = f.loops.iter().any(|l| l.body.contains(&b) && f.blocks[b as usize].succs.iter().any(|s| !l.body.contains(s)));
        let check = forked || is_header;
        if check {
            if is_header {
                self.sym_unrolls += 1;
                let it = self.loop_iters.entry((fi, b)).or_insert(0);
                *it += 1;
            }
            if let Some(mut o) = self.oracle.take() {
                self.feas_calls += 1;
                let nc = self.x.not(cond);
                let mut asm = self.assumes.clone();
                asm.push(st.pc);
                let t = o(&mut self.x, &asm, cond);
                let r = if t == Some(false) {
                    Some(false)
                } else if o(&mut self.x, &asm, nc) == Some(false) {
                    Some(true)
                } else {
                    None
                };
                self.oracle = Some(o);
                if let Some(d) = r {
                    return Some(d);
                }
            }
        }
        if forked {
            let k = self.choose(2, "fork");
            let c = if k == 0 { cond } else { self.x.not(cond) };
            self.assume(st, c);
            return Some(k == 0);
        }
        None
    }
    pub fn choose(&mut self, n: u32, name: &str) -> u32 {
        if self.choice_pos >= self.choices.len() {
            self.choices.push((0, n));
        }
        let r = self.choices[self.choice_pos].0;
        self.choices[self.choice_pos].1 = n;
        self.choice_pos += 1;
        self.choice_names.push(format!("{}={}", name, r));
        r
    }

    // ---------- calls
    pub fn call_func(&mut self, st: &mut St, fi: usize, args: Vec<Val>) -> Option<Val> {
        let m = self.m.clone();
        let f = &m.funcs[fi];
        if self.stack.len() > 400 {
            return stop("call depth");
        }
        self.stack.push(fi);
        *self.inlined.entry(f.name.clone()).or_insert(0) += 1;
        let mut env = vec![Val::U; f.nslots as usize];
        for (k, (_, _, s)) in f.params.iter().enumerate() {
            if k < args.len() {
                env[*s as usize] = args[k].clone();
            }
        }
        let first_obj = self.oi.len() as u32;
        let inner = St { mem: std::mem::take(&mut st.mem), env, pc: st.pc, facts: std::mem::take(&mut st.facts), ret: None };
        let exit = f.blocks.len() as u32;
        let r = self.region(inner, fi, 0, exit);
        self.stack.pop();
        match r {
            None => None,
            Some(s) => {
                st.mem = s.mem;
                st.pc = s.pc;
                st.facts = s.facts;
                // stack objects of the frame die
                let oi = &self.oi;
                st.mem.objs.retain(|(id, _)| *id < first_obj || !oi[*id as usize].name.starts_with('%'));
                Some(s.ret.unwrap_or(Val::U))
            }
        }
    }

    fn inst(&mut self, st: &mut St, d: &Option<u32>, i: &Inst) -> bool {
        let m = self.m.clone();
        let v: Val = match i {
            Inst::Bin { k, ty, a, b, nsw, nuw, .. } => {
                if let Ty::Vec(_, _) = m.res(ty) {
                    let x = self.val(st, a, ty);
                    let y = self.val(st, b, ty);
                    let x = self.lanes(&x, ty);
                    let y = self.lanes(&y, ty);
                    let mut r = vec![];
                    for (p, q) in x.iter().zip(y.iter()) {
                        match self.bin1(st, *k, *p, *q, *nsw, *nuw) {
                            Some(e) => r.push(e),
                            None => return false,
                        }
                    }
                    Self::mkvec(r)
                } else {
                    let x = self.int(st, a, ty);
                    let y = self.int(st, b, ty);
                    match self.bin1(st, *k, x, y, *nsw, *nuw) {
                        Some(e) => Val::I(e),
                        None => return false,
                    }
                }
            }
            Inst::FNeg { ty, a } => {
                let x = self.val(st, a, ty);
                let l = self.lanes(&x, ty);
                let r: Vec<E> = l
                    .iter()
                    .map(|e| {
                        let w = self.x.width(*e);
                        let s = self.x.c(w, 1u128 << (w - 1));
                        self.x.xor(*e, s)
                    })
                    .collect();
                if matches!(m.res(ty), Ty::Vec(..)) {
                    Self::mkvec(r)
                } else {
                    Val::I(r[0])
                }
            }
            Inst::ICmp { p, ty, a, b } => {
                let x = self.val(st, a, ty);
                let y = self.val(st, b, ty);
                match m.res(ty) {
                    Ty::Vec(..) => {
                        let x = self.lanes(&x, ty);
                        let y = self.lanes(&y, ty);
                        let r: Vec<E> = x.iter().zip(y.iter()).map(|(s, t)| self.icmp1(*p, *s, *t)).collect();
                        Self::mkvec(r)
                    }
                    Ty::Ptr => Val::I(self.ptr_cmp(*p, &x, &y)),
                    _ => {
                        if matches!(x, Val::P(..) | Val::PS(_)) && matches!(y, Val::P(..) | Val::PS(_)) {
                            Val::I(self.ptr_cmp(*p, &x, &y))
                        } else {
                            let x = self.lanes(&x, ty)[0];
                            let y = self.lanes(&y, ty)[0];
                            Val::I(self.icmp1(*p, x, y))
                        }
                    }
                }
            }
            Inst::FCmp { p, ty, a, b } => {
                let x = self.val(st, a, ty);
                let y = self.val(st, b, ty);
                let x = self.lanes(&x, ty);
                let y = self.lanes(&y, ty);
                let code: u8 = match p.as_str() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let r: Vec<E> = x.iter().zip(y.iter()).map(|(s, t)| self.fcmp1(code, *s, *t)).collect();
                if matches!(m.res(ty), Ty::Vec(..)) {
                    Self::mkvec(r)
                } else {
                    Val::I(r[0])
                }
            }
            Inst::Cast { k, from, to, a } => {
                let x = self.val(st, a, from);
                self.cast(*k, &x, from, to)
            }
            Inst::Alloca { ty, n, align } => {
                let mut sz = m.size(ty);
                if let Some((t, o)) = n {
                    let e = self.int(st, o, t);
                    match self.x.cv(e) {
                        Some(c) => sz *= c as u64,
                        None => {
                            let r = self.x.r[e as usize];
                            if r.uhi > 1 << 16 {
                                return stop("variable length array of unknown size");
                            }
                            sz *= r.uhi;
                            self.notes.push("a variable length array was given its largest size".into());
                        }
                    }
                }
                let nm = format!("%{}", d.map(|s| m.funcs[*self.stack.last().unwrap()].slot_names[s as usize].clone()).unwrap_or_default());
                let mut mem = std::mem::take(&mut st.mem);
                let id = self.new_obj(&mut mem, sz, &nm, *align as u64);
                st.mem = mem;
                let z = self.x.c(64, 0);
                Val::P(id, z)
            }
            Inst::Load { ty, p } => {
                let p = self.val(st, p, &Ty::Ptr);
                match self.load(st, &p, ty) {
                    Some(v) => v,
                    None => return false,
                }
            }
            Inst::Store { ty, v, p } => {
                let x = self.val(st, v, ty);
                let p = self.val(st, p, &Ty::Ptr);
                return self.store(st, &p, ty, &x);
            }
            Inst::Gep { ty, base, basety, idx } => {
                let b = self.val(st, base, basety);
                let ix: Vec<(Ty, Val)> = idx.iter().map(|(t, o)| (t.clone(), self.val(st, o, t))).collect();
                self.gep(ty, &b, &ix)
            }
            Inst::Call { ret, f, args } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    if a.ty == Ty::Meta {
                        av.push(Val::U);
                        continue;
                    }
                    let mut v = self.val(st, &a.op, &a.ty);
                    if let Some(t) = &a.byval {
                        let sz = m.size(t);
                        let mut mem = std::mem::take(&mut st.mem);
                        let id = self.new_obj(&mut mem, sz, "%byval", 16);
                        st.mem = mem;
                        let z = self.x.c(64, 0);
                        let n = self.c64(sz as i64);
                        let dst = Val::P(id, z);
                        if !self.memcpy(st, &dst, &v, n) {
                            return false;
                        }
                        v = dst;
                    }
                    av.push(v);
                }
                let fi = match f {
                    Op::Global(g) => {
                        let mut g = *g;
                        // resolve aliases
                        if let Some(Op::Cast(_, o, _, _)) = &m.globals[g].init {
                            if let Op::Global(t) = **o {
                                g = t;
                            }
                        }
                        m.globals[g].func
                    }
                    o => match self.val(st, o, &Ty::Ptr) {
                        Val::P(ob, _) => self.oi[ob as usize].func,
                        _ => None,
                    },
                };
                let fi = match fi {
                    Some(x) => x,
                    None => return stop("indirect call to an unknown function"),
                };
                match self.call(st, fi, ret, args, av) {
                    Some(v) => v,
                    None => return false,
                }
            }
            Inst::Select { cty, c, ty, a, b } => {
                let x = self.val(st, a, ty);
                let y = self.val(st, b, ty);
                if let Ty::Vec(..) = m.res(cty) {
                    let c = self.val(st, c, cty);
                    let cl = self.lanes(&c, cty);
                    let x = self.lanes(&x, ty);
                    let y = self.lanes(&y, ty);
                    let r: Vec<E> = (0..cl.len()).map(|k| self.x.ite(cl[k], x[k], y[k])).collect();
                    Self::mkvec(r)
                } else {
                    let c = self.int(st, c, cty);
                    let c = self.simp(st, c);
                    if c == TRUE {
                        x
                    } else if c == FALSE {
                        y
                    } else {
                        self.merge_val(c, &x, &y)
                    }
                }
            }
            Inst::ExtractElement { vty, v, i } => {
                let x = self.val(st, v, vty);
                let ix = self.int(st, i, &Ty::Int(64));
                let l = match &x {
                    Val::V(l) => l.clone(),
                    _ => {
                        let l = self.lanes(&x, vty);
                        Rc::new(l.into_iter().map(Val::I).collect())
                    }
                };
                match self.x.cv(ix) {
                    Some(k) if (k as usize) < l.len() => l[k as usize].clone(),
                    Some(_) => Val::U,
                    None => {
                        let n = l.len() as u64;
                        let bits = (64 - (n - 1).leading_zeros()).max(1);
                        let i2 = self.x.ext(ix, 0, bits);
                        self.mux(&l, i2, bits)
                    }
                }
            }
            Inst::InsertElement { vty, v, x, i } => {
                let o = self.val(st, v, vty);
                let (n, et) = match m.res(vty) {
                    Ty::Vec(n, t) => (*n as usize, (**t).clone()),
                    _ => return stop("insertelement"),
                };
                let mut l = match &o {
                    Val::V(l) => l.to_vec(),
                    _ => vec![Val::U; n],
                };
                let nx = self.val(st, x, &et);
                let ix = self.int(st, i, &Ty::Int(64));
                match self.x.cv(ix) {
                    Some(k) => {
                        if (k as usize) < l.len() {
                            l[k as usize] = nx
                        }
                    }
                    None => {
                        let w = self.x.width(ix);
                        for k in 0..n {
                            let kk = self.x.c(w, k as u128);
                            let c = self.x.eq(ix, kk);
                            l[k] = self.merge_val(c, &nx, &l[k].clone());
                        }
                    }
                }
                Val::V(Rc::new(l))
            }
            Inst::Shuffle { vty, a, b, mty, m: mk } => {
                let x = self.val(st, a, vty);
                let y = self.val(st, b, vty);
                let n = match m.res(vty) {
                    Ty::Vec(n, _) => *n as usize,
                    _ => return stop("shuffle"),
                };
                let get = |v: &Val, k: usize| match v {
                    Val::V(l) => l[k].clone(),
                    _ => Val::U,
                };
                let idx: Vec<Option<usize>> = match mk {
                    Op::Zero(_) => match m.res(mty) {
                        Ty::Vec(k, _) => vec![Some(0); *k as usize],
                        _ => vec![],
                    },
                    Op::Undef(_) => match m.res(mty) {
                        Ty::Vec(k, _) => vec![None; *k as usize],
                        _ => vec![],
                    },
                    Op::Agg(_, v) => v
                        .iter()
                        .map(|o| match o {
                            Op::Int(_, k) => Some(*k as usize),
                            _ => None,
                        })
                        .collect(),
                    _ => return stop("shuffle mask"),
                };
                let l: Vec<Val> = idx
                    .iter()
                    .map(|k| match k {
                        None => Val::U,
                        Some(k) if *k < n => get(&x, *k),
                        Some(k) => get(&y, *k - n),
                    })
                    .collect();
                Val::V(Rc::new(l))
            }
            Inst::ExtractValue { ty, a, idx } => {
                let mut x = self.val(st, a, ty);
                for k in idx {
                    x = match &x {
                        Val::V(l) => l[*k as usize].clone(),
                        _ => Val::U,
                    };
                }
                x
            }
            Inst::InsertValue { ty, a, xty, x, idx } => {
                let o = self.val(st, a, ty);
                let nx = self.val(st, x, xty);
                self.insert_value(&o, ty, &nx, idx)
            }
            Inst::Freeze { ty, a } => {
                let x = self.val(st, a, ty);
                if x == Val::U {
                    let l = self.lanes(&x, ty);
                    if matches!(m.res(ty), Ty::Vec(..)) {
                        Self::mkvec(l)
                    } else {
                        Val::I(l[0])
                    }
                } else {
                    x
                }
            }
            Inst::Fence => return true,
            _ => return stop(format!("instruction {:?}", i)),
        };
        if let Some(s) = d {
            st.env[*s as usize] = v;
        }
        true
    }
    pub fn fcmp1(&mut self, code: u8, a: E, b: E) -> E {
        if a == b && (code == 6 || code == 2 || code == 4) {
            return FALSE;
        }
        self.x.fp(1, Fop::Cmp(code), vec![a, b])
    }
    fn insert_value(&mut self, o: &Val, ty: &Ty, nx: &Val, idx: &[u32]) -> Val {
        let m = self.m.clone();
        if idx.is_empty() {
            return nx.clone();
        }
        let n = match m.res(ty) {
            Ty::Struct(v, _) => v.len(),
            Ty::Arr(n, _) => *n as usize,
            _ => return stop("insertvalue"),
        };
        let mut l = match o {
            Val::V(l) => l.to_vec(),
            _ => vec![Val::U; n],
        };
        let et = match m.res(ty) {
            Ty::Struct(v, _) => v[idx[0] as usize].clone(),
            Ty::Arr(_, t) => (**t).clone(),
            _ => unreachable!(),
        };
        l[idx[0] as usize] = self.insert_value(&l[idx[0] as usize].clone(), &et, nx, &idx[1..]);
        Val::V(Rc::new(l))
    }

    fn call(&mut self, st: &mut St, fi: usize, ret: &Ty, args: &[Arg], av: Vec<Val>) -> Option<Val> {
        let m = self.m.clone();
        let f = &m.funcs[fi];
        if let Some(t) = self.opts.replace.get(&f.name) {
            let inside = self.stack.iter().any(|s| m.funcs[*s].name == *t);
            if !inside {
                let t = t.clone();
                if let Some(&g) = m.gix.get(&t) {
                    if let Some(k) = m.globals[g].func {
                        *self.replaced.entry(f.name.clone()).or_insert(0) += 1;
                        return self.call_func(st, k, av);
                    }
                }
                return stop(format!("contract function {} missing", t));
            }
        }
        if f.name.starts_with("llvm.") {
            return self.intrinsic(st, &f.name, ret, args, av);
        }
        if let Some(r) = self.builtin(st, &f.name, ret, args, &av) {
            return r;
        }
        if !f.is_def {
            return stop(format!("call to undefined function {}", f.name));
        }
        self.call_func(st, fi, av)
    }

    pub fn builtin(&mut self, st: &mut St, name: &str, ret: &Ty, args: &[Arg], av: &[Val]) -> Option<Option<Val>> {
        let z = self.x.c(64, 0);
        macro_rules! int {
            ($k:expr) => {
                match &av[$k] {
                    Val::I(e) => *e,
                    Val::U => {
                        let w = self.m.bits(&args[$k].ty);
                        self.undef(w)
                    }
                    p => {
                        let p = p.clone();
                        self.ptr_int(&p)
                    }
                }
            };
        }
        Some(match name {
            "vf_any_raw" => {
                // (name, idx, bits) -> u64
                let nm = self.cstr(st, &av[0]);
                let idx = int!(1);
                let idx = self.x.cv(idx).unwrap_or_else(|| stop("vf_any with a symbolic index")) as u32;
                let b = int!(2);
                let b = self.x.cv(b).unwrap() as u32;
                let e = self.input(&nm, idx, b, 0, if b >= 64 { u64::MAX } else { (1u64 << b) - 1 });
                Some(Val::I(self.x.zext(e, 64)))
            }
            "vf_range_raw" => {
                let nm = self.cstr(st, &av[0]);
                let idx = int!(1);
                let idx = self.x.cv(idx).unwrap() as u32;
                let lo = int!(2);
                let lo = self.x.cv(lo).unwrap_or_else(|| stop("vf_range with a symbolic bound")) as u64 as i64;
                let hi = int!(3);
                let hi = self.x.cv(hi).unwrap_or_else(|| stop("vf_range with a symbolic bound")) as u64 as i64;
                let span = (hi - lo) as u64;
                if span == 0 {
                    return Some(Some(Val::I(self.c64(lo))));
                }
                let b = 64 - span.leading_zeros();
                let e = self.input(&nm, idx, b, 0, span);
                let e = self.x.zext(e, 64);
                let l = self.c64(lo);
                Some(Val::I(self.x.add(e, l)))
            }
            "vf_assume" => {
                let c = int!(0);
                let c = self.x.ext(c, 0, 1);
                if self.assume(st, c) {
                    Some(Val::U)
                } else {
                    None
                }
            }
            "vf_assert" | "vf_lemma" => {
                let c = int!(0);
                let c = self.x.ext(c, 0, 1);
                let l = self.cstr(st, &av[1]);
                self.oblige(st, if name == "vf_assert" { Kind::Assert } else { Kind::Lemma }, &l, c);
                if name == "vf_lemma" {
                    // proved separately, then usable
                    if !self.assume(st, c) {
                        return Some(None);
                    }
                }
                Some(Val::U)
            }
            "vf_cover" => {
                let c = int!(0);
                let c = self.x.ext(c, 0, 1);
                let l = self.cstr(st, &av[1]);
                self.oblige(st, Kind::Cover, &l, c);
                Some(Val::U)
            }
            "vf_choose_raw" => {
                let nm = self.cstr(st, &av[0]);
                let n = int!(1);
                let n = self.x.cv(n).unwrap() as u32;
                let r = self.choose(n, &nm);
                Some(Val::I(self.x.c(32, r as u128)))
            }
            "vf_is_symbolic" => Some(Val::I(self.x.c(32, 1))),
            "vf_note" => {
                let s = self.cstr(st, &av[0]);
                self.notes.push(s);
                Some(Val::U)
            }
            "vf_uf_raw" => {
                // (name, bits, a0, a1, a2, a3)
                let nm = self.cstr(st, &av[0]);
                let b = int!(1);
                let b = self.x.cv(b).unwrap() as u32;
                let a: Vec<E> = (2..av.len()).map(|k| int!(k)).collect();
                let e = self.x.uf(&nm, b, a);
                Some(Val::I(self.x.zext(e, 64)))
            }
            "vf_show" => {
                let e = int!(0);
                eprintln!("show: {}", self.x.show(e, 6));
                Some(Val::U)
            }
            "__assert_fail" => {
                let l = self.cstr(st, &av[0]);
                self.oblige(st, Kind::Safety, &format!("assert({})", l), FALSE);
                None
            }
            "abort" | "_ZSt9terminatev" | "exit" | "_exit" => {
                self.oblige(st, Kind::Safety, "abort called", FALSE);
                None
            }
            "__cxa_guard_acquire" => {
                let b = match self.load(st, &av[0], &Ty::Int(8)) {
                    Some(Val::I(e)) => e,
                    _ => return Some(None),
                };
                match self.x.cv(b) {
                    Some(v) => Some(Val::I(self.x.c(32, (v == 0) as u128))),
                    None => {
                        // initialised on some paths only
                        let zz = self.x.c(8, 0);
                        let c = self.x.eq(b, zz);
                        Some(Val::I(self.x.zext(c, 32)))
                    }
                }
            }
            "__cxa_guard_release" => {
                let one = self.x.c(8, 1);
                if self.store(st, &av[0], &Ty::Int(8), &Val::I(one)) {
                    Some(Val::U)
                } else {
                    None
                }
            }
            "__cxa_guard_abort" | "__cxa_atexit" | "atexit" => Some(Val::I(self.x.c(32, 0))),
            "malloc" | "_Znwm" | "_Znam" | "aligned_alloc" | "_ZnwmSt11align_val_t" | "_ZnamSt11align_val_t" | "calloc" => {
                let k = if name == "aligned_alloc" { 1 } else { 0 };
                let n = int!(k);
                let mut sz = match self.x.cv(n) {
                    Some(v) => v as u64,
                    None => {
                        let r = self.x.r[n as usize];
                        if r.uhi > 1 << 20 {
                            return stop("allocation of unknown size");
                        }
                        r.uhi
                    }
                };
                if name == "calloc" {
                    let k = int!(1);
                    sz *= self.x.cv(k).unwrap() as u64;
                }
                let mut mem = std::mem::take(&mut st.mem);
                let id = self.new_obj(&mut mem, sz, "heap", 16);
                if name == "calloc" {
                    let b = self.x.c(8, 0);
                    for k in 0..sz {
                        self.put(&mut mem, id, k, Cell { t: 1, k: 0, id: b });
                    }
                }
                st.mem = mem;
                Some(Val::P(id, z))
            }
            "free" | "_ZdlPv" | "_ZdaPv" | "_ZdlPvm" | "_ZdaPvm" | "_ZdlPvSt11align_val_t" | "_ZdaPvSt11align_val_t" | "_ZdlPvmSt11align_val_t" => Some(Val::U),
            "memcpy" | "memmove" => {
                let n = int!(2);
                if self.memcpy(st, &av[0], &av[1], n) {
                    Some(av[0].clone())
                } else {
                    None
                }
            }
            "memset" => {
                let b = int!(1);
                let b = self.x.ext(b, 0, 8);
                let n = int!(2);
                if self.memset(st, &av[0], b, n) {
                    Some(av[0].clone())
                } else {
                    None
                }
            }
            "memcmp" | "bcmp" => {
                let n = int!(2);
                let n = self.x.cv(n).unwrap_or_else(|| stop("memcmp of symbolic size"));
                let mut r = self.x.c(32, 0);
                for k in (0..n).rev() {
                    let kk = self.c64(k as i64);
                    let p = self.ptr_add(&av[0], kk);
                    let q = self.ptr_add(&av[1], kk);
                    let a = match self.load(st, &p, &Ty::Int(8)) {
                        Some(Val::I(e)) => e,
                        _ => return Some(None),
                    };
                    let b = match self.load(st, &q, &Ty::Int(8)) {
                        Some(Val::I(e)) => e,
                        _ => return Some(None),
                    };
                    let c = self.x.eq(a, b);
                    let a32 = self.x.zext(a, 32);
                    let b32 = self.x.zext(b, 32);
                    let d = self.x.sub(a32, b32);
                    r = self.x.ite(c, r, d);
                }
                Some(Val::I(r))
            }
            "abs" => {
                let a = int!(0);
                Some(Val::I(self.iabs(a)))
            }
            "strlen" => {
                let s = self.cstr(st, &av[0]);
                Some(Val::I(self.c64(s.len() as i64)))
            }
            "sqrt" | "sqrtf" => {
                let a = int!(0);
                let w = self.x.width(a);
                Some(Val::I(self.x.fp(w, Fop::Sqrt, vec![a])))
            }
            "fabs" | "fabsf" => {
                let a = int!(0);
                Some(Val::I(self.fabs(a)))
            }
            "nearbyint" | "nearbyintf" | "rint" | "rintf" => {
                let a = int!(0);
                let w = self.x.width(a);
                Some(Val::I(self.x.fp(w, Fop::Round, vec![a])))
            }
            "log" | "logf" | "exp" | "expf" | "log1p" | "log1pf" | "tanh" | "tanhf" | "atanh" | "atanhf" | "cosh" | "coshf" | "log2" | "log2f" | "pow" | "powf" | "sin" | "cos" => {
                let a: Vec<E> = (0..av.len()).map(|k| int!(k)).collect();
                let w = self.m.bits(ret);
                *self.externs.entry(name.to_string()).or_insert(0) += 1;
                Some(Val::I(self.x.uf(name, w, a)))
            }
            _ => return None,
        })
    }
    pub fn iabs(&mut self, a: E) -> E {
        let w = self.x.width(a);
        let z = self.x.c(w, 0);
        let c = self.x.slt(a, z);
        let n = self.x.neg(a);
        self.x.ite(c, n, a)
    }
    pub fn fabs(&mut self, a: E) -> E {
        let w = self.x.width(a);
        let k = self.x.c(w, (1u128 << (w - 1)) - 1);
        self.x.and(a, k)
    }
    pub fn input(&mut self, nm: &str, idx: u32, bits: u32, lo: u64, hi: u64) -> E {
        if let Some(k) = self.x.vars.iter().position(|v| v.input && v.idx == idx && v.name == nm) {
            return stop(format!("input {}[{}] declared twice ({})", nm, idx, k));
        }
        self.x.var(nm, idx, bits, lo, hi, true)
    }
}
