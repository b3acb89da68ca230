//! Runs a contract harness over all its case splits and discharges the proof obligations.
use crate::aig::*;
use crate::anf::*;
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Cfg {
    pub sat_time: f64,
    pub run_time: f64,
    pub deadline: Instant,
    pub tmp: String,
    pub max_nodes: usize,
    pub aig_limit: usize,
    pub exh_cost: u64,
    pub solver: String,
    pub verbose: bool,
    pub anf: bool,
    pub feas_time: f64,
    pub dump: bool,
    pub max_fail: usize,
}

#[derive(Default, Debug)]
pub struct Failure {
    pub label: String,
    pub kind: String,
    pub func: String,
    pub model: Vec<(String, u32, u32, u64)>,
    pub choices: Vec<String>,
    pub backend: String,
    pub abstracted: bool,
}
#[derive(Default)]
pub struct Outcome {
    pub runs: u64,
    pub total: u64,
    pub by_kind: BTreeMap<String, u64>,
    pub by_backend: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub failures: Vec<Failure>,
    pub undecided: Vec<(String, String, String, String)>,
    pub stops: Vec<(String, String)>,
    pub covers: BTreeMap<String, String>,
    pub inlined: BTreeMap<String, u64>,
    pub replaced: BTreeMap<String, u64>,
    pub externs: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub t_exec: f64,
    pub t_solve: f64,
    pub t_sat: f64,
    pub max_terms: u64,
    pub steps: u64,
    pub sym_unrolls: u64,
    pub feas_calls: u64,
    pub undef_used: u64,
    pub cancelled: bool,
}

pub static NTMP: AtomicU64 = AtomicU64::new(0);

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545F4914F6CDD1D)
}

/// draw a value for every input bit, respecting variable ranges
struct Draw {
    vals: HashMap<E, u64>,
    seed: u64,
}
impl Draw {
    fn bit(&mut self, x: &Ctx, e: E, b: u32, style: u32) -> bool {
        if !self.vals.contains_key(&e) {
            let mut r = rnd(&mut self.seed);
            if let N::Var(k) = x.n[e as usize] {
                let v = &x.vars[k as usize];
                let span = v.hi.wrapping_sub(v.lo);
                match style {
                    1 if r % 4 != 0 => r = 0,
                    2 => r &= rnd(&mut self.seed) & rnd(&mut self.seed),
                    3 if r % 3 == 0 => r = span,
                    4 => r = if r & 0x100 != 0 { 0 } else { 1 },
                    _ => {}
                }
                if span != u64::MAX {
                    r = v.lo + r % (span + 1);
                }
            }
            self.vals.insert(e, r);
        }
        if b >= 64 {
            return false;
        }
        self.vals[&e] >> b & 1 == 1
    }
}

enum Sat {
    Unsat,
    Model(Vec<bool>),
    Unknown,
}

fn run_sat(aig: &Aig, roots: &[L], cfg: &Cfg, secs: f64) -> Sat {
    let id = NTMP.fetch_add(1, Ordering::SeqCst);
    let path = format!("{}/q{}.cnf", cfg.tmp, id);
    let inv = match aig.cnf(roots, &path) {
        Ok(v) => v,
        Err(_) => return Sat::Unknown,
    };
    let t = (secs.ceil() as u64).max(1);
    let out = Command::new(&cfg.solver).arg("-q").arg(format!("--time={}", t)).arg(&path).stdin(Stdio::null()).stderr(Stdio::null()).output();
    if !cfg.dump {
        let _ = std::fs::remove_file(&path);
    }
    let out = match out {
        Ok(o) => o,
        Err(_) => return Sat::Unknown,
    };
    let s = String::from_utf8_lossy(&out.stdout);
    if s.contains("s UNSATISFIABLE") {
        return Sat::Unsat;
    }
    if !s.contains("s SATISFIABLE") {
        return Sat::Unknown;
    }
    let mut t = std::collections::HashSet::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("v ") {
            for w in r.split_whitespace() {
                if let Ok(k) = w.parse::<i64>() {
                    if k > 0 {
                        t.insert(k as u32);
                    }
                }
            }
        }
    }
    Sat::Model(inv.iter().map(|v| *v != 0 && t.contains(v)).collect())
}

/// feasibility questions during execution
struct Oracle {
    aig: Aig,
    vals: Vec<[u64; 4]>,
    inval: Vec<[u64; 4]>,
    draws: Vec<Draw>,
    next_slot: usize,
    cfg: Cfg,
    dead: bool,
    conj: HashMap<Vec<E>, L>,
}
impl Oracle {
    fn new(cfg: &Cfg, seed: u64) -> Oracle {
        let draws = (0..256u64).map(|i| Draw { vals: HashMap::new(), seed: (seed + i * 7919 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1 }).collect();
        Oracle { aig: Aig::new(cfg.aig_limit), vals: vec![], inval: vec![], draws, next_slot: 0, cfg: cfg.clone(), dead: false, conj: HashMap::new() }
    }
    fn extend(&mut self, x: &Ctx) {
        for k in self.inval.len()..self.aig.inputs.len() {
            let (e, b) = self.aig.inputs[k];
            let mut w = [0u64; 4];
            for p in 0..256 {
                if self.draws[p].bit(x, e, b, (p % 5) as u32) {
                    w[p / 64] |= 1 << (p % 64);
                }
            }
            self.inval.push(w);
        }
        for k in self.vals.len()..self.aig.n.len() {
            let v = self.value(k);
            self.vals.push(v);
        }
    }
    fn value(&self, k: usize) -> [u64; 4] {
        if k == 0 {
            return [0; 4];
        }
        let (a, b) = self.aig.n[k];
        if a == u32::MAX {
            return self.inval[b as usize];
        }
        let (p, q) = (self.lit(a), self.lit(b));
        [p[0] & q[0], p[1] & q[1], p[2] & q[2], p[3] & q[3]]
    }
    fn lit(&self, l: L) -> [u64; 4] {
        let v = self.vals[(l >> 1) as usize];
        if l & 1 == 1 {
            [!v[0], !v[1], !v[2], !v[3]]
        } else {
            v
        }
    }
    fn ask(&mut self, x: &mut Ctx, asm: &[E], c: E) -> Option<bool> {
        if self.dead {
            return None;
        }
        if c == FALSE {
            return Some(false);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut v = vec![];
            for a in asm {
                v.push(self.aig.blast(x, *a)[0]);
            }
            v.push(self.aig.blast(x, c)[0]);
            v
        }));
        let mut v = match r {
            Ok(v) => v,
            Err(_) => {
                self.dead = true;
                return None;
            }
        };
        v.extend(self.aig.side.iter());
        v.sort();
        v.dedup();
        let root = self.aig.andv(&mut v.clone());
        if root == F {
            return Some(false);
        }
        self.extend(x);
        if self.lit(root).iter().any(|w| *w != 0) {
            return Some(true);
        }
        if let Ok(r) = self.aig.exhaustive(root, 300_000_000) {
            if let Some(m) = &r {
                self.learn(m);
            }
            return Some(r.is_some());
        }
        match run_sat(&self.aig, &[root], &self.cfg, self.cfg.feas_time) {
            Sat::Unsat => Some(false),
            Sat::Model(m) => {
                self.learn(&m);
                Some(true)
            }
            Sat::Unknown => None,
        }
    }
    fn learn(&mut self, m: &[bool]) {
        let s = self.next_slot % 256;
        self.next_slot += 1;
        for k in 0..self.inval.len() {
            let bit = 1u64 << (s % 64);
            if m[k] {
                self.inval[k][s / 64] |= bit;
            } else {
                self.inval[k][s / 64] &= !bit;
            }
        }
        for k in 0..self.vals.len() {
            self.vals[k] = self.value(k);
        }
    }
}

fn kname(k: Kind) -> &'static str {
    match k {
        Kind::Assert => "assert",
        Kind::Lemma => "lemma",
        Kind::Safety => "safety",
        Kind::Ub => "ub",
        Kind::Cover => "cover",
    }
}

struct Run<'a> {
    ex: &'a mut Exec,
    cfg: Cfg,
    out: Outcome,
    aig: Aig,
    pre: HashMap<usize, L>,
}

impl<'a> Run<'a> {
    fn dem(&self, f: &str) -> String {
        self.ex.opts.demangled.get(f).cloned().unwrap_or(f.to_string())
    }
    fn lit_of(&mut self, e: E) -> Result<L, ()> {
        let x = &self.ex.x;
        let a = &mut self.aig;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.blast(x, e)[0])) {
            Ok(l) => Ok(l),
            Err(p) => {
                if p.is::<Over>() {
                    Err(())
                } else {
                    std::panic::resume_unwind(p)
                }
            }
        }
    }
    fn prefix(&mut self, n: usize) -> Result<L, ()> {
        if let Some(l) = self.pre.get(&n) {
            return Ok(*l);
        }
        let mut ls = vec![];
        for k in 0..n {
            let a = self.ex.assumes[k];
            ls.push(self.lit_of(a)?);
        }
        let r = self.aig.andv(&mut ls);
        self.pre.insert(n, r);
        Ok(r)
    }
    fn query(&mut self, i: usize) -> Result<L, ()> {
        let (pc, cond, n, cover) = {
            let o = &self.ex.obligs[i];
            (o.pc, o.cond, o.n_assume, o.kind == Kind::Cover)
        };
        let c = if cover { cond } else { self.ex.x.not(cond) };
        let bad = self.ex.x.and(pc, c);
        if bad == FALSE {
            return Ok(F);
        }
        let b = self.lit_of(bad)?;
        if b == F {
            return Ok(F);
        }
        let p = self.prefix(n)?;
        Ok(self.aig.and(p, b))
    }
    fn model(&self, m: &[bool]) -> Vec<(String, u32, u32, u64)> {
        let mut vals: BTreeMap<u32, u64> = BTreeMap::new();
        for (k, (e, b)) in self.aig.inputs.iter().enumerate() {
            if let N::Var(v) = self.ex.x.n[*e as usize] {
                let r = vals.entry(v).or_insert(0);
                if m.get(k) == Some(&true) && *b < 64 {
                    *r |= 1 << b;
                }
            }
        }
        let mut out = vec![];
        for (v, vi) in self.ex.x.vars.iter().enumerate() {
            if !vi.input {
                continue;
            }
            let val = *vals.get(&(v as u32)).unwrap_or(&vi.lo);
            out.push((vi.name.clone(), vi.idx, vi.w, val));
        }
        out
    }
    fn fail(&mut self, i: usize, backend: &str, model: Option<&[bool]>) {
        let o = &self.ex.obligs[i];
        let f = Failure {
            label: o.label.clone(),
            kind: kname(o.kind).into(),
            func: self.dem(&o.func),
            model: model.map(|m| self.model(m)).unwrap_or_default(),
            choices: self.ex.choices.iter().zip(self.ex.choice_names.iter()).map(|(_, n)| n.clone()).collect(),
            backend: backend.into(),
            abstracted: self.aig.abstracted,
        };
        self.out.failures.push(f);
    }
    fn undecided(&mut self, i: usize, why: &str) {
        let o = &self.ex.obligs[i];
        let f = self.dem(&o.func);
        self.out.undecided.push((o.label.clone(), kname(o.kind).into(), f, why.into()));
    }
    fn done(&mut self, backend: &str) {
        *self.out.by_backend.entry(backend.into()).or_insert(0) += 1;
    }
    /// simulate random patterns; returns indices (into qs) shown violated, with a model
    fn simulate(&mut self, qs: &[(usize, L)], rounds: usize, seed: u64) -> Vec<(usize, Vec<bool>)> {
        let mut hits = vec![];
        let mut roots: Vec<L> = qs.iter().map(|q| q.1).collect();
        roots.extend(self.aig.side.iter());
        let cone = self.aig.cone(&roots);
        let used: Vec<u32> = cone.iter().filter(|k| **k != 0 && self.aig.n[**k as usize].0 == u32::MAX).map(|k| self.aig.n[*k as usize].1).collect();
        let mut val = vec![];
        let mut gone = vec![false; qs.len()];
        for r in 0..rounds {
            let mut inw: Vec<u64> = vec![0; self.aig.inputs.len()];
            for p in 0..64u64 {
                let mut d = Draw { vals: HashMap::new(), seed: (seed ^ (r as u64 * 64 + p + 1)).wrapping_mul(0x9E3779B97F4A7C15) | 1 };
                for k in &used {
                    let (e, b) = self.aig.inputs[*k as usize];
                    if d.bit(&self.ex.x, e, b, ((p + r as u64) % 5) as u32) {
                        inw[*k as usize] |= 1 << p;
                    }
                }
            }
            self.aig.sim(&cone, &|k| inw[k as usize], &mut val);
            let lv = |l: L| val[(l >> 1) as usize] ^ 0u64.wrapping_sub((l & 1) as u64);
            let mut side = u64::MAX;
            for s in &self.aig.side {
                side &= lv(*s);
            }
            if side == 0 {
                continue;
            }
            for (j, (_, l)) in qs.iter().enumerate() {
                if gone[j] {
                    continue;
                }
                let h = lv(*l) & side;
                if h != 0 {
                    gone[j] = true;
                    let p = h.trailing_zeros();
                    hits.push((j, inw.iter().map(|w| w >> p & 1 == 1).collect()));
                }
            }
        }
        hits
    }
    fn with_side(&self, l: L) -> Vec<L> {
        // the side constraints whose inputs appear in the cone (ranges of absent variables are satisfiable)
        let mut v = vec![l];
        v.extend(self.aig.side.iter());
        v
    }
    fn remaining(&self) -> f64 {
        let n = Instant::now();
        if n >= self.cfg.deadline {
            0.0
        } else {
            (self.cfg.deadline - n).as_secs_f64()
        }
    }
    fn sat(&mut self, roots: &[L], secs: f64) -> Sat {
        let t = Instant::now();
        let s = secs.min(self.remaining());
        if s < 0.5 {
            return Sat::Unknown;
        }
        let r = run_sat(&self.aig, roots, &self.cfg, s);
        self.out.t_sat += t.elapsed().as_secs_f64();
        r
    }
    fn check_model(&self, m: &[bool], l: L) -> bool {
        let roots = self.with_side(l);
        let cone = self.aig.cone(&roots);
        let mut val = vec![];
        self.aig.sim(&cone, &|k| if m[k as usize] { u64::MAX } else { 0 }, &mut val);
        roots.iter().all(|l| (val[(l >> 1) as usize] ^ 0u64.wrapping_sub((l & 1) as u64)) & 1 == 1)
    }
    fn batch(&mut self, qs: Vec<(usize, L)>) {
        if qs.is_empty() {
            return;
        }
        if self.out.failures.len() >= self.cfg.max_fail {
            for (i, _) in qs {
                self.undecided(i, "not examined after earlier failures");
            }
            return;
        }
        // single obligation: exhaustive evaluation when it has few inputs
        if qs.len() == 1 {
            let (i, l) = qs[0];
            let mut v = self.with_side(l);
            let side_ok = self.aig.side.len() < 4000;
            if side_ok {
                let bad = self.aig.andv(&mut v);
                match self.aig.exhaustive(bad, self.cfg.exh_cost) {
                    Ok(None) => {
                        self.done("exhaustive");
                        return;
                    }
                    Ok(Some(m)) => {
                        self.fail(i, "exhaustive", Some(&m));
                        return;
                    }
                    Err(()) => {}
                }
            }
            let roots = self.with_side(l);
            match self.sat(&roots, self.cfg.sat_time) {
                Sat::Unsat => self.done("kissat"),
                Sat::Model(m) => self.fail(i, "kissat", Some(&m)),
                Sat::Unknown => self.undecided(i, "solver gave no answer in time"),
            }
            return;
        }
        let mut ls: Vec<L> = qs.iter().map(|q| q.1 ^ 1).collect();
        let any = self.aig.andv(&mut ls) ^ 1;
        let mut v = self.with_side(any);
        let bad = self.aig.andv(&mut v);
        if let Ok(None) = self.aig.exhaustive(bad, self.cfg.exh_cost / 4) {
            for _ in &qs {
                self.done("exhaustive");
            }
            return;
        }
        let roots = self.with_side(any);
        let budget = (self.cfg.sat_time * if qs.len() > 8 { 0.5 } else { 0.75 }).max(2.0);
        match self.sat(&roots, budget) {
            Sat::Unsat => {
                for _ in &qs {
                    self.done("kissat");
                }
            }
            Sat::Model(m) => {
                let mut rest = vec![];
                let mut hit = false;
                let mut hitlabel = String::new();
                for (i, l) in qs {
                    if !hit && self.check_model(&m, l) {
                        hit = true;
                        hitlabel = self.ex.obligs[i].label.clone();
                        self.fail(i, "kissat", Some(&m));
                    } else {
                        rest.push((i, l));
                    }
                }
                if !hit {
                    for (i, _) in rest {
                        self.undecided(i, "solver model not confirmed");
                    }
                    return;
                }
                // others with the same label are the same property; do not enumerate them
                let mut r2 = vec![];
                for (i, l) in rest {
                    if self.ex.obligs[i].label == hitlabel {
                        self.undecided(i, "same obligation already refuted elsewhere");
                    } else {
                        r2.push((i, l));
                    }
                }
                self.batch(r2);
            }
            Sat::Unknown => {
                let h = qs.len() / 2;
                let (a, b) = qs.split_at(h);
                let (a, b) = (a.to_vec(), b.to_vec());
                self.batch(a);
                self.batch(b);
            }
        }
    }
    fn solve(&mut self) {
        let n = self.ex.obligs.len();
        let mut todo = vec![];
        let mut covers = vec![];
        for i in 0..n {
            let (kind, pc, cond) = {
                let o = &self.ex.obligs[i];
                (o.kind, o.pc, o.cond)
            };
            if kind == Kind::Cover {
                covers.push(i);
                continue;
            }
            self.out.total += 1;
            *self.out.by_kind.entry(kname(kind).into()).or_insert(0) += 1;
            if kind == Kind::Assert || kind == Kind::Lemma {
                let l = self.ex.obligs[i].label.clone();
                *self.out.labels.entry(l).or_insert(0) += 1;
            }
            let nc = self.ex.x.not(cond);
            let bad = self.ex.x.and(pc, nc);
            if bad == FALSE {
                self.done("simplifier");
            } else {
                todo.push(i);
            }
        }
        todo = self.tiny(todo);
        // algebraic normal form
        if self.cfg.anf {
            let mut anf = Anf::new();
            let mut rest = vec![];
            let mut fails = 0;
            for i in todo {
                let cond = self.ex.obligs[i].cond;
                let isbool_eq = true;
                let mut ok = false;
                if isbool_eq && fails < 64 {
                    match anf.prove(&self.ex.x, cond) {
                        Ok(true) => ok = true,
                        _ => fails += 1,
                    }
                }
                if ok {
                    self.done("anf");
                } else {
                    rest.push(i);
                }
            }
            todo = rest;
        }
        todo = self.abstracting(todo, false);
        todo = self.abstracting(todo, true);
        todo = self.integers(todo);
        let mut qs = vec![];
        for i in todo {
            match self.query(i) {
                Ok(F) => self.done("aig"),
                Ok(l) => qs.push((i, l)),
                Err(()) => {
                    self.undecided(i, "bit-level encoding too large");
                    // start afresh
                    if self.aig.n.len() >= self.aig.limit {
                        let keep: Vec<usize> = qs.iter().map(|q: &(usize, L)| q.0).collect();
                        let q2 = std::mem::take(&mut qs);
                        let _ = keep;
                        self.process(q2);
                        self.aig = Aig::new(self.cfg.aig_limit);
                        self.pre.clear();
                    }
                }
            }
        }
        self.process(qs);
        // covers
        let mut cq = vec![];
        for i in covers {
            let l = self.ex.obligs[i].label.clone();
            if self.out.covers.get(&l).map(|s| s.as_str()) == Some("reached") {
                continue;
            }
            match self.query(i) {
                Ok(F) => {
                    self.out.covers.entry(l).or_insert("unreachable".into());
                }
                Ok(q) => cq.push((i, q)),
                Err(()) => {
                    self.out.covers.insert(l, "unknown".into());
                }
            }
        }
        if !cq.is_empty() {
            let hits = self.simulate(&cq, 4, 77);
            let mut got = vec![false; cq.len()];
            for (j, _) in hits {
                got[j] = true;
                let l = self.ex.obligs[cq[j].0].label.clone();
                self.out.covers.insert(l, "reached".into());
            }
            for j in 0..cq.len() {
                let l = self.ex.obligs[cq[j].0].label.clone();
                if got[j] || self.out.covers.get(&l).map(|s| s.as_str()) == Some("reached") {
                    continue;
                }
                let roots = self.with_side(cq[j].1);
                match self.sat(&roots, self.cfg.sat_time) {
                    Sat::Model(_) => {
                        self.out.covers.insert(l, "reached".into());
                    }
                    Sat::Unsat => {
                        self.out.covers.entry(l).or_insert("unreachable".into());
                    }
                    Sat::Unknown => {
                        self.out.covers.insert(l, "unknown".into());
                    }
                }
            }
        }
    }
    /// obligations over few input bits in all: evaluated together for every input
    fn tiny(&mut self, todo: Vec<usize>) -> Vec<usize> {
        if todo.is_empty() {
            return todo;
        }
        let mut roots: Vec<E> = vec![];
        let n = todo.iter().map(|i| self.ex.obligs[*i].n_assume).max().unwrap_or(0);
        for i in &todo {
            roots.push(self.ex.obligs[*i].cond);
            roots.push(self.ex.obligs[*i].pc);
        }
        roots.extend(self.ex.assumes[..n].iter());
        let bits: u32 = (self.ex.x.cone(&roots).iter())
            .map(|e| match self.ex.x.n[*e as usize] {
                N::Var(v) => (64 - self.ex.x.vars[v as usize].hi.leading_zeros()).min(self.ex.x.w[*e as usize]),
                _ => 0,
            })
            .sum();
        if bits > 24 {
            return todo;
        }
        let mut qs = vec![];
        let mut rest = vec![];
        for i in todo {
            match self.query(i) {
                Ok(F) => self.done("aig"),
                Ok(l) => qs.push((i, l)),
                Err(()) => rest.push(i),
            }
        }
        let mut ls: Vec<L> = qs.iter().map(|q| q.1 ^ 1).collect();
        let any = self.aig.andv(&mut ls) ^ 1;
        let mut v = self.with_side(any);
        let bad = self.aig.andv(&mut v);
        if let Ok(None) = self.aig.exhaustive(bad, 100_000_000) {
            for _ in &qs {
                self.done("exhaustive");
            }
        } else {
            rest.extend(qs.iter().map(|q| q.0));
            rest.sort();
        }
        rest
    }
    /// large constant tables replaced by unknown functions with the same range: sound for proving only
    /// (lin: instead sums replaced by unknowns with the same range)
    fn abstracting(&mut self, todo: Vec<usize>, lin: bool) -> Vec<usize> {
        const BIG: usize = 200;
        if todo.is_empty() {
            return todo;
        }
        let mut a = Aig::new(self.cfg.aig_limit);
        if lin {
            let roots: Vec<E> = todo.iter().map(|i| self.ex.obligs[*i].cond).collect();
            if !self.ex.x.cone(&roots).iter().any(|e| matches!(&self.ex.x.n[*e as usize], N::Lin(_, t) if t.len() >= 2)) {
                return todo;
            }
            a.abs_lin = true;
            let mut all = roots;
            for i in &todo {
                all.push(self.ex.obligs[*i].pc);
            }
            let n = todo.iter().map(|i| self.ex.obligs[*i].n_assume).max().unwrap_or(0);
            all.extend(self.ex.assumes[..n].iter());
            a.lin_cap = a.order_only(&self.ex.x, &all);
        } else {
            if !self.ex.x.tables.iter().any(|t| t.v.len() >= BIG) {
                return todo;
            }
            a.abs_look = BIG;
        }
        std::mem::swap(&mut a, &mut self.aig);
        let pre = std::mem::take(&mut self.pre);
        let mut rest = vec![];
        let mut left: Vec<(usize, L)> = vec![];
        for i in todo {
            match self.query(i) {
                Ok(F) => self.done("aig"),
                Ok(l) => left.push((i, l)),
                Err(()) => rest.push(i),
            }
        }
        // those refuted by simulation are not worth a solver call
        let hits: std::collections::HashSet<usize> = self.simulate(&left, 4, 99).into_iter().map(|h| h.0).collect();
        let mut cand = vec![];
        for (j, q) in left.into_iter().enumerate() {
            if hits.contains(&j) {
                rest.push(q.0);
            } else {
                cand.push(q);
            }
        }
        // lemmas build on each other: one at a time
        let chain = lin && cand.iter().any(|q| self.ex.obligs[q.0].kind == Kind::Lemma);
        let mut stack: Vec<Vec<(usize, L)>> = if chain { cand.into_iter().rev().map(|q| vec![q]).collect() } else { vec![cand] };
        let mut spent = 0.0;
        while let Some(c) = stack.pop() {
            if c.is_empty() {
                continue;
            }
            if spent > self.cfg.sat_time * 2.0 {
                rest.extend(c.iter().map(|q| q.0));
                continue;
            }
            let mut ls: Vec<L> = c.iter().map(|q| q.1 ^ 1).collect();
            let any = self.aig.andv(&mut ls) ^ 1;
            let roots = self.with_side(any);
            let t = Instant::now();
            let r = self.sat(&roots, 5.0);
            spent += t.elapsed().as_secs_f64();
            match r {
                Sat::Unsat => {
                    for _ in &c {
                        self.done(if lin { "kissat, sums abstracted" } else { "kissat, tables abstracted" });
                    }
                }
                Sat::Model(m) => {
                    let (bad, good): (Vec<(usize, L)>, Vec<(usize, L)>) = c.into_iter().partition(|q| self.check_model(&m, q.1));
                    if bad.is_empty() {
                        rest.extend(good.iter().map(|q| q.0));
                    } else {
                        rest.extend(bad.iter().map(|q| q.0));
                        stack.push(good);
                    }
                }
                Sat::Unknown => {
                    if c.len() == 1 {
                        rest.push(c[0].0);
                    } else {
                        let (p, q) = c.split_at(c.len() / 2);
                        stack.push(p.to_vec());
                        stack.push(q.to_vec());
                    }
                }
            }
        }
        std::mem::swap(&mut a, &mut self.aig);
        self.pre = pre;
        rest.sort();
        rest
    }
    /// linear integer arithmetic
    fn integers(&mut self, todo: Vec<usize>) -> Vec<usize> {
        let mut rest = vec![];
        let mut spent = 0.0;
        let mut misses = 0;
        for i in todo {
            if spent > self.cfg.sat_time || misses > 6 || self.remaining() < 2.0 {
                rest.push(i);
                continue;
            }
            let (pc, cond, n) = {
                let o = &self.ex.obligs[i];
                (o.pc, o.cond, o.n_assume)
            };
            let nc = self.ex.x.not(cond);
            let bad = self.ex.x.and(pc, nc);
            let asm: Vec<E> = self.ex.assumes[..n].to_vec();
            let mut l = crate::lia::Lia::new(&self.ex.x, 4000);
            let text = (|| {
                let mut s = String::from("(and");
                for e in asm.iter().chain([bad].iter()) {
                    s += " ";
                    s += &l.boolean(*e)?;
                }
                Some(s + ")")
            })();
            let text = match text {
                Some(t) if l.linear > 0 => t,
                _ => {
                    rest.push(i);
                    continue;
                }
            };
            let script = l.script(text);
            let path = format!("{}/l{}.smt2", self.cfg.tmp, NTMP.fetch_add(1, Ordering::SeqCst));
            let t = Instant::now();
            let mut ok = false;
            if std::fs::write(&path, script).is_ok() {
                let out = Command::new("z3").arg("-T:5").arg(&path).stdin(Stdio::null()).stderr(Stdio::null()).output();
                ok = matches!(&out, Ok(o) if String::from_utf8_lossy(&o.stdout).lines().next() == Some("unsat"));
                if !self.cfg.dump {
                    let _ = std::fs::remove_file(&path);
                }
            }
            spent += t.elapsed().as_secs_f64();
            self.out.t_sat += t.elapsed().as_secs_f64();
            if ok {
                self.done("z3, linear integer arithmetic");
            } else {
                misses += 1;
                rest.push(i);
            }
        }
        rest
    }
    fn process(&mut self, qs: Vec<(usize, L)>) {
        if qs.is_empty() {
            return;
        }
        if std::env::var("IRV_SHOW").is_ok() {
            for (i, _) in qs.iter().take(4) {
                let o = &self.ex.obligs[*i];
                eprintln!("open obligation {} {}: pc={} cond={}", o.label, o.func, self.ex.x.show(o.pc, 5), self.ex.x.show(o.cond, 8));
            }
        }
        let hits = self.simulate(&qs, 16, 12345);
        let mut refuted: HashMap<usize, ()> = HashMap::new();
        let mut labels: BTreeMap<String, u32> = BTreeMap::new();
        for (j, m) in &hits {
            refuted.insert(*j, ());
            let l = self.ex.obligs[qs[*j].0].label.clone();
            let c = labels.entry(l).or_insert(0);
            *c += 1;
            if *c <= 2 {
                self.fail(qs[*j].0, "simulation", Some(m));
            } else {
                self.undecided(qs[*j].0, "same obligation already refuted elsewhere");
            }
        }
        let rest: Vec<(usize, L)> = qs.iter().enumerate().filter(|(j, _)| !refuted.contains_key(j)).map(|(_, q)| *q).collect();
        self.batch(rest);
    }
}

fn msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<Stop>() {
        return s.0.clone();
    }
    if p.is::<Over>() {
        return "bit-level encoding too large".into();
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return format!("internal: {}", s);
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return format!("internal: {}", s);
    }
    "internal error".into()
}

/// one run of one entry under one vector of choices
pub fn one(m: Arc<Module>, opts: Arc<Opts>, entry: usize, prefix: Vec<(u32, u32)>, cfg: Cfg) -> (Outcome, Vec<(u32, u32)>) {
    let plen = prefix.len();
    let _ = plen;
    let t0 = Instant::now();
    let mut ex = Exec::new(m.clone(), opts.clone(), prefix);
    ex.x.max_nodes = cfg.max_nodes;
    let dl = (t0 + Duration::from_secs_f64(cfg.run_time)).min(cfg.deadline);
    ex.deadline = Some(dl);
    let or = Rc::new(RefCell::new(Oracle::new(&cfg, 1)));
    ex.oracle = Some(Box::new(move |x, asm, c| or.borrow_mut().ask(x, asm, c)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut st = St { mem: Mem::default(), env: vec![], pc: TRUE, facts: vec![], ret: None };
        ctors(&mut ex, &mut st);
        ex.call_func(&mut st, entry, vec![]);
    }));
    ex.oracle = None;
    let mut out = Outcome::default();
    out.runs = 1;
    let ch = ex.choices.iter().zip(ex.choice_names.iter()).map(|(_, n)| n.clone()).collect::<Vec<_>>().join(",");
    if let Err(p) = r {
        out.stops.push((ch, format!("{} in {}", msg(p), ex.stack.iter().rev().take(3).map(|f| opts.demangled.get(&m.funcs[*f].name).cloned().unwrap_or(m.funcs[*f].name.clone())).collect::<Vec<_>>().join(" < "))));
    }
    out.t_exec = t0.elapsed().as_secs_f64();
    let t1 = Instant::now();
    let mut run = Run { ex: &mut ex, cfg: cfg.clone(), out, aig: Aig::new(cfg.aig_limit), pre: HashMap::new() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run.solve()));
    let mut out = run.out;
    if let Err(p) = r {
        out.stops.push((String::new(), format!("solving: {}", msg(p))));
    }
    out.t_solve = t1.elapsed().as_secs_f64();
    out.max_terms = ex.x.n.len() as u64;
    out.steps = ex.steps;
    out.sym_unrolls = ex.sym_unrolls;
    out.feas_calls = ex.feas_calls;
    let dem = |s: &String| opts.demangled.get(s).cloned().unwrap_or(s.clone());
    for (k, v) in &ex.inlined {
        *out.inlined.entry(dem(k)).or_insert(0) += v;
    }
    for (k, v) in &ex.replaced {
        *out.replaced.entry(dem(k)).or_insert(0) += v;
    }
    for (k, v) in &ex.externs {
        *out.externs.entry(dem(k)).or_insert(0) += v;
    }
    for k in &ex.notes {
        *out.notes.entry(k.clone()).or_insert(0) += 1;
    }
    let choices = ex.choices.clone();
    (out, choices)
}

fn ctors(ex: &mut Exec, st: &mut St) {
    let m = ex.m.clone();
    if let Some(&g) = m.gix.get("llvm.global_ctors") {
        if let Some(Op::Agg(_, v)) = &m.globals[g].init {
            for e in v {
                if let Op::Agg(_, f) = e {
                    if let Op::Global(k) = &f[1] {
                        if let Some(fi) = m.globals[*k].func {
                            ex.call_func(st, fi, vec![]);
                        }
                    }
                }
            }
        }
    }
}

fn add(a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k).or_insert(0) += v;
    }
}
impl Outcome {
    pub fn merge(&mut self, o: Outcome) {
        self.runs += o.runs;
        self.total += o.total;
        add(&mut self.by_kind, o.by_kind);
        add(&mut self.by_backend, o.by_backend);
        add(&mut self.labels, o.labels);
        self.failures.extend(o.failures);
        self.undecided.extend(o.undecided);
        self.stops.extend(o.stops);
        for (k, v) in o.covers {
            let e = self.covers.entry(k).or_insert(v.clone());
            if v == "reached" || (v == "unknown" && e == "unreachable") {
                *e = v;
            }
        }
        add(&mut self.inlined, o.inlined);
        add(&mut self.replaced, o.replaced);
        add(&mut self.externs, o.externs);
        add(&mut self.notes, o.notes);
        self.t_exec += o.t_exec;
        self.t_solve += o.t_solve;
        self.t_sat += o.t_sat;
        self.max_terms = self.max_terms.max(o.max_terms);
        self.steps += o.steps;
        self.sym_unrolls += o.sym_unrolls;
        self.feas_calls += o.feas_calls;
        self.cancelled |= o.cancelled;
    }
}

struct Pool {
    q: Vec<(usize, Vec<(u32, u32)>)>,
    busy: usize,
    done: Vec<Outcome>,
}

pub fn all(m: Arc<Module>, opts: Arc<Opts>, entries: &[(String, usize)], cfg: &Cfg, jobs: usize, max_runs: u64) -> Vec<Outcome> {
    let pool = Arc::new((Mutex::new(Pool { q: (0..entries.len()).rev().map(|i| (i, vec![])).collect(), busy: 0, done: entries.iter().map(|_| Outcome::default()).collect() }), Condvar::new()));
    let nruns = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    let ents: Arc<Vec<(String, usize)>> = Arc::new(entries.to_vec());
    for _ in 0..jobs {
        let (pool, m, opts, cfg, ents, nruns) = (pool.clone(), m.clone(), opts.clone(), cfg.clone(), ents.clone(), nruns.clone());
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || loop {
            let task = {
                let mut p = pool.0.lock().unwrap();
                loop {
                    if let Some(t) = p.q.pop() {
                        p.busy += 1;
                        break Some(t);
                    }
                    if p.busy == 0 {
                        break None;
                    }
                    p = pool.1.wait(p).unwrap();
                }
            };
            let (ei, prefix) = match task {
                Some(t) => t,
                None => {
                    pool.1.notify_all();
                    return;
                }
            };
            let skip = {
                let p = pool.0.lock().unwrap();
                p.done[ei].failures.iter().filter(|f| f.kind != "ub").count() >= cfg.max_fail || p.done[ei].runs >= max_runs || Instant::now() > cfg.deadline
            };
            if skip {
                let mut p = pool.0.lock().unwrap();
                if !p.done[ei].cancelled {
                    p.done[ei].cancelled = true;
                    if p.done[ei].failures.is_empty() {
                        let why = if Instant::now() > cfg.deadline { "time limit" } else { "too many case splits" };
                        p.done[ei].stops.push((String::new(), why.into()));
                    }
                }
                p.busy -= 1;
                pool.1.notify_all();
                continue;
            }
            nruns.fetch_add(1, Ordering::SeqCst);
            let pl = prefix.len();
            let (o, ch) = one(m.clone(), opts.clone(), ents[ei].1, prefix, cfg.clone());
            if cfg.verbose {
                eprintln!("{} [{}] total {} fail {} undecided {} stops {:?} exec {:.2}s solve {:.2}s terms {} {:?}", ents[ei].0, ch.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(","), o.total, o.failures.len(), o.undecided.len(), o.stops, o.t_exec, o.t_solve, o.max_terms, o.by_backend);
            }
            let mut p = pool.0.lock().unwrap();
            p.done[ei].merge(o);
            for i in (pl..ch.len()).rev() {
                for k in (1..ch[i].1).rev() {
                    let mut v = ch[..i].to_vec();
                    v.push((k, ch[i].1));
                    p.q.push((ei, v));
                }
            }
            p.busy -= 1;
            pool.1.notify_all();
        });
        hs.push(h.unwrap());
    }
    for h in hs {
        let _ = h.join();
    }
    let mut p = pool.0.lock().unwrap();
    std::mem::take(&mut p.done)
}

// ---------- output
pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            '\n' => r += "\\n",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","))
}
pub fn json(name: &str, o: &Outcome) -> String {
    let fs: Vec<String> = o
        .failures
        .iter()
        .map(|f| {
            format!(
                "{{\"label\":{},\"kind\":{},\"func\":{},\"backend\":{},\"abstracted\":{},\"choices\":[{}],\"model\":[{}]}}",
                jstr(&f.label),
                jstr(&f.kind),
                jstr(&f.func),
                jstr(&f.backend),
                f.abstracted,
                f.choices.iter().map(|c| jstr(c)).collect::<Vec<_>>().join(","),
                f.model.iter().map(|(n, i, w, v)| format!("[{},{},{},\"{}\"]", jstr(n), i, w, v)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let us: Vec<String> = o.undecided.iter().take(50).map(|u| format!("[{},{},{},{}]", jstr(&u.0), jstr(&u.1), jstr(&u.2), jstr(&u.3))).collect();
    let ss: Vec<String> = o.stops.iter().take(20).map(|u| format!("[{},{}]", jstr(&u.0), jstr(&u.1))).collect();
    let cs: Vec<String> = o.covers.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
    format!(
        "{{\"entry\":{},\"runs\":{},\"total\":{},\"by_kind\":{},\"by_backend\":{},\"labels\":{},\"failures\":[{}],\"n_failures\":{},\"undecided\":[{}],\"n_undecided\":{},\"stops\":[{}],\"n_stops\":{},\"covers\":{{{}}},\"inlined\":{},\"replaced\":{},\"externs\":{},\"notes\":{},\"t_exec\":{:.3},\"t_solve\":{:.3},\"t_sat\":{:.3},\"max_terms\":{},\"steps\":{},\"sym_unrolls\":{},\"feas_calls\":{}}}",
        jstr(name),
        o.runs,
        o.total,
        jmap(&o.by_kind),
        jmap(&o.by_backend),
        jmap(&o.labels),
        fs.join(","),
        o.failures.len(),
        us.join(","),
        o.undecided.len(),
        ss.join(","),
        o.stops.len(),
        cs.join(","),
        jmap(&o.inlined),
        jmap(&o.replaced),
        jmap(&o.externs),
        jmap(&o.notes),
        o.t_exec,
        o.t_solve,
        o.t_sat,
        o.max_terms,
        o.steps,
        o.sym_unrolls,
        o.feas_calls
    )
}
