//! Parser for the textual LLVM IR (clang/opt 18, opaque pointers) that the front end emits from the real headers.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Half,
    Float,
    Double,
    BigFloat(u32),
    Ptr,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Named(usize),
    Label,
    Meta,
    Token,
}

#[derive(Clone, Debug)]
pub enum Op {
    Local(u32),
    Int(u32, u128), // width, value
    Fp(u32, u128),  // width, bits
    Null,
    Undef(Ty),
    Zero(Ty),
    Agg(Ty, Vec<Op>),
    Str(Vec<u8>),
    Global(usize),
    Cast(Box<CastK>, Box<Op>, Ty, Ty),
    Gep(Ty, Vec<(Ty, Op)>),
    Bin(String, Box<Op>, Box<Op>, Ty),
    Meta,
    Block(u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    AddrSpace,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub struct Arg {
    pub ty: Ty,
    pub op: Op,
    pub byval: Option<Ty>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { k: BinK, ty: Ty, a: Op, b: Op, nsw: bool, nuw: bool, exact: bool },
    FNeg { ty: Ty, a: Op },
    ICmp { p: Pred, ty: Ty, a: Op, b: Op },
    FCmp { p: String, ty: Ty, a: Op, b: Op },
    Cast { k: CastK, from: Ty, to: Ty, a: Op },
    Alloca { ty: Ty, n: Option<(Ty, Op)>, align: u32 },
    Load { ty: Ty, p: Op },
    Store { ty: Ty, v: Op, p: Op },
    Gep { ty: Ty, base: Op, basety: Ty, idx: Vec<(Ty, Op)> },
    Call { ret: Ty, f: Op, args: Vec<Arg> },
    Phi { ty: Ty, inc: Vec<(Op, u32)> },
    Select { cty: Ty, c: Op, ty: Ty, a: Op, b: Op },
    ExtractElement { vty: Ty, v: Op, i: Op },
    InsertElement { vty: Ty, v: Op, x: Op, i: Op },
    Shuffle { vty: Ty, a: Op, b: Op, mty: Ty, m: Op },
    ExtractValue { ty: Ty, a: Op, idx: Vec<u32> },
    InsertValue { ty: Ty, a: Op, xty: Ty, x: Op, idx: Vec<u32> },
    Freeze { ty: Ty, a: Op },
    Br { t: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: Ty, v: Op, d: u32, cases: Vec<(u128, u32)> },
    Ret { v: Option<(Ty, Op)> },
    Unreachable,
    Fence,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<(Option<u32>, Inst)>,
    pub preds: Vec<u32>,
    pub succs: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, Option<Ty>, u32)>, // type, byval, slot
    pub varargs: bool,
    pub blocks: Vec<Block>,
    pub nslots: u32,
    pub slot_names: Vec<String>,
    pub is_def: bool,
    pub ipdom: Vec<u32>, // block -> ipdom (blocks.len() = exit)
    pub loops: Vec<LoopInfo>,
    pub header_of: HashMap<u32, usize>,
}
#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub header: u32,
    pub body: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<Op>,
    pub func: Option<usize>,
    pub align: u32,
}

#[derive(Default, Debug)]
pub struct Module {
    pub named: Vec<(String, Option<Ty>)>,
    pub named_ix: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gix: HashMap<String, usize>,
    pub funcs: Vec<Func>,
    pub ctors: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),  // identifiers, keywords, numbers
    Local(String), // %x
    Glob(String),  // @x
    Str(Vec<u8>),  // c"..." or "..."
    Meta(String),  // !x
    Attr(String),  // #0
    P(char),
    Dots,
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    fn isid(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn quoted(b: &[u8], i: &mut usize) -> Vec<u8> {
        // at opening quote
        *i += 1;
        let mut v = vec![];
        while b[*i] != b'"' {
            if b[*i] == b'\\' && *i + 2 < b.len() && (b[*i + 1] as char).is_ascii_hexdigit() && (b[*i + 2] as char).is_ascii_hexdigit() {
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            } else if b[*i] == b'\\' && b[*i + 1] == b'\\' {
                v.push(b'\\');
                *i += 2;
            } else {
                v.push(b[*i]);
                *i += 1;
            }
        }
        *i += 1;
        v
    }
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\r' {
            i += 1;
        } else if c == b';' {
            break;
        } else if c == b'%' || c == b'@' {
            i += 1;
            let name = if b[i] == b'"' {
                String::from_utf8_lossy(&quoted(b, &mut i)).to_string()
            } else {
                let st = i;
                while i < b.len() && isid(b[i]) {
                    i += 1;
                }
                s[st..i].to_string()
            };
            out.push(if c == b'%' { T::Local(name) } else { T::Glob(name) });
        } else if c == b'"' {
            let q = quoted(b, &mut i);
            // quoted block label:   "name":
            out.push(T::Str(q));
        } else if c == b'c' && i + 1 < b.len() && b[i + 1] == b'"' {
            i += 1;
            out.push(T::Str(quoted(b, &mut i)));
        } else if c == b'!' {
            let st = i;
            i += 1;
            while i < b.len() && isid(b[i]) {
                i += 1;
            }
            out.push(T::Meta(s[st..i].to_string()));
        } else if c == b'#' {
            let st = i;
            i += 1;
            while i < b.len() && isid(b[i]) {
                i += 1;
            }
            out.push(T::Attr(s[st..i].to_string()));
        } else if c == b'.' && i + 2 < b.len() && b[i + 1] == b'.' && b[i + 2] == b'.' {
            i += 3;
            out.push(T::Dots);
        } else if isid(c) || c == b'+' {
            let st = i;
            i += 1;
            while i < b.len() && (isid(b[i]) || (b[i] == b'+' && (b[i - 1] == b'e'))) {
                i += 1;
            }
            out.push(T::Word(s[st..i].to_string()));
        } else {
            out.push(T::P(c as char));
            i += 1;
        }
    }
    out
}

struct P<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a mut Module,
    slots: HashMap<String, u32>,
    slot_names: Vec<String>,
    labels: HashMap<String, u32>,
    line: String,
}

type R<X> = Result<X, String>;

impl<'a> P<'a> {
    fn err<X>(&self, s: &str) -> R<X> {
        Err(format!("{} at token {:?} in: {}", s, self.t.get(self.i), self.line))
    }
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn eatp(&mut self, c: char) -> bool {
        if self.peek() == Some(&T::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expp(&mut self, c: char) -> R<()> {
        if self.eatp(c) {
            Ok(())
        } else {
            self.err(&format!("expected {}", c))
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<String> {
        match self.peek() {
            Some(T::Word(w)) => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            _ => self.err("expected word"),
        }
    }
    fn named(&mut self, n: &str) -> usize {
        if let Some(&k) = self.m.named_ix.get(n) {
            return k;
        }
        let k = self.m.named.len();
        self.m.named.push((n.to_string(), None));
        self.m.named_ix.insert(n.to_string(), k);
        k
    }
    fn global(&mut self, n: &str) -> usize {
        gref(self.m, n)
    }
    fn slot(&mut self, n: &str) -> u32 {
        if let Some(&k) = self.slots.get(n) {
            return k;
        }
        let k = self.slot_names.len() as u32;
        self.slot_names.push(n.to_string());
        self.slots.insert(n.to_string(), k);
        k
    }
    fn ty(&mut self) -> R<Ty> {
        let base = match self.peek().cloned() {
            Some(T::Word(w)) => {
                self.i += 1;
                match w.as_str() {
                    "void" => Ty::Void,
                    "half" => Ty::Half,
                    "bfloat" => Ty::Half,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "x86_fp80" => Ty::BigFloat(80),
                    "fp128" => Ty::BigFloat(128),
                    "ptr" => {
                        if self.eatw("addrspace") {
                            self.expp('(')?;
                            self.word()?;
                            self.expp(')')?;
                        }
                        Ty::Ptr
                    }
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" => Ty::Token,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => {
                        self.i -= 1;
                        return self.err("type?");
                    }
                }
            }
            Some(T::P('[')) => {
                self.i += 1;
                let n: u64 = self.word()?.parse().map_err(|_| "arr".to_string())?;
                if !self.eatw("x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.expp(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Some(T::P('<')) => {
                self.i += 1;
                if self.eatp('{') {
                    let v = self.tylist('}')?;
                    self.expp('>')?;
                    Ty::Struct(v, true)
                } else {
                    let n: u32 = self.word()?.parse().map_err(|_| "vec".to_string())?;
                    if !self.eatw("x") {
                        return self.err("x");
                    }
                    let t = self.ty()?;
                    self.expp('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Some(T::P('{')) => {
                self.i += 1;
                Ty::Struct(self.tylist('}')?, false)
            }
            Some(T::Local(n)) => {
                self.i += 1;
                Ty::Named(self.named(&n))
            }
            _ => return self.err("type?"),
        };
        // function type  T (args)
        if self.peek() == Some(&T::P('(')) && self.fnty_ahead() {
            let mut d = 0;
            loop {
                match self.peek() {
                    Some(T::P('(')) => d += 1,
                    Some(T::P(')')) => d -= 1,
                    None => return self.err("fnty"),
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
        Ok(base)
    }
    fn fnty_ahead(&self) -> bool {
        // "(" ... ")" followed by @ or % => function type in a call
        let mut d = 0;
        let mut j = self.i;
        while j < self.t.len() {
            match &self.t[j] {
                T::P('(') => d += 1,
                T::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return matches!(self.t.get(j + 1), Some(T::Glob(_)) | Some(T::Local(_)));
                    }
                }
                _ => {}
            }
            j += 1;
        }
        false
    }
    fn tylist(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eatp(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eatp(',') {
                continue;
            }
            self.expp(end)?;
            return Ok(v);
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.peek() {
                Some(T::P('(')) => d += 1,
                Some(T::P(')')) => d -= 1,
                None => return,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn param_attrs(&mut self) -> R<Option<Ty>> {
        let mut byval = None;
        loop {
            match self.peek().cloned() {
                Some(T::Word(w)) => match w.as_str() {
                    "byval" => {
                        self.i += 1;
                        self.expp('(')?;
                        byval = Some(self.ty()?);
                        self.expp(')')?;
                    }
                    "sret" | "dereferenceable" | "dereferenceable_or_null" | "elementtype" | "inalloca" | "byref" | "nofpclass" | "preallocated" => {
                        self.i += 1;
                        self.skip_parens();
                    }
                    "align" | "alignstack" => {
                        self.i += 1;
                        if self.peek() == Some(&T::P('(')) {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    }
                    "noundef" | "dead_on_unwind" | "writable" | "range" | "nonnull" | "signext" | "zeroext" | "inreg" | "noalias" | "nocapture" | "readonly" | "writeonly" | "readnone" | "returned" | "nest" | "immarg" | "nofree" | "swiftself" | "swifterror" | "noext" | "allocptr" | "allocalign" => {
                        self.i += 1;
                    }
                    _ => return Ok(byval),
                },
                _ => return Ok(byval),
            }
        }
    }
    fn typed_op(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.param_attrs()?;
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        match self.peek().cloned() {
            Some(T::Local(n)) => {
                self.i += 1;
                if *ty == Ty::Label {
                    return Ok(Op::Block(*self.labels.get(&n).ok_or(format!("label {}", n))?));
                }
                Ok(Op::Local(self.slot(&n)))
            }
            Some(T::Glob(n)) => {
                self.i += 1;
                Ok(Op::Global(self.global(&n)))
            }
            Some(T::Str(s)) => {
                self.i += 1;
                Ok(Op::Str(s))
            }
            Some(T::Meta(_)) => {
                self.i = self.t.len();
                Ok(Op::Meta)
            }
            Some(T::P('[')) | Some(T::P('{')) => {
                self.i += 1;
                let v = self.oplist()?;
                Ok(Op::Agg(ty.clone(), v))
            }
            Some(T::P('<')) => {
                self.i += 1;
                if self.eatp('{') {
                    let v = self.oplist()?;
                    self.expp('>')?;
                    return Ok(Op::Agg(ty.clone(), v));
                }
                let v = self.oplist()?;
                Ok(Op::Agg(ty.clone(), v))
            }
            Some(T::Word(w)) => {
                self.i += 1;
                match w.as_str() {
                    "true" => return Ok(Op::Int(1, 1)),
                    "false" => return Ok(Op::Int(1, 0)),
                    "null" => return Ok(Op::Null),
                    "none" => return Ok(Op::Null),
                    "undef" | "poison" => return Ok(Op::Undef(ty.clone())),
                    "zeroinitializer" => return Ok(Op::Zero(ty.clone())),
                    "getelementptr" => {
                        while self.eatw("inbounds") {}
                        self.expp('(')?;
                        let t = self.ty()?;
                        let mut v = vec![];
                        while self.eatp(',') {
                            if self.eatw("inrange") {}
                            v.push(self.typed_op()?);
                        }
                        self.expp(')')?;
                        return Ok(Op::Gep(t, v));
                    }
                    "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => {
                        self.expp('(')?;
                        let (f, o) = self.typed_op()?;
                        if !self.eatw("to") {
                            return self.err("to");
                        }
                        let t = self.ty()?;
                        self.expp(')')?;
                        return Ok(Op::Cast(Box::new(castk(&w).unwrap()), Box::new(o), f, t));
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                        while self.eatw("nsw") || self.eatw("nuw") {}
                        self.expp('(')?;
                        let (f, a) = self.typed_op()?;
                        self.expp(',')?;
                        let (_, b) = self.typed_op()?;
                        self.expp(')')?;
                        return Ok(Op::Bin(w, Box::new(a), Box::new(b), f));
                    }
                    _ => {}
                }
                match ty {
                    Ty::Int(n) => {
                        let v = if let Ok(x) = w.parse::<i128>() {
                            x as u128
                        } else if let Ok(x) = w.parse::<u128>() {
                            x
                        } else {
                            return self.err("int const");
                        };
                        Ok(Op::Int(*n, mask(*n, v)))
                    }
                    Ty::Float | Ty::Double | Ty::Half => Ok(fpconst(&w, ty).ok_or(format!("fp const {}", w))?),
                    Ty::BigFloat(n) => Ok(Op::Fp(*n, 0)),
                    _ => {
                        self.i -= 1;
                        self.err("const?")
                    }
                }
            }
            _ => self.err("operand?"),
        }
    }
    fn oplist(&mut self) -> R<Vec<Op>> {
        let mut v = vec![];
        if self.eatp(']') || self.eatp('}') || self.eatp('>') {
            return Ok(v);
        }
        loop {
            v.push(self.typed_op()?.1);
            if self.eatp(',') {
                continue;
            }
            if self.eatp(']') || self.eatp('}') || self.eatp('>') {
                return Ok(v);
            }
            return self.err("oplist");
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatw("label") {
            return self.err("label");
        }
        match self.op(&Ty::Label)? {
            Op::Block(b) => Ok(b),
            _ => self.err("label"),
        }
    }
    fn fastflags(&mut self) {
        while let Some(T::Word(w)) = self.peek() {
            match w.as_str() {
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" => self.i += 1,
                _ => break,
            }
        }
    }
    fn inst(&mut self) -> R<(Option<u32>, Inst)> {
        let mut dst = None;
        if let Some(T::Local(n)) = self.peek().cloned() {
            self.i += 1;
            self.expp('=')?;
            dst = Some(self.slot(&n));
        }
        let w = self.word()?;
        let bk = match w.as_str() {
            "add" => Some(BinK::Add),
            "sub" => Some(BinK::Sub),
            "mul" => Some(BinK::Mul),
            "udiv" => Some(BinK::UDiv),
            "sdiv" => Some(BinK::SDiv),
            "urem" => Some(BinK::URem),
            "srem" => Some(BinK::SRem),
            "shl" => Some(BinK::Shl),
            "lshr" => Some(BinK::LShr),
            "ashr" => Some(BinK::AShr),
            "and" => Some(BinK::And),
            "or" => Some(BinK::Or),
            "xor" => Some(BinK::Xor),
            "fadd" => Some(BinK::FAdd),
            "fsub" => Some(BinK::FSub),
            "fmul" => Some(BinK::FMul),
            "fdiv" => Some(BinK::FDiv),
            "frem" => Some(BinK::FRem),
            _ => None,
        };
        if let Some(k) = bk {
            let (mut nsw, mut nuw, mut exact) = (false, false, false);
            self.fastflags();
            loop {
                if self.eatw("nsw") {
                    nsw = true
                } else if self.eatw("nuw") {
                    nuw = true
                } else if self.eatw("exact") {
                    exact = true
                } else if self.eatw("disjoint") {
                } else {
                    break;
                }
            }
            let (ty, a) = self.typed_op()?;
            self.expp(',')?;
            let b = self.op(&ty)?;
            return Ok((dst, Inst::Bin { k, ty, a, b, nsw, nuw, exact }));
        }
        if let Some(k) = castk(&w) {
            while self.eatw("nneg") || self.eatw("nuw") || self.eatw("nsw") {}
            self.fastflags();
            let (from, a) = self.typed_op()?;
            if !self.eatw("to") {
                return self.err("to");
            }
            let to = self.ty()?;
            return Ok((dst, Inst::Cast { k, from, to, a }));
        }
        let ins = match w.as_str() {
            "fneg" => {
                self.fastflags();
                let (ty, a) = self.typed_op()?;
                Inst::FNeg { ty, a }
            }
            "freeze" => {
                let (ty, a) = self.typed_op()?;
                Inst::Freeze { ty, a }
            }
            "icmp" => {
                let p = match self.word()?.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return self.err("pred"),
                };
                let (ty, a) = self.typed_op()?;
                self.expp(',')?;
                let b = self.op(&ty)?;
                Inst::ICmp { p, ty, a, b }
            }
            "fcmp" => {
                self.fastflags();
                let p = self.word()?;
                let (ty, a) = self.typed_op()?;
                self.expp(',')?;
                let b = self.op(&ty)?;
                Inst::FCmp { p, ty, a, b }
            }
            "alloca" => {
                self.eatw("inalloca");
                let ty = self.ty()?;
                let mut n = None;
                let mut align = 1;
                while self.eatp(',') {
                    if self.eatw("align") {
                        align = self.word()?.parse().unwrap_or(1);
                    } else if self.eatw("addrspace") {
                        self.skip_parens();
                    } else {
                        n = Some(self.typed_op()?);
                    }
                }
                Inst::Alloca { ty, n, align }
            }
            "load" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let ty = self.ty()?;
                self.expp(',')?;
                let (_, p) = self.typed_op()?;
                Inst::Load { ty, p }
            }
            "store" => {
                self.eatw("atomic");
                self.eatw("volatile");
                let (ty, v) = self.typed_op()?;
                self.expp(',')?;
                let (_, p) = self.typed_op()?;
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                while self.eatw("inbounds") || self.eatw("nuw") || self.eatw("nusw") {}
                let ty = self.ty()?;
                self.expp(',')?;
                let (basety, base) = self.typed_op()?;
                let mut idx = vec![];
                while self.eatp(',') {
                    idx.push(self.typed_op()?);
                }
                Inst::Gep { ty, base, basety, idx }
            }
            "tail" | "musttail" | "notail" | "call" => {
                if w != "call" {
                    self.word()?;
                }
                self.fastflags();
                // calling conv + ret attrs
                loop {
                    if self.eatw("fastcc") || self.eatw("ccc") || self.eatw("coldcc") {
                        continue;
                    }
                    let st = self.i;
                    self.param_attrs()?;
                    if self.i == st {
                        break;
                    }
                }
                let ret = self.ty()?;
                if self.isw("asm") {
                    return self.err("inline asm");
                }
                let f = match self.peek().cloned() {
                    Some(T::Glob(n)) => {
                        self.i += 1;
                        Op::Global(self.global(&n))
                    }
                    Some(T::Local(n)) => {
                        self.i += 1;
                        Op::Local(self.slot(&n))
                    }
                    _ => return self.err("callee"),
                };
                self.expp('(')?;
                let mut args = vec![];
                if !self.eatp(')') {
                    loop {
                        let ty = self.ty()?;
                        if ty == Ty::Meta {
                            // skip to , or )
                            let mut d = 0;
                            loop {
                                match self.peek() {
                                    Some(T::P('(')) => d += 1,
                                    Some(T::P(')')) if d == 0 => break,
                                    Some(T::P(')')) => d -= 1,
                                    Some(T::P(',')) if d == 0 => break,
                                    None => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push(Arg { ty, op: Op::Meta, byval: None });
                        } else {
                            let byval = self.param_attrs()?;
                            let op = self.op(&ty)?;
                            args.push(Arg { ty, op, byval });
                        }
                        if self.eatp(',') {
                            continue;
                        }
                        self.expp(')')?;
                        break;
                    }
                }
                Inst::Call { ret, f, args }
            }
            "phi" => {
                self.fastflags();
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expp('[')?;
                    let o = self.op(&ty)?;
                    self.expp(',')?;
                    let b = match self.op(&Ty::Label)? {
                        Op::Block(b) => b,
                        _ => return self.err("phi"),
                    };
                    self.expp(']')?;
                    inc.push((o, b));
                    if !self.eatp(',') {
                        break;
                    }
                    if !matches!(self.peek(), Some(T::P('['))) {
                        break;
                    }
                }
                Inst::Phi { ty, inc }
            }
            "select" => {
                self.fastflags();
                let (cty, c) = self.typed_op()?;
                self.expp(',')?;
                let (ty, a) = self.typed_op()?;
                self.expp(',')?;
                let (_, b) = self.typed_op()?;
                Inst::Select { cty, c, ty, a, b }
            }
            "extractelement" => {
                let (vty, v) = self.typed_op()?;
                self.expp(',')?;
                let (_, i) = self.typed_op()?;
                Inst::ExtractElement { vty, v, i }
            }
            "insertelement" => {
                let (vty, v) = self.typed_op()?;
                self.expp(',')?;
                let (_, x) = self.typed_op()?;
                self.expp(',')?;
                let (_, i) = self.typed_op()?;
                Inst::InsertElement { vty, v, x, i }
            }
            "shufflevector" => {
                let (vty, a) = self.typed_op()?;
                self.expp(',')?;
                let (_, b) = self.typed_op()?;
                self.expp(',')?;
                let (mty, m) = self.typed_op()?;
                Inst::Shuffle { vty, a, b, mty, m }
            }
            "extractvalue" => {
                let (ty, a) = self.typed_op()?;
                let mut idx = vec![];
                while self.eatp(',') {
                    if let Ok(x) = self.word()?.parse() {
                        idx.push(x)
                    }
                }
                Inst::ExtractValue { ty, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.typed_op()?;
                self.expp(',')?;
                let (xty, x) = self.typed_op()?;
                let mut idx = vec![];
                while self.eatp(',') {
                    if let Ok(x) = self.word()?.parse() {
                        idx.push(x)
                    }
                }
                Inst::InsertValue { ty, a, xty, x, idx }
            }
            "br" => {
                if self.isw("label") {
                    Inst::Br { t: self.label()? }
                } else {
                    let (_, c) = self.typed_op()?;
                    self.expp(',')?;
                    let t = self.label()?;
                    self.expp(',')?;
                    let f = self.label()?;
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.typed_op()?;
                self.expp(',')?;
                let d = self.label()?;
                self.expp('[')?;
                let mut cases = vec![];
                while !self.eatp(']') {
                    let (_, o) = self.typed_op()?;
                    self.expp(',')?;
                    let l = self.label()?;
                    if let Op::Int(_, v) = o {
                        cases.push((v, l));
                    }
                }
                Inst::Switch { ty, v, d, cases }
            }
            "ret" => {
                if self.eatw("void") {
                    Inst::Ret { v: None }
                } else {
                    Inst::Ret { v: Some(self.typed_op()?) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Fence,
            _ => return self.err("unknown instruction"),
        };
        Ok((dst, ins))
    }
}

pub fn mask(w: u32, v: u128) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

fn fpconst(w: &str, ty: &Ty) -> Option<Op> {
    if let Some(h) = w.strip_prefix("0xH") {
        return Some(Op::Fp(16, u128::from_str_radix(h, 16).ok()?));
    }
    let d: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).ok()?) } else { w.parse().ok()? };
    Some(match ty {
        Ty::Float => Op::Fp(32, (d as f32).to_bits() as u128),
        Ty::Double => Op::Fp(64, d.to_bits() as u128),
        _ => return None,
    })
}

fn castk(w: &str) -> Option<CastK> {
    Some(match w {
        "trunc" => CastK::Trunc,
        "zext" => CastK::Zext,
        "sext" => CastK::Sext,
        "bitcast" => CastK::Bitcast,
        "ptrtoint" => CastK::PtrToInt,
        "inttoptr" => CastK::IntToPtr,
        "fptrunc" => CastK::FpTrunc,
        "fpext" => CastK::FpExt,
        "fptoui" => CastK::FpToUi,
        "fptosi" => CastK::FpToSi,
        "uitofp" => CastK::UiToFp,
        "sitofp" => CastK::SiToFp,
        "addrspacecast" => CastK::AddrSpace,
        _ => return None,
    })
}

fn gref(m: &mut Module, n: &str) -> usize {
    if let Some(&k) = m.gix.get(n) {
        return k;
    }
    let k = m.globals.len();
    m.globals.push(Global { name: n.to_string(), ty: Ty::Void, constant: false, init: None, func: None, align: 16 });
    m.gix.insert(n.to_string(), k);
    k
}

pub fn parse(src: &str) -> R<Module> {
    let mut m = Module::default();
    let lines: Vec<&str> = src.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('%') {
            let t = lex(l);
            let mut p = P { t, i: 0, m: &mut m, slots: HashMap::new(), slot_names: vec![], labels: HashMap::new(), line: l.to_string() };
            if let Some(T::Local(n)) = p.peek().cloned() {
                p.i += 1;
                p.expp('=')?;
                p.eatw("type");
                let k = p.named(&n);
                if !p.isw("opaque") {
                    let ty = p.ty()?;
                    p.m.named[k].1 = Some(ty);
                }
            }
        } else if l.starts_with('@') {
            let t = lex(l);
            let mut p = P { t, i: 0, m: &mut m, slots: HashMap::new(), slot_names: vec![], labels: HashMap::new(), line: l.to_string() };
            if let Some(T::Glob(n)) = p.peek().cloned() {
                p.i += 1;
                p.expp('=')?;
                let mut ext = false;
                let mut alias = false;
                let mut cst = false;
                loop {
                    match p.peek() {
                        Some(T::Word(w)) => {
                            let w = w.clone();
                            p.i += 1;
                            match w.as_str() {
                                "external" | "extern_weak" => ext = true,
                                "constant" => {
                                    cst = true;
                                    break;
                                }
                                "global" => break,
                                "alias" => {
                                    alias = true;
                                    break;
                                }
                                _ => {}
                            }
                        }
                        Some(_) => p.i += 1,
                        None => break,
                    }
                }
                let k = p.global(&n);
                if alias {
                    let ty = p.ty()?;
                    p.eatp(',');
                    let (_, o) = p.typed_op()?;
                    p.m.globals[k].ty = ty;
                    p.m.globals[k].init = Some(Op::Cast(Box::new(CastK::AddrSpace), Box::new(o), Ty::Ptr, Ty::Ptr));
                    p.m.globals[k].constant = true;
                } else {
                    let ty = p.ty()?;
                    p.m.globals[k].ty = ty.clone();
                    p.m.globals[k].constant = cst;
                    if !ext {
                        let o = p.op(&ty)?;
                        p.m.globals[k].init = Some(o);
                    }
                    while p.i < p.t.len() {
                        if p.isw("align") {
                            if let Some(T::Word(x)) = p.t.get(p.i + 1) {
                                let a = x.parse().unwrap_or(1);
                                p.m.globals[k].align = a;
                            }
                        }
                        p.i += 1;
                    }
                }
            }
        } else if l.starts_with("define") || l.starts_with("declare") {
            let def = l.starts_with("define");
            let mut body: Vec<&str> = vec![];
            if def {
                i += 1;
                while lines[i] != "}" {
                    body.push(lines[i]);
                    i += 1;
                }
            }
            let t = lex(l);
            let mut p = P { t, i: 0, m: &mut m, slots: HashMap::new(), slot_names: vec![], labels: HashMap::new(), line: l.to_string() };
            // find @name
            let gi = p.t.iter().position(|x| matches!(x, T::Glob(_))).ok_or("no name")?;
            let name = if let T::Glob(n) = &p.t[gi] { n.clone() } else { unreachable!() };
            // return type: try to parse from successive positions
            let mut ret = Ty::Void;
            let mut j = 1;
            while j < gi {
                p.i = j;
                // skip attributes with parens
                if let T::Word(w) = &p.t[j] {
                    if matches!(w.as_str(), "dereferenceable" | "dereferenceable_or_null" | "nofpclass") {
                        p.i = j + 1;
                        p.skip_parens();
                        j = p.i;
                        continue;
                    }
                    if w == "align" {
                        j += 2;
                        continue;
                    }
                }
                if let Ok(t) = p.ty() {
                    if p.i == gi {
                        ret = t;
                        break;
                    }
                }
                j += 1;
            }
            p.i = gi + 1;
            p.expp('(')?;
            let mut params = vec![];
            let mut varargs = false;
            if !p.eatp(')') {
                loop {
                    if p.peek() == Some(&T::Dots) {
                        p.i += 1;
                        varargs = true;
                    } else {
                        let ty = p.ty()?;
                        let bv = p.param_attrs()?;
                        let nm = match p.peek().cloned() {
                            Some(T::Local(n)) => {
                                p.i += 1;
                                n
                            }
                            _ => format!("{}", params.len()),
                        };
                        let s = p.slot(&nm);
                        params.push((ty, bv, s));
                    }
                    if p.eatp(',') {
                        continue;
                    }
                    p.expp(')')?;
                    break;
                }
            }
            let mut f = Func { name: name.clone(), ret, params, varargs, blocks: vec![], nslots: 0, slot_names: vec![], is_def: def, ipdom: vec![], loops: vec![], header_of: HashMap::new() };
            if def {
                // labels
                let mut bl: Vec<(String, Vec<String>)> = vec![];
                let mut unnamed_entry = true;
                for bline in &body {
                    if bline.is_empty() {
                        continue;
                    }
                    if !bline.starts_with(' ') {
                        // label
                        let lx = lex(bline);
                        let nm = match &lx[0] {
                            T::Word(w) => w.clone(),
                            T::Str(s) => String::from_utf8_lossy(s).to_string(),
                            _ => return Err(format!("label? {}", bline)),
                        };
                        bl.push((nm, vec![]));
                        unnamed_entry = false;
                    } else {
                        if bl.is_empty() && unnamed_entry {
                            // implicit entry label: number of params unnamed
                            bl.push((format!("{}", f.params.len()), vec![]));
                        }
                        let lst = bl.last_mut().unwrap();
                        let tr = bline.trim_start();
                        // multi-line switch
                        if let Some(last) = lst.1.last_mut() {
                            if last.starts_with("switch") && !last.contains(']') {
                                last.push(' ');
                                last.push_str(tr);
                                continue;
                            }
                        }
                        lst.1.push(tr.to_string());
                    }
                }
                for (k, (nm, _)) in bl.iter().enumerate() {
                    p.labels.insert(nm.clone(), k as u32);
                }
                for (nm, ls) in &bl {
                    let mut insts = vec![];
                    for s in ls {
                        p.t = lex(s);
                        p.i = 0;
                        p.line = s.clone();
                        let ins = p.inst()?;
                        insts.push(ins);
                    }
                    f.blocks.push(Block { name: nm.clone(), insts, preds: vec![], succs: vec![] });
                }
                f.nslots = p.slot_names.len() as u32;
                f.slot_names = std::mem::take(&mut p.slot_names);
                analyse(&mut f);
            }
            let g = gref(&mut m, &name);
            let fi = m.funcs.len();
            m.funcs.push(f);
            m.globals[g].func = Some(fi);
        }
        i += 1;
    }
    // global ctors
    if let Some(&k) = m.gix.get("llvm.global_ctors") {
        if let Some(Op::Agg(_, v)) = &m.globals[k].init {
            let mut l = vec![];
            for e in v {
                if let Op::Agg(_, f) = e {
                    if let (Op::Int(_, pr), Op::Global(g)) = (&f[0], &f[1]) {
                        l.push((*pr, *g));
                    }
                }
            }
            l.sort_by_key(|x| x.0);
            m.ctors = l.iter().map(|x| x.1).collect();
        }
    }
    Ok(m)
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    for b in 0..n {
        let s: Vec<u32> = match &f.blocks[b].insts.last().unwrap().1 {
            Inst::Br { t } => vec![*t],
            Inst::CondBr { t, f, .. } => vec![*t, *f],
            Inst::Switch { d, cases, .. } => {
                let mut v = vec![*d];
                v.extend(cases.iter().map(|c| c.1));
                v
            }
            _ => vec![],
        };
        f.blocks[b].succs = s.clone();
        for t in s {
            if !f.blocks[t as usize].preds.contains(&(b as u32)) {
                f.blocks[t as usize].preds.push(b as u32);
            }
        }
    }
    // blocks that can reach a return
    let exit = n;
    let mut reach = vec![false; n];
    let mut work: Vec<usize> = (0..n).filter(|&b| matches!(f.blocks[b].insts.last().unwrap().1, Inst::Ret { .. })).collect();
    for &b in &work {
        reach[b] = true;
    }
    while let Some(b) = work.pop() {
        for &p in &f.blocks[b].preds {
            if !reach[p as usize] {
                reach[p as usize] = true;
                work.push(p as usize);
            }
        }
    }
    // post-dominators on the reverse CFG restricted to blocks reaching exit
    let mut order = vec![]; // postorder of reverse CFG from exit
    let mut seen = vec![false; n + 1];
    fn rpreds(f: &Func, b: usize, exit: usize) -> Vec<usize> {
        if b == exit {
            (0..exit).filter(|&x| matches!(f.blocks[x].insts.last().unwrap().1, Inst::Ret { .. })).collect()
        } else {
            f.blocks[b].preds.iter().map(|&x| x as usize).collect()
        }
    }
    let mut stack = vec![(exit, 0usize, rpreds(f, exit, exit))];
    seen[exit] = true;
    while let Some((b, k, ps)) = stack.last_mut() {
        if *k < ps.len() {
            let c = ps[*k];
            *k += 1;
            if !seen[c] {
                seen[c] = true;
                let rp = rpreds(f, c, exit);
                stack.push((c, 0, rp));
            }
        } else {
            order.push(*b);
            stack.pop();
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &b) in order.iter().enumerate() {
        num[b] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().rev() {
            if b == exit {
                continue;
            }
            let succs: Vec<usize> = if matches!(f.blocks[b].insts.last().unwrap().1, Inst::Ret { .. }) { vec![exit] } else { f.blocks[b].succs.iter().map(|&x| x as usize).filter(|&x| reach[x]).collect() };
            let mut new = usize::MAX;
            for s in succs {
                if idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut c) = (new, s);
                    while a != c {
                        while num[a] < num[c] {
                            a = idom[a];
                        }
                        while num[c] < num[a] {
                            c = idom[c];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[b] != new {
                idom[b] = new;
                changed = true;
            }
        }
    }
    f.ipdom = (0..n).map(|b| if idom[b] == usize::MAX { exit as u32 } else { idom[b] as u32 }).collect();
    // dominators (simple iterative set algorithm) for natural loops
    let mut dom: Vec<Vec<bool>> = vec![vec![true; n]; n];
    dom[0] = vec![false; n];
    dom[0][0] = true;
    let mut ch = true;
    while ch {
        ch = false;
        for b in 1..n {
            let mut d = vec![true; n];
            let ps = &f.blocks[b].preds;
            if ps.is_empty() {
                continue;
            }
            for &p in ps {
                for x in 0..n {
                    d[x] = d[x] && dom[p as usize][x];
                }
            }
            d[b] = true;
            if d != dom[b] {
                dom[b] = d;
                ch = true;
            }
        }
    }
    let mut loops: Vec<LoopInfo> = vec![];
    for b in 0..n {
        for &s in f.blocks[b].succs.clone().iter() {
            if dom[b][s as usize] {
                // back edge b->s
                let mut body = vec![s];
                let mut w = vec![b as u32];
                while let Some(x) = w.pop() {
                    if !body.contains(&x) {
                        body.push(x);
                        for &p in &f.blocks[x as usize].preds {
                            w.push(p);
                        }
                    }
                }
                if let Some(l) = loops.iter_mut().find(|l| l.header == s) {
                    for x in body {
                        if !l.body.contains(&x) {
                            l.body.push(x);
                        }
                    }
                } else {
                    loops.push(LoopInfo { header: s, body });
                }
            }
        }
    }
    loops.sort_by_key(|l| l.header);
    for (i, l) in loops.iter().enumerate() {
        f.header_of.insert(l.header, i);
    }
    f.loops = loops;
}

impl Module {
    pub fn res<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        let mut t = t;
        while let Ty::Named(k) = t {
            t = self.named[*k].1.as_ref().expect("opaque type");
        }
        t
    }
    pub fn size_align(&self, t: &Ty) -> (u64, u64) {
        match self.res(t) {
            Ty::Int(n) => {
                let s = ((*n as u64 + 7) / 8).next_power_of_two();
                (if *n > 64 { ((*n as u64 + 63) / 64) * 8 } else { s }, s.min(16))
            }
            Ty::Half => (2, 2),
            Ty::Float => (4, 4),
            Ty::Double | Ty::Ptr => (8, 8),
            Ty::BigFloat(_) => (16, 16),
            Ty::Vec(n, t) => {
                let bits = self.bits(t) as u64 * *n as u64;
                let s = ((bits + 7) / 8).next_power_of_two();
                (s, s)
            }
            Ty::Arr(n, t) => {
                let (s, a) = self.size_align(t);
                (s * n, a)
            }
            Ty::Struct(v, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in v {
                    let (s, a) = self.size_align(t);
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    o += s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            Ty::Void => (0, 1),
            x => panic!("size of {:?}", x),
        }
    }
    pub fn size(&self, t: &Ty) -> u64 {
        self.size_align(t).0
    }
    pub fn bits(&self, t: &Ty) -> u32 {
        match self.res(t) {
            Ty::Int(n) => *n,
            Ty::Half => 16,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            Ty::BigFloat(n) => *n,
            Ty::Vec(n, t) => n * self.bits(t),
            _ => (self.size(t) * 8) as u32,
        }
    }
    pub fn field_off(&self, v: &[Ty], packed: bool, k: usize) -> u64 {
        let mut o = 0;
        for (i, t) in v.iter().enumerate() {
            let (s, a) = self.size_align(t);
            let a = if packed { 1 } else { a };
            o = (o + a - 1) / a * a;
            if i == k {
                return o;
            }
            o += s;
        }
        panic!("field")
    }
}
