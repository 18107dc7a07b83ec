// Support code shared by every harness: the symbolic-input API, the abstract input
// type `Sym`, the dynamic value type `V`, and the reference PEG interpreter.
// Nothing here is derived from the generator under test: the reference evaluates the
// documented meaning of each operator directly over the grammar's syntax tree.
#![allow(dead_code, unused_imports, unused_macros, non_upper_case_globals)]
use std::fmt::Display;

pub mod sym {
    extern "C" {
        fn sym_byte() -> u8;
        fn sym_assume(c: u8);
        fn sym_assert(c: u8, p: *const u8, l: usize);
        fn sym_fail(p: *const u8, l: usize);
        fn sym_cover(i: u32);
        fn sym_conc(v: u64) -> u64;
        fn sym_log(v: u64);
        fn sym_note(p: *const u8, l: usize);
        fn sym_active() -> u32;
        fn sym_expect_panic();
        fn sym_done() -> !;
    }
    pub fn byte() -> u8 { unsafe { sym_byte() } }
    pub fn assume(c: bool) { unsafe { sym_assume(c as u8) } }
    pub fn ck(c: bool, m: &str) { unsafe { sym_assert(c as u8, m.as_ptr(), m.len()) } }
    pub fn fail(m: &str) { unsafe { sym_fail(m.as_ptr(), m.len()) } }
    pub fn cover(i: u32) { unsafe { sym_cover(i) } }
    pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
    pub fn log(v: u64) { unsafe { sym_log(v) } }
    pub fn note(m: &str) { unsafe { sym_note(m.as_ptr(), m.len()) } }
    pub fn active() -> bool { unsafe { sym_active() != 0 } }
    pub fn expect_panic() { unsafe { sym_expect_panic() } }
    pub fn done() -> ! { unsafe { sym_done() } }
    /// a symbolic value in 0..n, decided by forking
    pub fn pick(n: u64) -> u64 {
        if n <= 1 { return 0; }
        let b = byte() as u64;
        assume(b < n);
        conc(b)
    }
}

// ------------------------------------------------------------------ values
#[derive(Clone, Debug)]
pub enum V { U, El(u32), Pos(usize), Sl(usize, usize), No, So(Box<V>), L(Vec<V>), N(u32, Vec<V>), Num(u64) }
pub fn nd(k: u32, a: Vec<V>) -> V { unsafe { if EVT_ON { EVS.push((k, vseqhash(&a))); } } V::N(k, a) }
/// what embedded code ran, in order: actions, conditions (1000+), parsers in `#{}` (2000+)
static mut EVT_ON: bool = false;
static mut EVS: Vec<(u32, usize)> = vec![];
pub fn events() { unsafe { EVT_ON = true; } }
fn vseqhash(a: &[V]) -> usize { let mut h = 0; for x in a { h = (h * 7 + vhash(x)) % 65521; } h }
fn events_ok(want: &[(u32, usize)], ok: bool) {
    let got = unsafe { &EVS };
    sym::log(got.len() as u64);
    // a failed parse runs once more to find out what was expected
    let n = if ok || got.len() == want.len() { 1 } else { 2 };
    sym::cover(if want.is_empty() { 3 } else { 4 });
    sym::ck(got.len() == want.len() * n, "embedded code ran more or less often than the grammar means");
    if !want.is_empty() { for k in 0..got.len() { sym::ck(got[k] == want[k % want.len()], "embedded code ran in another order or with other values than the grammar means"); } }
}
pub fn veq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::U, V::U) | (V::No, V::No) => true,
        (V::El(x), V::El(y)) => x == y,
        (V::Pos(x), V::Pos(y)) => x == y,
        (V::Num(x), V::Num(y)) => x == y,
        (V::Sl(x, y), V::Sl(z, w)) => x == z && y == w,
        (V::So(x), V::So(y)) => veq(x, y),
        (V::L(x), V::L(y)) => vseq(x, y),
        (V::N(i, x), V::N(j, y)) => i == j && vseq(x, y),
        _ => false,
    }
}
fn vseq(x: &[V], y: &[V]) -> bool {
    if x.len() != y.len() { return false; }
    let mut i = 0;
    while i < x.len() { if !veq(&x[i], &y[i]) { return false; } i += 1; }
    true
}
fn rel(p: usize) -> usize { p.wrapping_sub(org()) & 0xff }
// structural hash that ignores (possibly symbolic) elements: always concrete
pub fn vhash(v: &V) -> usize {
    fn many(x: &[V]) -> usize { let mut h = x.len() * 3; for y in x { h = (h * 5 + vhash(y)) % 1021; } h }
    match v {
        V::U => 1, V::No => 2, V::El(_) => 3, V::Pos(p) => rel(*p) * 2 + 1, V::Num(_) => 5, V::Sl(a, b) => rel(*a) * 3 + rel(*b) * 5 + 2,
        V::So(x) => 7 + 3 * vhash(x), V::L(x) => 11 + many(x), V::N(k, x) => 13 + *k as usize + many(x),
    }
}
pub fn vlog(v: &V) {
    match v {
        V::U => sym::log(1), V::No => sym::log(2), V::El(c) => sym::log(0x100 + *c as u64), V::Pos(p) => sym::log(0x1000000 + *p as u64),
        V::Num(n) => sym::log(0x2000000 + *n), V::Sl(a, b) => { sym::log(3); sym::log(*a as u64); sym::log(*b as u64) }
        V::So(x) => { sym::log(4); vlog(x) } V::L(x) => { sym::log(5); for y in x { vlog(y) } sym::log(6) }
        V::N(k, x) => { sym::log(0x3000000 + *k as u64); for y in x { vlog(y) } sym::log(7) }
    }
}
pub trait ToV { fn v(&self) -> V; }
impl ToV for V { fn v(&self) -> V { self.clone() } }
impl ToV for () { fn v(&self) -> V { V::U } }
impl ToV for usize { fn v(&self) -> V { V::Pos(*self) } }
impl ToV for u8 { fn v(&self) -> V { V::El(*self as u32) } }
impl ToV for u64 { fn v(&self) -> V { V::Num(*self) } }
impl ToV for char { fn v(&self) -> V { V::El(*self as u32) } }
impl<T: ToV> ToV for Option<T> { fn v(&self) -> V { match self { None => V::No, Some(x) => V::So(Box::new(x.v())) } } }
impl<T: ToV> ToV for Vec<T> { fn v(&self) -> V { V::L(self.iter().map(|x| x.v()).collect()) } }
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Span(pub usize, pub usize);
impl ToV for Span { fn v(&self) -> V { V::Sl(self.0, self.1) } }
pub static mut BASE: usize = 0; // address and element size of the str / slice input, for slice values
pub static mut ESZ: usize = 1;
impl<'a> ToV for &'a str { fn v(&self) -> V { unsafe { let a = (self.as_ptr() as usize).wrapping_sub(BASE); V::Sl(a, a + self.len()) } } }
impl<'a, T: Copy> ToV for &'a [T] { fn v(&self) -> V { unsafe { let a = (self.as_ptr() as usize).wrapping_sub(BASE) / ESZ; V::Sl(a, a + self.len()) } } }

// arbitrary predicates for conditional actions
static mut CT: [[u8; 8]; 4] = [[0; 8]; 4];
pub fn init_conds(n: usize) { for k in 0..n { for i in 0..8 { let b = sym::byte(); unsafe { CT[k][i] = b; } } } }
pub fn cnd(k: usize, a: &[V]) -> bool { let mut h = 0; for x in a { h = h * 7 + vhash(x); } unsafe { if EVT_ON { EVS.push((1000 + k as u32, vseqhash(a))); } CT[k][h & 7] & 1 == 1 } }
// counts evaluations of an action / rule body
pub static mut HITS: [[u32; 16]; 4] = [[0; 16]; 4];
pub fn hit(k: usize, p: usize) { unsafe { if EVT_ON { EVS.push((2000 + k as u32, rel(p))); } HITS[k][p & 15] += 1; } }

// ------------------------------------------------------------------ abstract input
// A terminal "a".."h" is an arbitrary partial function from positions to lengths, read
// from a symbolic table; elements are arbitrary bytes.
/// the first position: any number an input type may choose
static mut ORG: usize = 5;
#[inline(always)] pub fn org() -> usize { unsafe { ORG } }
pub fn set_start(p: usize) { unsafe { ORG = p; } }
pub const MAXN: usize = 6;
pub const NLIT: usize = 8;
pub struct Sym { pub n: usize, pub el: [u8; MAXN + 1], pub lit: [[u8; MAXN + 1]; NLIT], pub meth: [[u8; MAXN + 1]; 4], pub wide: usize }
impl Sym {
    /// n elements, the first `nlit` terminals and `nm` methods symbolic; terminals consume 1..=wide
    pub fn new(n: usize, nlit: usize, nm: usize, wide: usize) -> Sym {
        let mut s = Sym { n, el: [0; MAXN + 1], lit: [[0; MAXN + 1]; NLIT], meth: [[0; MAXN + 1]; 4], wide };
        for i in 0..n { s.el[i] = sym::byte(); }
        for l in 0..nlit { for i in 0..n { s.lit[l][i] = sym::byte(); } }
        for l in 0..nm { for i in 0..=n { s.meth[l][i] = sym::byte(); } }
        s
    }
    pub fn lit_at(&self, p: usize, l: usize) -> Option<usize> {
        let i = p - org();
        if i >= self.n { return None; }
        let t = self.lit[l][i];
        // decided by forking, so that positions stay concrete
        if sym::conc((t < 128) as u64) != 0 { return None; }
        let mut k = 1;
        if self.wide > 1 && sym::conc((t >= 192) as u64) != 0 { k = 2; }
        if k > self.n - i { k = self.n - i; }
        Some(p + k)
    }
    // methods may also succeed without consuming
    pub fn meth_at(&self, p: usize, m: usize) -> Option<(usize, u64)> {
        let i = p - org();
        let t = self.meth[m][i];
        if sym::conc((t < 128) as u64) != 0 { return None; }
        let mut k = if sym::conc((t < 192) as u64) != 0 { 0 } else { 1 };
        if k > self.n - i { k = 0; }
        Some((p + k, m as u64 + 40))
    }
    pub fn sub(&self, p: usize, m: usize) -> peg::RuleResult<u64> {
        match self.meth_at(p, m) { Some((q, v)) => peg::RuleResult::Matched(q, v), None => peg::RuleResult::Failed }
    }
}
impl peg::Parse for Sym {
    type PositionRepr = usize;
    fn start<'input>(&'input self) -> usize { org() }
    fn is_eof<'input>(&'input self, p: usize) -> bool { p >= org() + self.n }
    fn position_repr<'input>(&'input self, p: usize) -> usize { p }
}
impl<'input> peg::ParseElem<'input> for Sym {
    type Element = u8;
    fn parse_elem(&'input self, pos: usize) -> peg::RuleResult<u8> {
        if pos >= org() + self.n { return peg::RuleResult::Failed; }
        peg::RuleResult::Matched(pos + 1, self.el[pos - org()])
    }
}
impl peg::ParseLiteral for Sym {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> peg::RuleResult<()> {
        let l = (literal.as_bytes()[0] - b'a') as usize;
        match self.lit_at(pos, l) { Some(q) => peg::RuleResult::Matched(q, ()), None => peg::RuleResult::Failed }
    }
}
impl<'input> peg::ParseSlice<'input> for Sym {
    type Slice = Span;
    fn parse_slice(&'input self, p1: usize, p2: usize) -> Span { Span(p1, p2) }
}

// input and value types with a lifetime of their own
pub struct Lf(pub u8);
pub static LF: Lf = Lf(0);
#[derive(Clone)] pub struct W<'a>(V, std::marker::PhantomData<&'a Lf>);
impl<'a> W<'a> {
    pub fn of(v: V, _: &'a Lf) -> W<'a> { W(v, std::marker::PhantomData) }
    pub fn any(v: V) -> W<'a> { W(v, std::marker::PhantomData) }
}
impl<'a> ToV for W<'a> { fn v(&self) -> V { self.0.clone() } }
pub struct SyL<'a> { s: &'a Sym }
impl<'a> SyL<'a> { pub fn new(s: &'a Sym) -> SyL<'a> { SyL { s } } pub fn sub(&self, p: usize, m: usize) -> peg::RuleResult<u64> { self.s.sub(p, m) } }
impl<'a> peg::Parse for SyL<'a> {
    type PositionRepr = usize;
    fn start<'input>(&'input self) -> usize { peg::Parse::start(self.s) }
    fn is_eof<'input>(&'input self, p: usize) -> bool { peg::Parse::is_eof(self.s, p) }
    fn position_repr<'input>(&'input self, p: usize) -> usize { p }
}
impl<'a, 'input> peg::ParseElem<'input> for SyL<'a> {
    type Element = u8;
    fn parse_elem(&'input self, pos: usize) -> peg::RuleResult<u8> { self.s.parse_elem(pos) }
}
impl<'a> peg::ParseLiteral for SyL<'a> { fn parse_string_literal(&self, pos: usize, l: &str) -> peg::RuleResult<()> { self.s.parse_string_literal(pos, l) } }
impl<'a, 'input> peg::ParseSlice<'input> for SyL<'a> {
    type Slice = Span;
    fn parse_slice(&'input self, p1: usize, p2: usize) -> Span { Span(p1, p2) }
}

// ------------------------------------------------------------------ reference interpreter
pub trait Rin {
    fn start(&self) -> usize;
    fn eof(&self, p: usize) -> bool;
    fn elem(&self, p: usize) -> Option<(usize, u32)>;
    fn lit(&self, p: usize, s: &str) -> Option<usize>;
    fn meth(&self, p: usize, m: usize) -> Option<(usize, u64)>;
}
impl Rin for Sym {
    fn start(&self) -> usize { org() }
    fn eof(&self, p: usize) -> bool { p >= org() + self.n }
    fn elem(&self, p: usize) -> Option<(usize, u32)> { if p >= org() + self.n { None } else { Some((p + 1, self.el[p - org()] as u32)) } }
    fn lit(&self, p: usize, s: &str) -> Option<usize> { self.lit_at(p, (s.as_bytes()[0] - b'a') as usize) }
    fn meth(&self, p: usize, m: usize) -> Option<(usize, u64)> { self.meth_at(p, m) }
}
/// UTF-8 text, decoded here independently of core::str
pub struct RStr<'a>(pub &'a [u8]);
impl<'a> Rin for RStr<'a> {
    fn start(&self) -> usize { 0 }
    fn eof(&self, p: usize) -> bool { p == self.0.len() }
    fn elem(&self, p: usize) -> Option<(usize, u32)> {
        let b = self.0;
        if p >= b.len() { return None; }
        let x = b[p] as u32;
        if x < 0x80 { return Some((p + 1, x)); }
        let c = |i: usize| (b[p + i] & 0x3f) as u32;
        if x < 0xe0 { return Some((p + 2, (x & 0x1f) << 6 | c(1))); }
        if x < 0xf0 { return Some((p + 3, (x & 0xf) << 12 | c(1) << 6 | c(2))); }
        Some((p + 4, (x & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3)))
    }
    fn lit(&self, p: usize, s: &str) -> Option<usize> {
        let l = s.as_bytes();
        if self.0.len() - p < l.len() { return None; }
        for i in 0..l.len() { if self.0[p + i] != l[i] { return None; } }
        Some(p + l.len())
    }
    fn meth(&self, _: usize, _: usize) -> Option<(usize, u64)> { None }
}
/// a slice of small elements; literals (for [u8]) match byte for byte
pub struct RSlice<'a>(pub &'a [u8]);
impl<'a> Rin for RSlice<'a> {
    fn start(&self) -> usize { 0 }
    fn eof(&self, p: usize) -> bool { p == self.0.len() }
    fn elem(&self, p: usize) -> Option<(usize, u32)> { if p < self.0.len() { Some((p + 1, self.0[p] as u32)) } else { None } }
    fn lit(&self, p: usize, s: &str) -> Option<usize> {
        let l = s.as_bytes();
        if self.0.len() - p < l.len() { return None; }
        for i in 0..l.len() { if self.0[p + i] != l[i] { return None; } }
        Some(p + l.len())
    }
    fn meth(&self, _: usize, _: usize) -> Option<(usize, u64)> { None }
}

pub enum E {
    Lit(&'static str, &'static str),                       // text, expected token
    Pat(&'static [(u32, u32)], bool, &'static str),        // ranges, negated, expected token
    Meth(usize),
    Seq(&'static [(bool, &'static E)], Act),
    Bind(&'static [(bool, &'static E)], Act),               // a sequence whose labels are visible to bounds and arguments after them
    Alt(&'static [&'static E]),
    Opt(&'static E),
    Rep(&'static E, N, N, Option<&'static E>),             // min, max, separator
    And(&'static E), Not(&'static E), Slice(&'static E), Quiet(&'static E),
    Exp(&'static str),
    Pos,
    Call(usize, &'static [A]),
    Par(usize),
    Prec(&'static [&'static [Op]]),
    Hit(usize),                                             // zero-width: count an evaluation
}
pub enum N { C(usize), Inf, P(usize) }                      // constant, unbounded, value parameter
pub enum A { R(&'static E), V(u64), P(usize), O(usize, usize) } // O: value parameter plus a constant, modulo 8
pub enum Act { No, Nd(u32), Cond(usize, &'static str, u32), Pick(usize), PNum(u32, usize), PCond(u32, usize, u64, &'static str), Fold2, Low(u32, u32) }
// precedence operator: 0 atom, 1 prefix, 2 postfix, 3 infix; strict flags for left/right operand
pub struct Op { pub kind: u8, pub assoc_left: bool, pub loose: bool, pub els: &'static [(bool, &'static E)], pub llab: bool, pub rlab: bool, pub act: u32 }
pub struct Rule { pub e: &'static E, pub lrec: bool, pub memo: bool, pub span: bool, pub name: &'static str }

#[derive(Clone)]
pub enum Arg { R(&'static E, Env), V(u64) }
pub type Env = std::rc::Rc<Vec<Arg>>;

pub struct Rf<'a, I: Rin> {
    pub i: &'a I, pub rules: &'static [Rule], pub sup: u32, pub max: usize, pub set: Vec<&'static str>, pub depth: u32,
    pub memo: Vec<(usize, usize, Option<(usize, V)>)>, pub span: bool, pub tr: Option<Vec<(u8, usize, usize, usize)>>, pub evs: Vec<(u32, usize)>,
}
type R = Option<(usize, V)>;
impl<'a, I: Rin> Rf<'a, I> {
    pub fn new(i: &'a I, rules: &'static [Rule]) -> Self { Rf { i, rules, sup: 0, max: i.start(), set: vec![], depth: 0, memo: vec![], span: false, tr: None, evs: vec![] } }
    pub fn mark(&mut self, p: usize, t: &'static str) {
        if self.sup > 0 { return; }
        if p > self.max { self.max = p; self.set.clear(); }
        if p == self.max && !self.set.iter().any(|x| *x == t) { self.set.push(t); }
    }
    pub fn top(&mut self, rule: usize, no_eof: bool) -> R {
        let env = unsafe { TARG[..NTARG].iter().map(|v| Arg::V(*v)).collect() };
        let r = self.call(rule, p0(self.i), std::rc::Rc::new(env));
        match r {
            Some((q, v)) => if no_eof || self.i.eof(q) { Some((q, v)) } else { self.mark(q, "EOF"); None },
            None => None,
        }
    }
    fn call(&mut self, r: usize, p: usize, env: Env) -> R {
        let rules = self.rules;
        let rl = &rules[r];
        if !rl.lrec {
            if self.tr.is_none() { return self.ev(rl.e, p, &env); }
            if rl.memo { if let Some(x) = self.recall(r, p) { return x; } }
            let x = self.traced(r, p, &env);
            if rl.memo { self.memo.push((r, p, x.clone())); }
            return x;
        }
        // left recursion: start from failure and re-evaluate while the match grows
        if let Some(x) = self.recall(r, p) { return x; }
        let slot = self.memo.len();
        self.memo.push((r, p, None));
        loop {
            let cur = self.traced(r, p, &env);
            let grew = match (&cur, &self.memo[slot].2) { (None, _) => false, (Some(_), None) => true, (Some((a, _)), Some((b, _))) => a > b };
            if !grew { break; }
            self.memo[slot].2 = cur;
        }
        self.memo[slot].2.clone()
    }
    fn recall(&mut self, r: usize, p: usize) -> Option<R> {
        for k in 0..self.memo.len() {
            if self.memo[k].0 == r && self.memo[k].1 == p {
                let x = self.memo[k].2.clone();
                if let Some(t) = &mut self.tr { t.push((if x.is_some() { 3 } else { 4 }, r, p, 0)); }
                return Some(x);
            }
        }
        None
    }
    fn traced(&mut self, r: usize, p: usize, env: &Env) -> R {
        if let Some(t) = &mut self.tr { t.push((0, r, p, 0)); }
        let x = self.ev(self.rules[r].e, p, env);
        if let Some(t) = &mut self.tr { t.push(match &x { Some((q, _)) => (1, r, p, *q), None => (2, r, p, 0) }); }
        x
    }
    fn num(&self, n: &N, env: &Env) -> usize { match n { N::C(k) => *k, N::Inf => usize::MAX, N::P(i) => match &garg(*i, env) { Arg::V(v) => *v as usize, _ => 0 } } }
    fn act(&mut self, a: &Act, q: usize, vals: Vec<V>, env: &Env) -> R {
        match a {
            Act::No => Some((q, V::U)),
            Act::Nd(k) => { self.evs.push((*k, vseqhash(&vals))); Some((q, V::N(*k, vals))) }
            Act::Cond(k, msg, t) => { self.evs.push((1000 + *k as u32, vseqhash(&vals))); if cnd(*k, &vals) { self.evs.push((*t, vseqhash(&vals))); Some((q, V::N(*t, vals))) } else { self.mark(q, msg); None } }
            Act::Pick(k) => Some((q, vals[*k].clone())),
            Act::PNum(k, i) => { let mut vals = vals; if let Arg::V(v) = &garg(*i, env) { vals.push(V::Num(*v)); } self.evs.push((*k, vseqhash(&vals))); Some((q, V::N(*k, vals))) }
            Act::PCond(k, i, min, msg) => { let ok = match garg(*i, env) { Arg::V(v) => v >= *min, _ => false }; if ok { self.evs.push((*k, vseqhash(&vals))); Some((q, V::N(*k, vals))) } else { self.mark(q, msg); None } }
            // the payload of a token
            Act::Low(k, m) => { let v = match &vals[0] { V::El(c) => V::El(*c & *m), _ => V::U }; Some((q, V::N(*k, vec![v]))) }
            // first, [tail...]: every tail becomes a node whose first operand is what came before
            Act::Fold2 => {
                let mut acc = vals[0].clone();
                if let V::L(l) = &vals[1] { for it in l { if let V::N(k, ps) = it { let mut a = vec![acc]; a.extend(ps.iter().cloned()); acc = V::N(*k, a); } } }
                Some((q, acc))
            }
        }
    }
    pub fn ev(&mut self, e: &'static E, p: usize, env: &Env) -> R {
        self.depth += 1;
        if self.depth > unsafe { DEEP } { sym::fail("reference interpreter recursed too deeply"); }
        let r = self.ev1(e, p, env);
        self.depth -= 1;
        r
    }
    fn seq(&mut self, els: &'static [(bool, &'static E)], p: usize, env: &Env) -> Option<(usize, Vec<V>)> {
        let mut q = p; let mut vals = vec![];
        for (lab, x) in els { let (n, v) = self.ev(x, q, env)?; q = n; if *lab { vals.push(v); } }
        Some((q, vals))
    }
    fn ev1(&mut self, e: &'static E, p: usize, env: &Env) -> R {
        match e {
            E::Lit(s, tok) => match self.i.lit(p, s) { Some(q) => Some((q, V::U)), None => { self.mark(p, tok); None } },
            E::Pat(rs, neg, tok) => {
                if let Some((q, c)) = self.i.elem(p) {
                    let mut inside = false;
                    for (a, b) in rs.iter() { if *a <= c && c <= *b { inside = true; break; } }
                    if inside != *neg { return Some((q, V::El(c))); }
                }
                self.mark(p, tok); None
            }
            E::Meth(m) => self.i.meth(p, *m).map(|(q, v)| (q, V::Num(v))),
            E::Seq(els, act) => { let (q, vals) = self.seq(els, p, env)?; self.act(act, q, vals, env) }
            E::Bind(els, act) => {
                let mut q = p; let mut vals = vec![]; let mut en = env.clone();
                for (lab, x) in els.iter() {
                    let (n, v) = self.ev(x, q, &en)?; q = n;
                    if *lab { let mut e2 = (*en).clone(); e2.push(Arg::V(match &v { V::El(c) => sym::conc(*c as u64), _ => 0 })); en = std::rc::Rc::new(e2); vals.push(v); }
                }
                self.act(act, q, vals, &en)
            }
            E::Alt(es) => { for x in es.iter() { let r = self.ev(x, p, env); if r.is_some() { return r; } } None }
            E::Opt(x) => Some(match self.ev(x, p, env) { Some((q, v)) => (q, V::So(Box::new(v))), None => (p, V::No) }),
            E::Rep(x, lo, hi, sep) => {
                let (lo, hi) = (self.num(lo, env), self.num(hi, env));
                let mut q = p; let mut vals: Vec<V> = vec![];
                while vals.len() < hi {
                    let mut s = q;
                    if let Some(sp) = sep { if !vals.is_empty() { match self.ev(sp, q, env) { Some((n, _)) => s = n, None => break } } }
                    match self.ev(x, s, env) { Some((n, v)) => { if vals.len() > unsafe { LONG } { sym::fail("reference loop does not terminate"); } q = n; vals.push(v) } None => break }
                }
                if vals.len() < lo { None } else { Some((q, V::L(vals))) }
            }
            E::And(x) => { self.sup += 1; let r = self.ev(x, p, env); self.sup -= 1; r.map(|(_, v)| (p, v)) }
            E::Not(x) => { self.sup += 1; let r = self.ev(x, p, env); self.sup -= 1; if r.is_some() { None } else { Some((p, V::U)) } }
            E::Slice(x) => self.ev(x, p, env).map(|(q, _)| (q, V::Sl(p, q))),
            E::Quiet(x) => { self.sup += 1; let r = self.ev(x, p, env); self.sup -= 1; r }
            E::Exp(t) => { self.mark(p, t); None }
            E::Pos => Some((p, V::Pos(p))),
            E::Call(r, args) => {
                let a: Vec<Arg> = args.iter().map(|a| match a { A::R(x) => Arg::R(x, env.clone()), A::V(n) => Arg::V(*n), A::P(i) => garg(*i, env), A::O(i, k) => match garg(*i, env) { Arg::V(v) => Arg::V((v + *k as u64) % 8), x => x } }).collect();
                self.call(*r, p, std::rc::Rc::new(a))
            }
            E::Par(i) => { let a = env[*i].clone(); match a { Arg::R(x, en) => self.ev(x, p, &en), Arg::V(_) => None } }
            E::Hit(k) => { self.evs.push((2000 + *k as u32, rel(p))); Some((p, V::U)) }
            E::Prec(levels) => self.prec(levels, p, 0, env),
        }
    }
    // precedence climbing as described in the article the documentation refers to:
    // level numbers grow with binding strength; an operator is usable when its level is
    // at least the minimum; operands of the associating side may be at the same level.
    fn prec(&mut self, levels: &'static [&'static [Op]], p: usize, min: usize, env: &Env) -> R {
        let mut cur: Option<(usize, V)> = None;
        'outer: for (l, ops) in levels.iter().enumerate() {
            for op in ops.iter() {
                if op.kind == 0 {
                    if let Some((q, vals)) = self.seq(op.els, p, env) { cur = Some((q, self.pnode(op, vals, p, q))); break 'outer; }
                } else if op.kind == 1 {
                    if let Some((q, mut vals)) = self.seq(op.els, p, env) {
                        if let Some((q2, v)) = self.prec(levels, q, if op.loose { l } else { l + 1 }, env) {
                            if op.rlab { vals.push(v); }
                            cur = Some((q2, self.pnode(op, vals, p, q2))); break 'outer;
                        }
                    }
                }
            }
        }
        let (mut q, mut left) = cur?;
        'grow: loop {
            for (l, ops) in levels.iter().enumerate() {
                if l < min { continue; }
                for op in ops.iter() {
                    if op.kind < 2 { continue; }
                    if let Some((q1, vals)) = self.seq(op.els, q, env) {
                        let mut all = vec![];
                        if op.llab { all.push(left.clone()); }
                        all.extend(vals);
                        let mut q2 = q1;
                        if op.kind == 3 {
                            match self.prec(levels, q1, if op.assoc_left { l + 1 } else { l }, env) { Some((n, v)) => { q2 = n; if op.rlab { all.push(v); } } None => continue }
                        }
                        q = q2; left = self.pnode(op, all, p, q2);
                        continue 'grow;
                    }
                }
            }
            return Some((q, left));
        }
    }
    fn pnode(&mut self, op: &Op, vals: Vec<V>, l: usize, r: usize) -> V {
        self.evs.push((op.act, vseqhash(&vals)));
        let v = V::N(op.act, vals);
        if self.span { self.evs.push((999, vseqhash(&[V::Pos(l), v.clone(), V::Pos(r)]))); V::N(999, vec![V::Pos(l), v, V::Pos(r)]) } else { v }
    }
}
/// where the reference calls a recursion or loop endless
static mut DEEP: u32 = 400;
static mut LONG: usize = 40;
pub fn set_deep() { unsafe { DEEP = 20000; LONG = 100000; } }
/// values of the grammar's own parameters (index 100..) and of the exported rule's
pub static mut GARG: [u64; 4] = [0; 4];
pub static mut TARG: [u64; 4] = [0; 4];
pub static mut NTARG: usize = 0;
fn garg(i: usize, env: &Env) -> Arg { if i >= 100 { unsafe { Arg::V(GARG[i - 100]) } } else { env[i].clone() } }
pub fn init_args(g: usize, t: usize, lim: u64) { unsafe { for k in 0..g { GARG[k] = sym::pick(lim); } for k in 0..t { TARG[k] = sym::pick(lim); } NTARG = t; } }
pub fn ga(i: usize) -> usize { unsafe { GARG[i] as usize } }
pub fn ta(i: usize) -> usize { unsafe { TARG[i] as usize } }
fn p0<I: Rin>(i: &I) -> usize { i.start() }

// ------------------------------------------------------------------ comparison
pub const ACC: u32 = 1; // accepted / rejected
pub const VAL: u32 = 2; // value
pub const LOC: u32 = 4; // failure position
pub const SET: u32 = 8; // expected set
pub const END: u32 = 16; // where the match ended (the last `position!()` of the top node)
pub const EVT: u32 = 64; // the sequence of embedded code that ran
pub const TRC: u32 = 32; // the sequence of trace messages

/// trace messages, collected by the `println!` that a harness puts in scope of its grammars
pub static mut TRACE: Vec<(&'static str, Vec<String>)> = vec![];
pub fn trace_ev(f: &'static str, a: &[&dyn Display]) { unsafe { TRACE.push((f, a.iter().map(|x| x.to_string()).collect())); } }
fn trace_ok(want: &[(u8, usize, usize, usize)], rules: &'static [Rule], twice: bool) {
    let got = unsafe { &TRACE };
    // levels of precedence climbing are not part of this comparison
    let got: Vec<_> = got.iter().filter(|(f, _)| !f.contains("level")).collect();
    sym::log(got.len() as u64);
    sym::ck(got.len() == want.len() * if twice { 2 } else { 1 }, "the trace has more or fewer messages than rules were attempted and left");
    for k in 0..got.len() {
        let (kind, r, p, q) = want[k % want.len()];
        let (f, a) = got[k];
        let ok = match kind { 0 => f.contains("Attempting") && a.len() == 2, 1 => f.contains("Matched") && a.len() == 3 && a[2] == q.to_string(), 2 => f.contains("Failed") && a.len() == 2, 3 => f.contains("Cached match") && a.len() == 2, _ => f.contains("Cached fail") && a.len() == 2 };
        sym::ck(ok && a[0] == rules[r].name && a[1] == p.to_string(), "a trace message differs from what happened");
    }
}

pub fn same_token(a: &str, b: &str) -> bool {
    // modulo white space (how rustc prints a pattern's tokens)
    let mut x = a.bytes().filter(|c| *c != b' ' && *c != b'\n');
    let mut y = b.bytes().filter(|c| *c != b' ' && *c != b'\n');
    loop { match (x.next(), y.next()) { (None, None) => return true, (p, q) => if p != q { return false; } } }
}
pub fn check_set(es: &peg::error::ExpectedSet, want: &[&'static str]) -> bool {
    let mut n = 0;
    for t in es.tokens() { n += 1; if !want.iter().any(|w| same_token(t, w)) { sym::note("unexpected token:"); sym::note(t); return false; } }
    if n != want.len() { sym::note("missing token"); return false; }
    true
}
fn last(v: &V) -> &V { match v { V::N(_, x) if !x.is_empty() => &x[x.len() - 1], _ => v } }
/// outcome of the generated parser: value, or position (as offset) and expected set
pub fn compare<I: Rin>(got: Result<V, (usize, peg::error::ExpectedSet)>, i: &I, rules: &'static [Rule], rule: usize, no_eof: bool, span: bool, mode: u32) {
    let mut r = Rf::new(i, rules);
    r.span = span;
    unsafe { EVT_ON = false; }
    if mode & (TRC | EVT) != 0 { r.tr = Some(vec![]); }
    let want = r.top(rule, no_eof);
    if mode & TRC != 0 { trace_ok(&r.tr.take().unwrap(), rules, want.is_none()); }
    if mode & EVT != 0 { events_ok(&r.evs, want.is_some()); }
    match (got, want) {
        (Ok(v), Some((_, w))) => { sym::cover(1); vlog(&v); if mode & END != 0 { sym::ck(veq(last(&v), last(&w)), "the match ends somewhere else than the grammar means"); } if mode & VAL != 0 { sym::ck(veq(&v, &w), "the parser returned a different value than the grammar means"); } }
        (Err((p, es)), None) => {
            sym::cover(2); sym::log(p as u64);
            if mode & LOC != 0 { sym::ck(p == r.max, "the reported position is not the furthest failure"); }
            if mode & SET != 0 && p == r.max { sym::ck(check_set(&es, &r.set), "the reported expected set is not the set of tokens expected at the furthest failure"); }
        }
        (Ok(_), None) => if mode & ACC != 0 { sym::fail("the parser accepts input the grammar rejects") },
        (Err(_), Some(_)) => if mode & ACC != 0 { sym::fail("the parser rejects input the grammar accepts") },
    }
    sym::done()
}
pub fn run_sym(f: impl Fn(&Sym) -> Result<V, peg::error::ParseError<usize>>, rules: &'static [Rule], no_eof: bool, cfg: (usize, usize, usize, usize, usize), span: bool, mode: u32) {
    let (n, nlit, nm, wide, nc) = cfg;
    let s = Sym::new(n, nlit, nm, wide);
    init_conds(nc);
    let got = f(&s).map_err(|e| (e.location, e.expected));
    compare(got, &s, rules, 0, no_eof, span, mode)
}
/// arbitrary valid UTF-8 of exactly `n` bytes, decided by the well-formedness table of the Unicode standard
pub fn utf8<'a>(buf: &'a mut [u8; 16], n: usize) -> &'a str {
    for i in 0..n { buf[i] = sym::byte(); }
    sym::assume(valid_utf8(&buf[..n]));
    unsafe { std::str::from_utf8_unchecked(&buf[..n]) }
}
pub fn valid_utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let t = |x: u8| x & 0xc0 == 0x80;
    while i < b.len() {
        let x = b[i];
        if x < 0x80 { i += 1; continue; }
        if x < 0xc2 || x > 0xf4 { return false; }
        let k = if x < 0xe0 { 2 } else if x < 0xf0 { 3 } else { 4 };
        if i + k > b.len() { return false; }
        let y = b[i + 1];
        if !t(y) { return false; }
        if x == 0xe0 && y < 0xa0 || x == 0xed && y > 0x9f || x == 0xf0 && y < 0x90 || x == 0xf4 && y > 0x8f { return false; }
        if k > 2 && !t(b[i + 2]) || k > 3 && !t(b[i + 3]) { return false; }
        i += k;
    }
    true
}
pub fn ascii<'a>(buf: &'a mut [u8; 16], n: usize) -> &'a str {
    for i in 0..n { let b = sym::byte(); sym::assume(b < 128); buf[i] = b; }
    unsafe { std::str::from_utf8_unchecked(&buf[..n]) }
}
pub fn run_str(f: impl Fn(&str) -> Result<V, peg::error::ParseError<peg::str::LineCol>>, rules: &'static [Rule], no_eof: bool, n: usize, full: bool, span: bool, mode: u32) {
    let mut buf = [0u8; 16];
    let s = if full { utf8(&mut buf, n) } else { ascii(&mut buf, n) };
    unsafe { BASE = s.as_ptr() as usize; ESZ = 1; }
    let got = f(s).map_err(|e| (e.location.offset, e.expected));
    compare(got, &RStr(s.as_bytes()), rules, 0, no_eof, span, mode)
}
pub fn run_bytes(f: impl Fn(&[u8]) -> Result<V, peg::error::ParseError<usize>>, rules: &'static [Rule], no_eof: bool, n: usize, span: bool, mode: u32) {
    let mut buf = [0u8; 16];
    for i in 0..n { buf[i] = sym::byte(); }
    let s = &buf[..n];
    unsafe { BASE = s.as_ptr() as usize; ESZ = 1; }
    let got = f(s).map_err(|e| (e.location, e.expected));
    compare(got, &RSlice(s), rules, 0, no_eof, span, mode)
}
/// `n` arbitrary bytes (valid UTF-8 or ASCII) between two fixed pieces of text
pub fn run_text(f: impl Fn(&str) -> Result<V, peg::error::ParseError<peg::str::LineCol>>, rules: &'static [Rule], no_eof: bool, pre: &str, n: usize, post: &str, full: bool, span: bool, mode: u32) {
    let mut buf = [0u8; 16];
    let mid = if full { utf8(&mut buf, n) } else { ascii(&mut buf, n) };
    let mut b: Vec<u8> = Vec::with_capacity(pre.len() + n + post.len());
    b.extend_from_slice(pre.as_bytes()); b.extend_from_slice(mid.as_bytes()); b.extend_from_slice(post.as_bytes());
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    unsafe { BASE = s.as_ptr() as usize; ESZ = 1; }
    let got = f(s).map_err(|e| (e.location.offset, e.expected));
    compare(got, &RStr(s.as_bytes()), rules, 0, no_eof, span, mode)
}
pub fn run_bytes_in(f: impl Fn(&[u8]) -> Result<V, peg::error::ParseError<usize>>, rules: &'static [Rule], no_eof: bool, pre: &str, n: usize, post: &str, span: bool, mode: u32) {
    let mut b: Vec<u8> = Vec::with_capacity(pre.len() + n + post.len());
    b.extend_from_slice(pre.as_bytes()); for _ in 0..n { b.push(sym::byte()); } b.extend_from_slice(post.as_bytes());
    let s = &b[..];
    unsafe { BASE = s.as_ptr() as usize; ESZ = 1; }
    let got = f(s).map_err(|e| (e.location, e.expected));
    compare(got, &RSlice(s), rules, 0, no_eof, span, mode)
}
/// bodies of cached rules ran at most once per position and pass (a failed parse makes a second pass for its error report)
pub fn hits_ok(ks: &[usize], ok: bool) {
    let m = if ok { 1 } else { 2 };
    for k in ks { for p in 0..16 { unsafe { sym::ck(HITS[*k][p] <= m, "the body of a cached rule was evaluated again at the same position"); } } }
}
pub fn spn(l: usize, n: V, r: usize) -> V { nd(999, vec![l.v(), n, r.v()]) }

/// a slice of tokens; B carries a byte
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok { A, B(u8), C { x: u8 }, D }
pub fn code(t: &Tok) -> u32 { match t { Tok::A => 0, Tok::B(x) => 0x100 + *x as u32, Tok::C { x } => 0x200 + *x as u32, Tok::D => 1 } }
impl ToV for Tok { fn v(&self) -> V { V::El(code(self)) } }
impl ToV for u16 { fn v(&self) -> V { V::El(*self as u32) } }
pub struct RCodes<'a>(pub &'a [u32]);
impl<'a> Rin for RCodes<'a> {
    fn start(&self) -> usize { 0 }
    fn eof(&self, p: usize) -> bool { p == self.0.len() }
    fn elem(&self, p: usize) -> Option<(usize, u32)> { if p < self.0.len() { Some((p + 1, self.0[p])) } else { None } }
    fn lit(&self, _: usize, _: &str) -> Option<usize> { None }
    fn meth(&self, _: usize, _: usize) -> Option<(usize, u64)> { None }
}
pub fn run_toks(f: impl Fn(&[Tok]) -> Result<V, peg::error::ParseError<usize>>, rules: &'static [Rule], no_eof: bool, n: usize, span: bool, mode: u32) {
    let mut buf = [Tok::A; 8]; let mut codes = [0u32; 8];
    for i in 0..n { let x = sym::byte(); buf[i] = match sym::pick(4) { 0 => Tok::A, 1 => Tok::B(x), 2 => Tok::C { x }, _ => Tok::D }; codes[i] = code(&buf[i]); }
    unsafe { BASE = buf.as_ptr() as usize; ESZ = std::mem::size_of::<Tok>(); }
    let got = f(&buf[..n]).map_err(|e| (e.location, e.expected));
    compare(got, &RCodes(&codes[..n]), rules, 0, no_eof, span, mode)
}
pub fn run_words(f: impl Fn(&[u16]) -> Result<V, peg::error::ParseError<usize>>, rules: &'static [Rule], no_eof: bool, n: usize, span: bool, mode: u32) {
    let mut buf = [0u16; 8]; let mut codes = [0u32; 8];
    for i in 0..n { buf[i] = (sym::byte() as u16) << 8 | sym::byte() as u16; codes[i] = buf[i] as u32; }
    unsafe { BASE = buf.as_ptr() as usize; ESZ = 2; }
    let got = f(&buf[..n]).map_err(|e| (e.location, e.expected));
    compare(got, &RCodes(&codes[..n]), rules, 0, no_eof, span, mode)
}

// ------------------------------------------------------------------ parses before, within and after a parse
static mut NEST: Option<&'static dyn Fn()> = None;
static mut BUSY: bool = false;
/// parses the other input, unless that is what is going on
pub fn renter(_k: usize, _p: usize) { unsafe { if !BUSY { if let Some(f) = NEST { BUSY = true; f(); BUSY = false; } } } }
type Out = Result<V, peg::error::ParseError<usize>>;
fn same_out(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => veq(x, y),
        (Err(x), Err(y)) => { if x.location != y.location { return false; } let mut p = x.expected.tokens(); let mut q = y.expected.tokens(); loop { match (p.next(), q.next()) { (None, None) => return true, (s, t) => if s != t { return false; } } } }
        _ => false,
    }
}
pub fn run_hist(m: usize, f: impl Fn(&Sym) -> Out, rules: &'static [Rule], no_eof: bool, cfg: (usize, usize, usize, usize, usize), span: bool, mode: u32) {
    let (n, nlit, nm, wide, nc) = cfg;
    let a = Sym::new(m, nlit, nm, 1);
    let s = Sym::new(n, nlit, nm, wide);
    init_conds(nc);
    let first = f(&a);
    let nest = || sym::ck(same_out(&f(&a), &first), "a parse within a parse gives another result");
    unsafe { let d: &dyn Fn() = &nest; NEST = Some(std::mem::transmute(d)); }
    let got = f(&s);
    unsafe { NEST = None; }
    sym::ck(same_out(&f(&a), &first), "an earlier parse changed what a parse returns");
    sym::ck(same_out(&f(&s), &got), "the same parse again gives another result");
    compare(got.map_err(|e| (e.location, e.expected)), &s, rules, 0, no_eof, span, mode)
}
/// two texts one after the other in the same place of memory, each parsed twice, with line and column
pub fn run_hist_str(f: impl Fn(&str) -> Result<V, peg::error::ParseError<peg::str::LineCol>>, rules: &'static [Rule], no_eof: bool, m: usize, n: usize, span: bool, mode: u32) {
    let mut ta = [0u8; 16]; let mut tb = [0u8; 16];
    utf8(&mut ta, m); utf8(&mut tb, n);
    let mut buf = [0u8; 16];
    let mut outs: Vec<Result<V, peg::error::ParseError<peg::str::LineCol>>> = vec![];
    for k in 0..4 {
        let (t, l) = if k % 2 == 0 { (&ta, m) } else { (&tb, n) };
        buf[..l].copy_from_slice(&t[..l]);
        let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(buf.as_ptr(), l)) };
        unsafe { BASE = s.as_ptr() as usize; ESZ = 1; }
        let got = f(s);
        if let Err(e) = &got {
            let b = &t[..e.location.offset];
            let line = 1 + b.iter().filter(|c| **c == b'\n').count();
            let col = 1 + b.iter().rev().take_while(|c| **c != b'\n').filter(|c| **c & 0xc0 != 0x80).count();
            sym::ck(e.location.line == line && e.location.column == col, "the line or column is that of another text");
        }
        outs.push(got);
    }
    for k in 0..2 {
        let same = match (&outs[k], &outs[k + 2]) { (Ok(x), Ok(y)) => veq(x, y), (Err(x), Err(y)) => x == y, _ => false };
        sym::ck(same, "the same parse again gives another result");
    }
    let got = outs.pop().unwrap();
    compare(got.map_err(|e| (e.location.offset, e.expected)), &RStr(&tb[..n]), rules, 0, no_eof, span, mode)
}
