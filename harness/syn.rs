// Grammar syntax: trees printed as macro input, the macro's parser run on them, the result compared;
// and an independent recursive-descent reading of the documented syntax for arbitrary token sequences.
#![allow(dead_code, unused)]
use crate::ast::{self, *};
use crate::ast::Expr::*;
use crate::sup::sym;
use crate::tokens::FlatTokenStream;
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree, Punct, Spacing};

#[derive(Clone, Debug, PartialEq)]
pub enum Y { Lit(u8), Pat(u8), Pos, Call(u8, u8, Vec<A>), Fail(u8), Mark(bool), Meth(u8, u8), Cust(u8), Seq(Vec<(u8, Y)>, u8), Alt(Vec<Y>), Opt(Box<Y>), And(Box<Y>), Not(Box<Y>), Slice(Box<Y>), Quiet(Box<Y>), Rep(Box<Y>, Bd, Option<Box<Y>>), Prec(Vec<Vec<(Vec<(u8, Y)>, u8)>>) }
#[derive(Clone, Debug, PartialEq)]
pub enum A { Peg(Y), Rust(Vec<String>) }
/// a bound: the number `k`, or the expression `{k}`
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct N(pub u8, pub bool);
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bd { Star, Plus, Exact(N), Both(Option<N>, Option<N>) }
pub const NID: usize = 17;
pub const IDS: [&str; 57] = ["", "ra", "rb", "x", "y", "precedence", "position", "quiet", "expected", "cache", "_", "__", "___", "_y", "no_eof", "grammar", "EOF", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39"];
pub const UNDER: u8 = 10;
/// does a rule of this name have parentheses?
pub fn gen(n: u8) -> bool { n < UNDER || n >= UNDER + 3 }
pub const LITS: [&str; 5] = ["\"x\"", "'c'", "b\"y\"", "\"[\"", "7"];
pub const GEN: [&str; 6] = ["", "::<T>", "::<'a, u8>", "::<Vec<T>, {3}, 5,>", "::<&'a mut [u8], (A, B)>", "::<dyn Fn(A) -> B + 'a>"];
pub const RARG: [&str; 11] = ["1", "a.b(1, 2)", "a.b()", "S{}[0][i]", "|p| p + 1", "\"s\"", "{ 3 }", "-1", "a < b", "< x", "&[1, 2][..]"];
pub fn ts(s: &str) -> TokenStream { s.parse().unwrap() }
pub fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
pub fn lit(i: u8) -> Literal { match i { 0 => Literal::string("x"), 1 => Literal::character('c'), 2 => Literal::byte_string(b"y"), 3 => Literal::string("["), n => Literal::usize_unsuffixed(n as usize + 3) } }
pub fn spacing() -> Spacing { let b = sym::byte(); sym::assume(b < 2); unsafe { std::mem::transmute(b) } }

pub struct Pr { pub out: Vec<TokenTree>, pub sp: Spacing }
impl Pr {
    pub fn id(&mut self, s: &str) { self.out.push(id(s).into()); }
    /// all but the last character of an operator are joint; the spacing after it is arbitrary
    pub fn p(&mut self, s: &str) { let n = s.len(); for (i, c) in s.chars().enumerate() { self.out.push(Punct::new(c, if i + 1 < n { Spacing::Joint } else { self.sp }).into()); } }
    pub fn grp(&mut self, d: Delimiter, f: impl FnOnce(&mut Pr)) { let o = std::mem::take(&mut self.out); f(self); let i = std::mem::replace(&mut self.out, o); self.out.push(Group::new(d, i.into_iter().collect()).into()); }
    pub fn k(&mut self, d: Delimiter, k: u8) { self.grp(d, |q| q.out.push(Literal::usize_unsuffixed(k as usize).into())) }
    pub fn ts(&mut self, s: &str) { self.out.extend(ts(s)); }
    fn par(&mut self, y: &Y) { self.grp(Delimiter::Parenthesis, |q| q.e(y, 0)) }
    fn num(&mut self, n: &N) { if n.1 { self.k(Delimiter::Brace, n.0) } else { self.out.push(Literal::usize_unsuffixed(n.0 as usize).into()) } }
    fn els(&mut self, v: &[(u8, Y)]) { for (l, e) in v { if *l != 0 { self.id(IDS[*l as usize]); self.p(":"); } self.e(e, 2); } }
    /// `at`: 0 anything, 1 an alternative, 2 an element, 3 operand of a suffix, 4 primary
    pub fn e(&mut self, y: &Y, at: u8) {
        let own = match y { Y::Alt(_) => 0, Y::Seq(..) => 1, Y::Opt(_) | Y::Rep(..) => 2, Y::And(_) | Y::Not(_) | Y::Slice(_) => 3, _ => 4 };
        if own < at { return self.par(y); }
        match y {
            Y::Lit(i) => self.out.push(lit(*i).into()), Y::Pat(k) => self.k(Delimiter::Bracket, *k), Y::Pos => { self.id("position"); self.p("!"); self.grp(Delimiter::Parenthesis, |_| {}) }
            Y::Call(n, g, a) => {
                self.id(IDS[*n as usize]);
                if !gen(*n) { return; }
                self.ts(GEN[*g as usize]);
                self.grp(Delimiter::Parenthesis, |q| for (i, a) in a.iter().enumerate() { if i > 0 { q.p(","); } match a { A::Peg(e) => { q.p("<"); q.e(e, 0); q.p(">"); } A::Rust(v) => for s in v { q.ts(s) } } })
            }
            Y::Fail(k) => { self.id("expected"); self.p("!"); self.k(Delimiter::Parenthesis, *k) }
            Y::Mark(true) => self.grp(Delimiter::Parenthesis, |q| q.p("@")), Y::Mark(false) => self.p("@"),
            Y::Meth(n, k) => { self.p("##"); self.id(IDS[*n as usize]); self.k(Delimiter::Parenthesis, *k) }
            Y::Cust(k) => { self.p("#"); self.k(Delimiter::Brace, *k) }
            Y::Seq(v, a) => { self.els(v); if *a != 0 { self.k(Delimiter::Brace, *a) } }
            Y::Alt(v) => for (i, e) in v.iter().enumerate() { if i > 0 { self.p("/") } self.e(e, 1) },
            Y::Opt(e) => { self.e(e, 3); self.p("?") }
            Y::And(e) => { self.p("&"); self.e(e, 4) } Y::Not(e) => { self.p("!"); self.e(e, 4) } Y::Slice(e) => { self.p("$"); self.e(e, 4) }
            Y::Quiet(e) => { self.id("quiet"); self.p("!"); self.grp(Delimiter::Brace, |q| q.e(e, 0)) }
            Y::Rep(e, b, s) => {
                self.e(e, 3);
                self.p(match (b, s) { (Bd::Plus, None) => "+", (Bd::Plus, _) => "++", (_, None) => "*", _ => "**" });
                match b { Bd::Exact(n) => { self.p("<"); self.num(n); self.p(">") } Bd::Both(a, b) => { self.p("<"); if let Some(n) = a { self.num(n) } self.p(","); if let Some(n) = b { self.num(n) } self.p(">") } _ => {} }
                if let Some(s) = s { self.e(s, 4) }
            }
            Y::Prec(ls) => { self.id("precedence"); self.p("!"); self.grp(Delimiter::Brace, |q| for (i, l) in ls.iter().enumerate() { if i > 0 { q.p("--") } for (v, k) in l { q.els(v); q.k(Delimiter::Brace, *k) } }) }
        }
    }
}

// ---- comparison with the syntax tree of the macro
fn gk(g: &Group, d: Delimiter, k: u8) -> bool { g.delimiter() == d && tk(&g.stream(), k) }
fn tk(t: &TokenStream, k: u8) -> bool { if k == 255 { return true; } let v: Vec<TokenTree> = t.clone().into_iter().collect(); v.len() == 1 && matches!(&v[0], TokenTree::Literal(l) if l.to_string().parse() == Ok(k)) }
fn nk(t: &TokenStream, n: &N) -> bool { if !n.1 { return tk(t, n.0); } let v: Vec<TokenTree> = t.clone().into_iter().collect(); v.len() == 1 && matches!(&v[0], TokenTree::Group(g) if gk(g, Delimiter::Brace, n.0)) }
fn idk(i: &Ident, n: u8) -> bool { i == IDS[n as usize] }
pub fn toks(t: TokenStream, out: &mut Vec<String>) { for t in t { match t { TokenTree::Group(g) => { out.push(match g.delimiter() { Delimiter::Parenthesis => "(", Delimiter::Brace => "{", Delimiter::Bracket => "[", _ => "<none>" }.into()); toks(g.stream(), out); out.push("end".into()) } TokenTree::Punct(p) => out.push(p.as_char().to_string()), TokenTree::Ident(i) => out.push(i.to_string()), TokenTree::Literal(l) => out.push(l.to_string()) } } }
pub fn same_ts(t: &TokenStream, s: &str) -> bool { let mut a = vec![]; let mut b = vec![]; toks(t.clone(), &mut a); toks(ts(s), &mut b); a == b }
pub fn same_opt(t: &Option<TokenStream>, s: &str) -> bool { match t { None => s == "", Some(t) => s != "" && same_ts(t, s) } }
fn els_same(v: &[(u8, Y)], w: &[TaggedExpr]) -> bool { v.len() == w.len() && v.iter().zip(w).all(|((l, e), t)| (match &t.name { None => *l == 0, Some(i) => *l != 0 && idk(i, *l) }) && same(e, &t.expr)) }
fn ob(a: &Option<N>, b: &Option<TokenStream>) -> bool { match (a, b) { (None, None) => true, (Some(n), Some(t)) => nk(t, n), _ => false } }
pub fn same(y: &Y, e: &SpannedExpr) -> bool {
    match (y, &e.expr) {
        (Y::Seq(v, 0), _) if v.len() == 1 => same(&v[0].1, e),
        (Y::Lit(i), LiteralExpr(l)) => l.to_string() == LITS[*i as usize],
        (Y::Pat(k), PatternExpr(g)) => gk(g, Delimiter::Bracket, *k),
        (Y::Pos, PositionExpr) => true,
        (Y::Call(n, g, a), RuleExpr(i, gs, w)) => idk(i, *n) && same_opt(gs, GEN[*g as usize]) && a.len() == w.len() && a.iter().zip(w).all(|p| match p { (A::Peg(y), RuleArg::Peg(e)) => same(y, e), (A::Rust(v), RuleArg::Rust(t)) => if v[0].starts_with('#') { v[0] == format!("#{}", t.clone().into_iter().count()) } else { same_ts(t, &v.join(" ")) }, _ => false }),
        (Y::Fail(k), FailExpr(g)) => gk(g, Delimiter::Parenthesis, *k),
        (Y::Mark(b), MarkerExpr(c)) => b == c,
        (Y::Meth(n, k), MethodExpr(i, t)) => idk(i, *n) && tk(t, *k),
        (Y::Cust(k), CustomExpr(g)) => gk(g, Delimiter::Brace, *k),
        (Y::Seq(v, a), ActionExpr(w, g)) => els_same(v, w) && match g { None => *a == 0, Some(g) => *a != 0 && gk(g, Delimiter::Brace, *a) },
        (Y::Alt(v), ChoiceExpr(w)) => v.len() == w.len() && v.iter().zip(w).all(|(y, e)| same(y, e)),
        (Y::Opt(a), OptionalExpr(b)) | (Y::And(a), PosAssertExpr(b)) | (Y::Not(a), NegAssertExpr(b)) | (Y::Slice(a), MatchStrExpr(b)) | (Y::Quiet(a), QuietExpr(b)) => same(a, b),
        (Y::Rep(a, b, s), Repeat { inner, bound, sep }) => same(a, inner) && (match (s, sep) { (None, None) => true, (Some(s), Some(t)) => same(s, t), _ => false })
            && match (b, bound) { (Bd::Star, BoundedRepeat::None) | (Bd::Plus, BoundedRepeat::Plus) => true, (Bd::Exact(n), BoundedRepeat::Exact(t)) => nk(t, n), (Bd::Both(a, b), BoundedRepeat::Both(c, d)) => ob(a, c) && ob(b, d), _ => false },
        (Y::Prec(ls), PrecedenceExpr { levels }) => ls.len() == levels.len() && ls.iter().zip(levels).all(|(l, m)| l.len() == m.operators.len() && l.iter().zip(&m.operators).all(|((v, k), o)| els_same(v, &o.elements) && gk(&o.action, Delimiter::Brace, *k))),
        _ => false,
    }
}
pub fn parse(t: Vec<TokenTree>) -> Result<Grammar, String> { let f = FlatTokenStream::new(t.into_iter().collect()); crate::grammar::peg::peg_grammar(&f).map_err(|e| if sym::active() { String::new() } else { format!("{}", e) }) }
/// `grammar g() for str { rule ra() = BODY }`
pub fn wrap(body: Vec<TokenTree>) -> Vec<TokenTree> {
    let mut p = Pr { out: vec![], sp: Spacing::Alone };
    p.id("grammar"); p.id("g"); p.grp(Delimiter::Parenthesis, |_| {}); p.id("for"); p.id("str");
    p.grp(Delimiter::Brace, |q| { q.id("rule"); q.id("ra"); q.grp(Delimiter::Parenthesis, |_| {}); q.p("="); q.out.extend(body) });
    p.out
}
pub fn body(g: &Grammar) -> Option<&ast::Rule> { match &g.items[..] { [Item::Rule(r)] => Some(r), _ => None } }

pub fn roundtrip(y: &Y) -> ! {
    proc_macro2::fallback::force();
    let mut p = Pr { out: vec![], sp: spacing() };
    p.e(y, 0);
    if !sym::active() { println!("{:?}\n{}", y, p.out.iter().cloned().collect::<TokenStream>()); }
    let r = parse(wrap(p.out));
    sym::log(r.is_ok() as u64);
    match r { Err(e) => { if !sym::active() { println!("{}", e); } sym::fail("a well-formed expression is rejected") }
        Ok(g) => { let r = body(&g); sym::ck(r.is_some(), "not one rule"); if let Some(r) = r { if !sym::active() { println!("{:?}", r.expr); } sym::ck(same(y, &r.expr), "the expression is read differently from what was written"); } } }
    sym::done()
}

// ---- symbolic choice of trees
fn b(y: Y) -> Box<Y> { Box::new(y) }
pub fn num() -> N { let k = sym::pick(2); N(2, k == 1) }
pub fn leaf() -> Y { match sym::pick(6) { 0 => Y::Lit(0), 1 => Y::Pos, 2 => Y::Call(1, 0, vec![]), 3 => Y::Call(UNDER, 0, vec![]), 4 => Y::Pat(3), _ => Y::Mark(true) } }
pub fn few() -> Y { match sym::pick(2) { 0 => Y::Lit(0), _ => Y::Call(1, 0, vec![]) } }
pub fn prim() -> Y {
    match sym::pick(16) { 0 => Y::Lit(sym::pick(5) as u8), 1 => Y::Pat(3), 2 => Y::Pos, 3 => Y::Call(1 + sym::pick(NID as u64 - 1) as u8, 0, vec![]), 4 => Y::Fail(4), 5 => Y::Mark(false), 6 => Y::Mark(true), 7 => Y::Meth(1 + sym::pick(9) as u8, 5), 8 => Y::Cust(6),
        9 => Y::Seq(vec![], 0), 10 => Y::Seq(vec![], 9), 11 => Y::Quiet(b(Y::Lit(0))), 12 => Y::Prec(vec![]), 13 => Y::Prec(vec![vec![(vec![(0, Y::Lit(0))], 8)]]), 14 => Y::Call(1, sym::pick(GEN.len() as u64) as u8, vec![]), _ => Y::Call(5 + sym::pick(4) as u8, 0, vec![A::Peg(Y::Lit(0))]) }
}
pub fn bd() -> Bd { match sym::pick(6) { 0 => Bd::Star, 1 => Bd::Exact(num()), 2 => Bd::Both(None, None), 3 => Bd::Both(Some(num()), None), 4 => Bd::Both(None, Some(num())), _ => Bd::Both(Some(num()), Some(N(3, false))) } }
pub fn lab() -> u8 { match sym::pick(2) { 0 => 0, _ => 3 } }
pub fn rarg() -> A { A::Rust(vec![RARG[sym::pick(RARG.len() as u64) as usize].to_string()]) }
pub const KINDS: usize = 30;
pub fn node(k: usize, f: &mut dyn FnMut() -> Y) -> Y {
    match k {
        0 => prim(), 1 => Y::Opt(b(f())), 2 => Y::And(b(f())), 3 => Y::Not(b(f())), 4 => Y::Slice(b(f())), 5 => Y::Quiet(b(f())), 6 => Y::Rep(b(f()), Bd::Plus, None), 7 => Y::Rep(b(f()), bd(), None),
        8 => { let e = f(); Y::Rep(b(e), Bd::Plus, Some(b(f()))) } 9 => { let e = f(); Y::Rep(b(e), bd(), Some(b(f()))) }
        10 => { let l = lab(); let e = f(); Y::Seq(vec![(l, e), (lab(), f())], 0) } 11 => { let l = lab(); let e = f(); Y::Seq(vec![(l, e), (lab(), f())], 7) } 12 => Y::Seq(vec![(lab(), f())], 7), 13 => Y::Seq(vec![(4 + sym::pick(12) as u8, f())], 7),
        14 => { let a = f(); Y::Alt(vec![a, f()]) } 15 => { let a = f(); let c = f(); Y::Alt(vec![a, c, f()]) } 16 => { let a = f(); Y::Alt(vec![a, Y::Seq(vec![], 0)]) } 17 => { let a = f(); Y::Alt(vec![Y::Seq(vec![], 7), a]) }
        18 => Y::Call(1, 0, vec![A::Peg(f())]), 19 => { let a = f(); Y::Call(2, 1, vec![A::Peg(a), A::Peg(f())]) } 20 => { let a = rarg(); Y::Call(1, 0, vec![a, A::Peg(f())]) } 21 => { let a = f(); Y::Call(1, 2, vec![A::Peg(a), rarg()]) }
        22 => Y::Prec(vec![vec![(vec![(3, Y::Mark(true)), (0, f()), (4, Y::Mark(false))], 7)], vec![(vec![(0, Y::Lit(0))], 8)]]), 23 => { let a = f(); Y::Prec(vec![vec![(vec![(0, Y::Pos), (3, Y::Mark(false)), (0, Y::Pos)], 7), (vec![(lab(), a)], 8)], vec![(vec![(lab(), f())], 9), (vec![], 5)], vec![(vec![], 4)]]) }
        24 => { let a = f(); let c = f(); Y::Seq(vec![(0, a), (0, c), (0, f())], 0) } 25 => { let a = f(); let c = f(); Y::Seq(vec![(3, a), (0, c), (4, f())], 7) }
        26 => Y::Alt(vec![Y::Seq(vec![(0, f()), (0, Y::Lit(0))], 0), Y::Alt(vec![Y::Lit(1), Y::Lit(2)])]), 27 => Y::Seq(vec![(0, Y::Seq(vec![(3, f())], 6)), (0, Y::Seq(vec![], 5))], 0), 28 => { let a = rarg(); Y::Call(1, 0, vec![a, rarg(), A::Peg(f())]) }
        _ => Y::Quiet(b(Y::Alt(vec![Y::Seq(vec![(3, f())], 7), f()]))),
    }
}

pub fn nth(k: usize, x: Y, o: Y) -> impl FnMut() -> Y { let mut i = 0; move || { i += 1; if i == k + 1 { x.clone() } else { o.clone() } } }
/// operators nested around `x`, innermost first
pub fn deep(ks: &[(usize, usize)], mut x: Y) -> Y { for (k, q) in ks { x = node(*k, &mut nth(*q, x, Y::Lit(0))); } x }
pub fn one(v: &[Y]) -> Y { v[sym::pick(v.len() as u64) as usize].clone() }

// ---- headers
pub const DOC: [&str; 3] = ["", "#[doc = \" one\"]", "#[doc = \" one\"] #[doc = \" two\"]"];
pub const VIS: [&str; 5] = ["", "pub", "pub(crate)", "pub(in a::b)", "pub(super)"];
pub const LT: [&[&str]; 4] = [&[], &["'a"], &["'a", "'b"], &["'a", "'b", ","]];
pub const TY: [&str; 26] = ["u8", "[u8]", "str", "&'a mut [u8; 4]", "&str", "(A, B,)", "()", "(A,)", "<T as Iterator>::Item", "<T>::Item", "Vec<Option<&'static str>>", "dyn Fn(A) -> B + 'a", "Box<dyn FnMut(&str) -> Result<(), E> + Send + 'static>", "impl A + B<C>", "::std::vec::Vec<u8>", "HashMap<K, Vec<V>>",
    "F::<T>::X", "F<{ 3 }, 4>", "Cow<'a, str,>", "Fn(A, B)", "crate::x::Y", "Self", "&mut &dyn A", "impl for<'b> Fn(&'b u8) -> (bool, &'b u8)", "dyn (for<'b> A<'b>) + (?Sized)", "Vec<Vec<Vec<u8>>>"];
pub const GP: [&[&str]; 8] = [&[], &["T"], &["T: Clone + 'a"], &["'a", "T"], &["'a: 'b + 'c", "'b", "'c"], &["T: Fn(A) -> B<C>", ","], &["T: for<'x> Tr<'x>", "U: ?Sized"], &["T: (A) + ::b::C"]];
pub const WH: [&str; 7] = ["", "where T: Clone", "where T: Clone + 'a,", "where 'a: 'b, T: X", "where for<'x> T: Tr<'x>, Vec<T>: Y", "where", "where <T as A>::B: ?Sized + C<D>, 'a"];
pub const RET: [&str; 2] = ["u8", ""];
pub const USES: [&[&str]; 12] = [&[], &["use super::*;"], &["use a;"], &["use crate::a::b as c;", "use d::{e, f as g,};"], &["use a::b::c;", "use std::{x};"], &["use self_::*;", "use a as b;", "use c::d;"], &["use crate::{a};"], &["use crate::a::*;"], &["use crate::*;"], &["use ::a::{b::{c as _, d::*}, self, ::e};"], &["use a::{};", "use {a, b};"], &["use crate::a;", "use super::super::b::{*};"]];
pub const NAMES: [&str; 8] = ["ra", "_", "__", "___", "precedence", "grammar", "_x", "cache"];
pub const LEN: [usize; 15] = [3, 5, 4, 5, 26, 12, 3, 3, 2, 5, 8, 8, 8, 27, 7];
fn list(v: &[String]) -> String { v.join(",") }
/// s: doc, vis, lifetimes, args, input, uses | doc, cache, no_eof, vis, name, generics, params, ret, where; t: a type for the parameters; semi: how the rule ends
pub fn header(s: [usize; 15], t: usize, semi: usize) -> ! {
    proc_macro2::fallback::force();
    let tr = |v: &[&str]| -> (String, usize) { let n = v.len() - (v.last() == Some(&",")) as usize; (if n == 0 { String::new() } else { format!("<{}{}>", v[..n].join(", "), if n < v.len() { "," } else { "" }) }, n) };
    let (lt, nlt) = tr(LT[s[2]]);
    let args: Vec<(&str, &str)> = match s[3] { 0 => vec![], 1 => vec![("x", TY[t])], 2 => vec![("x", "u8"), ("y", TY[t])], 3 => vec![("grammar", TY[t]), ("y", "u8")], _ => vec![("x", TY[t])] };
    let arg_text = args.iter().map(|(n, t)| format!("{}: {}", n, t)).collect::<Vec<_>>().join(", ") + if s[3] >= 3 { "," } else { "" };
    let uses = USES[s[5]];
    let under = s[10] >= 1 && s[10] <= 3;
    let gp = if under { &[][..] } else { GP[s[11]] };
    let (gpt, ngp) = tr(gp);
    let ps: Vec<(&str, &str, bool)> = if under { vec![] } else { match s[12] { 0 => vec![], 1 => vec![("x", TY[t], true)], 2 => vec![("x", TY[t], false)], 3 => vec![("x", "u8", false), ("y", TY[t], true)], 4 => vec![("x", TY[t], true), ("y", "()", true), ("z", "T", false)], 5 => vec![("x", TY[t], false), ("p", "u8", true)], 6 => vec![("grammar", "rule_", false)], _ => vec![("x", "u8", true)] } };
    let ps_text = ps.iter().map(|(n, t, r)| if *r { format!("{}: rule<{}>", n, t) } else { format!("{}: {}", n, t) }).collect::<Vec<_>>().join(", ") + if s[12] >= 5 && !ps.is_empty() { "," } else { "" };
    let parens = if under { if s[12] % 2 == 0 { String::new() } else { "()".into() } } else { format!("{}({})", gpt, ps_text) };
    let ret = if s[13] == 0 { "" } else { TY[s[13] - 1] };
    let cache = ["", "#[cache]", "#[cache_left_rec]"][s[7]];
    let head = format!("{} {} {} {} rule {}{} {} {} = \"x\"", DOC[s[6]], cache, if s[8] == 1 { "#[no_eof]" } else { "" }, VIS[s[9]], NAMES[s[10]], parens, if ret == "" { String::new() } else { format!("-> {}", ret) }, WH[s[14]]);
    let rules = match semi { 0 => format!("{}", head), 1 => format!("{};", head), 2 => format!("{} rule other() = \"y\"", head), 3 => format!("{}; rule other() = \"y\";", head), 4 => format!("rule other() = \"y\" {}", head), _ => format!("rule _ = \"y\"; {}", head) };
    let last = ["", "use last;"][(semi % 2) as usize];
    let src = format!("{} {} grammar g{}({}) for {} {{ {} {} {} }}", DOC[s[0]], VIS[s[1]], lt, arg_text, TY[s[4]], uses.join(" "), rules, last);
    if !sym::active() { println!("{}", src); }
    let r = parse(ts(&src).into_iter().collect());
    sym::log(r.is_ok() as u64);
    let g = match r { Ok(g) => g, Err(e) => { if !sym::active() { println!("{}", e); } sym::fail("a well-formed grammar is rejected"); sym::done() } };
    let mut ok = true; let mut c = |b: bool, m: &str| sym::ck(b, m);
    c(same_some(&g.doc, DOC[s[0]]), "the documentation of the grammar is lost"); c(same_some(&g.visibility, VIS[s[1]]), "the visibility of the grammar differs"); c(g.name == "g", "the name of the grammar differs");
    c(match &g.lifetime_params { None => nlt == 0, Some(v) => v.len() == nlt && v.iter().zip(LT[s[2]]).all(|(a, b)| same_ts(a, b)) }, "the lifetimes of the grammar differ");
    c(g.args.len() == args.len() && g.args.iter().zip(&args).all(|((n, t), (m, u))| n == m && same_ts(t, u)), "the arguments of the grammar differ");
    c(same_ts(&g.input_type, TY[s[4]]), "the input type differs");
    let us: Vec<&TokenStream> = g.items.iter().filter_map(|i| match i { Item::Use(t) => Some(t), _ => None }).collect();
    let mut want: Vec<&str> = uses.to_vec(); if last != "" { want.push(last); }
    c(us.len() == want.len() && us.iter().zip(&want).all(|(a, b)| same_ts(a, b)), "the use items differ");
    let rs: Vec<&ast::Rule> = g.iter_rules().collect();
    c(rs.len() == if semi >= 2 { 2 } else { 1 }, "the number of rules differs");
    let i = (semi >= 4) as usize;
    if i < rs.len() {
        let r = rs[i];
        c(r.name == NAMES[s[10]], "the name of the rule differs"); c(same_some(&r.doc, DOC[s[6]]), "the documentation of the rule is lost"); c(same_some(&r.visibility, VIS[s[9]]), "the visibility of the rule differs");
        c(r.no_eof == (s[8] == 1), "#[no_eof] differs"); c(match r.cache { None => s[7] == 0, Some(Cache::Simple) => s[7] == 1, Some(Cache::Recursive) => s[7] == 2 }, "the cache attribute differs");
        c(match &r.ty_params { None => ngp == 0, Some(v) => v.len() == ngp && v.iter().zip(gp).all(|(a, b)| same_ts(a, b)) }, "the generic parameters differ");
        c(r.params.len() == ps.len() && r.params.iter().zip(&ps).all(|(p, (n, t, q))| p.name == n && match &p.ty { RuleParamTy::Rule(u) => *q && same_ts(u, t), RuleParamTy::Rust(u) => !*q && same_ts(u, t) }), "the parameters differ");
        c(same_opt(&r.ret_type, ret), "the return type differs"); c(same_opt(&r.where_clause, WH[s[14]]), "the where clause differs");
        c(same(&Y::Lit(0), &r.expr), "the expression differs");
    }
    if i < 2 && rs.len() == 2 { let o = rs[1 - i]; c(o.name == ["other", "_"][(semi == 5) as usize] && o.params.is_empty() && o.ret_type.is_none() && !o.no_eof && o.cache.is_none() && same_some(&o.doc, "") && same_some(&o.visibility, ""), "the other rule differs"); }
    sym::done()
}
/// many lifetimes, arguments, uses, rules, and a rule with many generics and parameters, all counted and named
pub fn big(n: [usize; 7]) -> ! {
    proc_macro2::fallback::force();
    let l = |k: usize, f: &dyn Fn(usize) -> String, sep: &str| (0..k).map(|i| f(i)).collect::<Vec<_>>().join(sep);
    let ty = |i: usize| TY[[0, 3, 4, 10, 14, 15][i % 6]];
    let rule_param = |i: usize| i % 3 == 1;
    let br = |s: String| if s.is_empty() { s } else { format!("<{}>", s) };
    let doc = l(n[6], &|i| format!("#[doc = \" {}\"]", i), " ");
    let src = format!("{} grammar g{}({}) for str {{ {} {} {} rule big{}({}) = \"x\" {} }}", doc, br(l(n[0], &|i| format!("'l{}", i), ", ")), l(n[1], &|i| format!("a{}: {}", i, ty(i)), ", "), l(n[2], &|i| format!("use m{}::x{}::*;", i, i + 1), " "),
        l(n[3], &|i| format!("{}rule r{}() = r{}()", ["", "pub ", "#[cache] "][i % 3], i, i + 1), " "), doc, br(l(n[4], &|i| format!("T{}: A{}", i, i), ", ")), l(n[5], &|i| if rule_param(i) { format!("p{}: rule<{}>", i, ty(i)) } else { format!("p{}: {}", i, ty(i)) }, ", "), l(n[3], &|i| format!("; rule q{}() = \"y\"", i), " "));
    if !sym::active() { println!("{}", src); }
    let r = parse(ts(&src).into_iter().collect());
    sym::log(r.is_ok() as u64);
    let g = match r { Ok(g) => g, Err(e) => { if !sym::active() { println!("{}", e); } sym::fail("a well-formed grammar is rejected"); sym::done() } };
    let v = |t: &Option<Vec<TokenStream>>, k: usize, f: &dyn Fn(usize) -> String| match t { None => k == 0, Some(v) => v.len() == k && v.iter().enumerate().all(|(i, t)| same_ts(t, &f(i))) };
    sym::ck(v(&g.lifetime_params, n[0], &|i| format!("'l{}", i)), "the lifetimes of the grammar differ");
    sym::ck(g.args.len() == n[1] && g.args.iter().enumerate().all(|(i, (a, t))| *a == format!("a{}", i) && same_ts(t, ty(i))), "the arguments of the grammar differ");
    sym::ck(same_some(&g.doc, &doc), "the documentation of the grammar is lost");
    let us: Vec<&TokenStream> = g.items.iter().filter_map(|i| match i { Item::Use(t) => Some(t), _ => None }).collect();
    sym::ck(us.len() == n[2] && us.iter().enumerate().all(|(i, t)| same_ts(t, &format!("use m{}::x{}::*;", i, i + 1))), "the use items differ");
    let rs: Vec<&ast::Rule> = g.iter_rules().collect();
    sym::ck(rs.len() == 2 * n[3] + 1, "the number of rules differs");
    for (i, r) in rs.iter().enumerate() {
        if i < n[3] { sym::ck(r.name == format!("r{}", i) && r.visibility.is_some() == (i % 3 == 1) && r.cache.is_some() == (i % 3 == 2) && matches!(&r.expr.expr, RuleExpr(x, None, a) if *x == format!("r{}", i + 1) && a.is_empty()), "a rule differs") }
        else if i > n[3] { sym::ck(r.name == format!("q{}", i - n[3] - 1) && r.params.is_empty() && r.cache.is_none(), "a rule differs") }
        else {
            sym::ck(r.name == "big" && same_some(&r.doc, &doc), "the rule differs");
            sym::ck(v(&r.ty_params, n[4], &|i| format!("T{}: A{}", i, i)), "the generic parameters differ");
            sym::ck(r.params.len() == n[5] && r.params.iter().enumerate().all(|(i, p)| p.name == format!("p{}", i) && match &p.ty { RuleParamTy::Rule(u) => rule_param(i) && same_ts(u, ty(i)), RuleParamTy::Rust(u) => !rule_param(i) && same_ts(u, ty(i)) }), "the parameters differ");
        }
    }
    sym::done()
}
/// absent and empty count as the same
fn same_some(t: &Option<TokenStream>, s: &str) -> bool { match t { None => s == "", Some(t) => same_ts(t, s) } }

// ---- arbitrary token sequences
#[derive(Clone, Debug)]
pub enum T { Id(u8), W(String), Lit(u8), P(u8, u8), G(Delimiter, Vec<T>) }
pub const PUNCT: &str = "!#$&*+,-/:;<>?@=|.";
/// `P` any punctuation, `L` a literal, names of IDS, groups; a quoted operator stands for itself
pub fn window(s: &str) -> Vec<T> {
    fn go(it: &mut std::iter::Peekable<std::str::SplitWhitespace>, out: &mut Vec<T>) {
        while let Some(w) = it.next() {
            match w {
                "P" => { let c = sym::byte(); sym::assume(matches!(c, b'!' | b'#' | b'$' | b'&' | b'*' | b'+' | b',' | b'-' | b'/' | b':' | b';' | b'<' | b'>' | b'?' | b'@' | b'=' | b'|' | b'.')); let j = sym::byte(); sym::assume(j < 2); out.push(T::P(c, j)) }
                "(" | "{" | "[" => { let mut v = vec![]; go(it, &mut v); out.push(T::G(match w { "(" => Delimiter::Parenthesis, "{" => Delimiter::Brace, _ => Delimiter::Bracket }, v)) }
                ")" => return,
                "L" => out.push(T::Lit(0)), "L4" => out.push(T::Lit(4)),
                _ => if let Some(i) = IDS.iter().position(|x| *x == w) { out.push(T::Id(i as u8)) } else if w.as_bytes()[0].is_ascii_alphabetic() { out.push(T::W(w.to_string())) } else { let j = sym::byte(); sym::assume(j < 2); let b = w.as_bytes(); for (i, c) in b.iter().enumerate() { out.push(T::P(*c, if i + 1 < b.len() { 1 } else { j })) } },
            }
        }
    }
    let mut v = vec![]; go(&mut s.split_whitespace().peekable(), &mut v); v
}
pub fn tokens(v: &[T]) -> Vec<TokenTree> {
    v.iter().map(|t| match t { T::Id(i) => id(IDS[*i as usize]).into(), T::W(w) => id(w).into(), T::Lit(i) => lit(*i).into(), T::P(c, j) => Punct::new(*c as char, if *j == 1 { Spacing::Joint } else { Spacing::Alone }).into(), T::G(d, v) => Group::new(*d, tokens(v).into_iter().collect()).into() }).collect()
}
type R<X> = Option<(X, usize)>;
const ANY: u8 = 255;
fn pu(t: &[T], i: usize, s: &str) -> Option<usize> {
    let b = s.as_bytes();
    for k in 0..b.len() { match t.get(i + k) { Some(T::P(c, j)) if *c == b[k] && (k + 1 == b.len() || *j == 1) => {} _ => return None } }
    Some(i + b.len())
}
fn gr<'a>(t: &'a [T], i: usize, d: Delimiter) -> Option<&'a [T]> { match t.get(i) { Some(T::G(e, v)) if *e == d => Some(v), _ => None } }
fn word(t: &[T], i: usize, w: &str) -> bool { matches!(t.get(i), Some(T::Id(k)) if IDS[*k as usize] == w) }
pub fn r_expr(t: &[T], i: usize) -> (Y, usize) {
    let (a, mut i) = r_seq(t, i); let mut v = vec![a];
    while let Some(j) = pu(t, i, "/") { let (a, k) = r_seq(t, j); v.push(a); i = k; }
    (if v.len() == 1 { v.pop().unwrap() } else { Y::Alt(v) }, i)
}
fn r_all(t: &[T]) -> Option<Y> { let (y, i) = r_expr(t, 0); if i == t.len() { Some(y) } else { None } }
fn r_els(t: &[T], mut i: usize) -> (Vec<(u8, Y)>, usize) { let mut v = vec![]; while let Some((e, j)) = r_el(t, i) { v.push(e); i = j; } (v, i) }
fn r_seq(t: &[T], i: usize) -> (Y, usize) {
    let (mut v, i) = r_els(t, i);
    if gr(t, i, Delimiter::Brace).is_some() { (Y::Seq(v, ANY), i + 1) } else if v.len() == 1 { (v.pop().unwrap().1, i) } else { (Y::Seq(v, 0), i) }
}
fn r_el(t: &[T], i: usize) -> R<(u8, Y)> {
    if let Some(T::Id(k)) = t.get(i) { if pu(t, i + 1, ":").is_some() && pu(t, i + 2, ":").is_none() { let (e, j) = r_suf(t, i + 2)?; return Some(((*k, e), j)); } }
    let (e, j) = r_suf(t, i)?; Some(((0, e), j))
}
fn r_num(t: &[T], i: usize) -> R<N> { match t.get(i)? { T::Lit(4) => Some((N(7, false), i + 1)), T::Lit(_) => Some((N(ANY, false), i + 1)), T::G(Delimiter::Brace, _) => Some((N(ANY, true), i + 1)), _ => None } }
fn r_count(t: &[T], i: usize) -> (Bd, usize) {
    if let Some(j) = pu(t, i, "<") {
        if let Some((n, k)) = r_num(t, j) { if let Some(e) = pu(t, k, ">") { return (Bd::Exact(n), e); } }
        let (a, j) = match r_num(t, j) { Some((n, k)) => (Some(n), k), None => (None, j) };
        if let Some(j) = pu(t, j, ",") { let (b, j) = match r_num(t, j) { Some((n, k)) => (Some(n), k), None => (None, j) }; if let Some(j) = pu(t, j, ">") { return (Bd::Both(a, b), j); } }
    }
    (Bd::Star, i)
}
fn r_suf(t: &[T], i: usize) -> R<Y> {
    let (e, i) = r_pre(t, i)?;
    if let Some(j) = pu(t, i, "?") { return Some((Y::Opt(b(e)), j)); }
    if let Some(j) = pu(t, i, "**") { let (n, j) = r_count(t, j); if let Some((s, j)) = r_prim(t, j) { return Some((Y::Rep(b(e), n, Some(b(s))), j)); } }
    if let Some(j) = pu(t, i, "++") { if let Some((s, j)) = r_prim(t, j) { return Some((Y::Rep(b(e), Bd::Plus, Some(b(s))), j)); } }
    if let Some(j) = pu(t, i, "*") { let (n, j) = r_count(t, j); return Some((Y::Rep(b(e), n, None), j)); }
    if let Some(j) = pu(t, i, "+") { return Some((Y::Rep(b(e), Bd::Plus, None), j)); }
    Some((e, i))
}
fn r_pre(t: &[T], i: usize) -> R<Y> {
    for (s, k) in [("$", 0), ("&", 1), ("!", 2)] { if let Some(j) = pu(t, i, s) { let (e, j) = r_prim(t, j)?; return Some((match k { 0 => Y::Slice(b(e)), 1 => Y::And(b(e)), _ => Y::Not(b(e)) }, j)); } }
    r_prim(t, i)
}
fn r_levels(t: &[T]) -> Option<Vec<Vec<(Vec<(u8, Y)>, u8)>>> {
    let mut out = vec![]; let mut i = 0;
    if t.is_empty() { return Some(out); }
    loop {
        let mut l = vec![];
        loop { let (v, j) = r_els(t, i); if gr(t, j, Delimiter::Brace).is_none() { break; } l.push((v, ANY)); i = j + 1; }
        if l.is_empty() { return None; }
        out.push(l);
        if i == t.len() { return Some(out); }
        i = pu(t, i, "--")?;
    }
}
fn r_args(t: &[T]) -> Option<Vec<A>> {
    let mut v = vec![]; let mut i = 0;
    if t.is_empty() { return Some(v); }
    loop {
        let peg = pu(t, i, "<").and_then(|j| { let (e, k) = r_expr(t, j); pu(t, k, ">").map(|k| (e, k)) });
        if let Some((e, k)) = peg { v.push(A::Peg(e)); i = k; }
        else { let s = i; while i < t.len() && pu(t, i, ",").is_none() { i += 1; } if i == s { return None; } v.push(A::Rust(vec![format!("#{}", i - s)])); }
        if i == t.len() { return Some(v); }
        i = pu(t, i, ",")?;
    }
}
fn r_prim(t: &[T], i: usize) -> R<Y> {
    use Delimiter::{Brace, Bracket, Parenthesis};
    match t.get(i)? {
        T::Id(n) => {
            let w = IDS[*n as usize];
            if pu(t, i + 1, "!").is_some() {
                let r = match w { "precedence" => gr(t, i + 2, Brace).and_then(|v| r_levels(v)).map(Y::Prec), "position" => gr(t, i + 2, Parenthesis).and_then(|v| if v.is_empty() { Some(Y::Pos) } else { None }),
                    "quiet" => gr(t, i + 2, Brace).and_then(|v| r_all(v)).map(|e| Y::Quiet(b(e))), "expected" => gr(t, i + 2, Parenthesis).map(|_| Y::Fail(ANY)), _ => None };
                if let Some(y) = r { return Some((y, i + 3)); }
            }
            if !gen(*n) { return Some((Y::Call(*n, 0, vec![]), i + 1)); }
            sym::assume(pu(t, i + 1, "::").is_none() || pu(t, i + 3, "<").is_none());     // generic arguments: see the other harnesses
            let v = gr(t, i + 1, Parenthesis)?; Some((Y::Call(*n, 0, r_args(v)?), i + 2))
        }
        T::Lit(k) => Some((Y::Lit(*k), i + 1)), T::G(Bracket, _) => Some((Y::Pat(ANY), i + 1)),
        T::G(Parenthesis, v) => { if v.len() == 1 && pu(v, 0, "@").is_some() { return Some((Y::Mark(true), i + 1)); } Some((r_all(v)?, i + 1)) }
        T::P(..) => {
            if pu(t, i, "@").is_some() { return Some((Y::Mark(false), i + 1)); }
            if pu(t, i, "##").is_some() { if let (Some(T::Id(n)), Some(_)) = (t.get(i + 2), gr(t, i + 3, Parenthesis)) { return Some((Y::Meth(*n, ANY), i + 4)); } }
            if pu(t, i, "#").is_some() && gr(t, i + 1, Brace).is_some() { return Some((Y::Cust(ANY), i + 2)); }
            None
        }
        _ => None,
    }
}
pub fn free(s: &str) -> ! {
    proc_macro2::fallback::force();
    let v = window(s);
    let toks = tokens(&v);
    if !sym::active() { println!("{}", toks.iter().cloned().collect::<TokenStream>()); }
    let r = parse(wrap(toks));
    sym::log(r.is_ok() as u64);
    let (y, mut i) = r_expr(&v, 0);
    if let Some(j) = pu(&v, i, ";") { i = j; }
    let want = if i == v.len() { Some(y) } else { None };
    if !sym::active() { println!("want {:?}\ngot {:?}", want, r); }
    sym::cover(if want.is_some() { 1 } else { 2 });
    match (&want, &r) {
        (Some(y), Ok(g)) => { let r = body(g); sym::ck(r.map_or(false, |r| same(y, &r.expr)), "the expression is read differently from what was written") }
        (Some(_), Err(_)) => sym::fail("a well-formed expression is rejected"),
        (None, Ok(_)) => sym::fail("a sequence of tokens that is no expression is accepted"),
        (None, Err(_)) => {}
    }
    sym::done()
}

// ---- diagnostics
fn scan(t: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) if i + 2 < v.len() && id == "compile_error" => if let TokenTree::Group(g) = &v[i + 2] { if let Some(TokenTree::Literal(l)) = g.stream().into_iter().next() { let s = l.to_string(); out.push(s[1..s.len() - 1].to_string()); } },
            TokenTree::Group(g) => scan(g.stream(), out),
            _ => {}
        }
    }
}
/// messages of the generated code, without those of the analyses
pub fn messages(g: &Grammar) -> Vec<String> { let mut v = vec![]; scan(crate::translate::compile_grammar(g), &mut v); v.retain(|m| !m.contains("loop")); v }
#[derive(Clone, Debug)]
pub struct Hd { pub name: u8, pub vis: bool, pub no_eof: bool, pub cache: u8, pub params: Vec<bool>, pub generics: bool, pub ret: bool, pub body: Y }
impl Hd {
    fn print(&self, p: &mut Pr) {
        if self.cache == 1 { p.ts("#[cache]"); } if self.cache == 2 { p.ts("#[cache_left_rec]"); }
        if self.no_eof { p.ts("#[no_eof]"); } if self.vis { p.id("pub"); }
        p.id("rule"); p.id(IDS[self.name as usize]);
        if gen(self.name) {
            if self.generics { p.ts("<T>"); }
            let ps = &self.params; p.grp(Delimiter::Parenthesis, |q| for (i, r) in ps.iter().enumerate() { if i > 0 { q.p(","); } q.id(IDS[pid(i) as usize]); q.p(":"); if *r { q.ts("rule<u8>") } else { q.id("u8") } });
        }
        if self.ret { p.p("->"); p.id("u8"); }
        p.p("="); p.e(&self.body, 0); p.p(";");
    }
}
pub fn pid(i: usize) -> u8 { if i < 2 { 3 + i as u8 } else { 15 + i as u8 } }
struct D<'a> { rules: &'a [Hd], par: usize, out: Vec<String> }
impl<'a> D<'a> {
    fn m(&mut self, s: String) { self.out.push(s) }
    fn els(&mut self, v: &[(u8, Y)]) { for (l, e) in v { self.d(e, *l != 0) } }
    fn d(&mut self, y: &Y, used: bool) {
        match y {
            Y::Call(n, g, a) => {
                let nm = IDS[*n as usize];
                if (0..self.par).any(|i| pid(i) == *n) { if !a.is_empty() { self.m("rule closure does not accept arguments".into()) } else if *g != 0 { self.m("rule closure cannot have generics".into()) } return; }
                let def = match self.rules.iter().find(|r| r.name == *n) { Some(d) => d, None => return self.m(format!("undefined rule `{}`", nm)) };
                if used && !def.ret { return self.m(format!("using result of rule `{}`, which does not return a value", nm)); }
                let (k, l) = (if !gen(def.name) { 0 } else { def.params.len() }, a.len());
                if k != l { return self.m(format!("this rule takes {} parameters but {} parameters were supplied", k, l)); }
                for a in a { if let A::Peg(e) = a { self.d(e, true) } }
            }
            Y::Seq(v, 0) if v.len() == 1 => self.d(&v[0].1, used),
            Y::Seq(v, _) => self.els(v), Y::Alt(v) => for e in v { self.d(e, used) },
            Y::Opt(e) | Y::And(e) | Y::Quiet(e) => self.d(e, used), Y::Not(e) | Y::Slice(e) => self.d(e, false),
            Y::Rep(e, _, s) => { self.d(e, used); if let Some(s) = s { self.d(s, false) } }
            Y::Mark(_) => self.m("`@` is only allowed in `precedence!{}`".into()),
            Y::Prec(ls) => {
                for (v, _) in ls.iter().flatten() {
                    let n = v.len();
                    if n == 0 { return self.m("incomplete rule".into()); }
                    match (&v[0].1, &v[n - 1].1) {
                        (Y::Pos, Y::Pos) if n == 3 => if !matches!(v[1].1, Y::Mark(_)) { return self.m("span capture rule must be `l:position!() n:@ r:position!()".into()); },
                        (Y::Mark(a), Y::Mark(b)) if n >= 3 && a == b => return self.m("precedence rules must use `@` and `(@)` to indicate associativity".into()),
                        _ => {}
                    }
                }
                for (v, _) in ls.iter().flatten() {
                    let n = v.len();
                    match (&v[0].1, &v[n - 1].1) {
                        (Y::Pos, Y::Pos) if n == 3 => {}
                        (Y::Mark(_), Y::Mark(_)) if n >= 3 => self.els(&v[1..n - 1]),
                        (Y::Mark(_), _) if n >= 2 => self.els(&v[1..]),
                        (_, Y::Mark(_)) if n >= 2 => self.els(&v[..n - 1]),
                        _ => self.els(v),
                    }
                }
            }
            _ => {}
        }
    }
}
pub fn diag(rules: &[Hd]) -> ! {
    proc_macro2::fallback::force();
    let mut p = Pr { out: vec![], sp: Spacing::Alone };
    p.id("grammar"); p.id("g"); p.grp(Delimiter::Parenthesis, |_| {}); p.id("for"); p.id("str");
    p.grp(Delimiter::Brace, |q| for r in rules { r.print(q) });
    if !sym::active() { println!("{}", p.out.iter().cloned().collect::<TokenStream>()); }
    let g = match parse(p.out) { Ok(g) => g, Err(e) => { if !sym::active() { println!("{}", e); } sym::fail("a well-formed grammar is rejected"); sym::done() } };
    let mut got = messages(&g);
    let mut want = vec![];
    for (i, r) in rules.iter().enumerate() {
        if rules[..i].iter().any(|q| q.name == r.name) { want.push(format!("duplicate rule `{}`", IDS[r.name as usize])); continue; }
        let gen = gen(r.name);
        if r.cache != 0 && gen && (!r.params.is_empty() || r.generics) { want.push("rules with generics or parameters cannot use #[cache] or #[cache_left_rec]".into()); continue; }
        if r.vis { for p in &r.params { if *p && gen { want.push("parameters on `pub rule` must be Rust types".into()) } } } else if r.no_eof { want.push("#[no_eof] is only meaningful for `pub rule`".into()) }
        let mut d = D { rules, par: if gen { r.params.len() } else { 0 }, out: vec![] };
        d.d(&r.body, r.ret); want.append(&mut d.out);
    }
    if !sym::active() { println!("want {:?}\ngot {:?}", want, got); }
    // what a message is about: the names and numbers it mentions, not its wording
    let key = |m: &String| -> String { m.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| matches!(*w, "ra" | "rb" | "x" | "y" | "_" | "__") || w.len() <= 3 && w.starts_with('n') && w[1..].parse::<u8>().is_ok() || w.parse::<u8>().is_ok()).collect::<Vec<_>>().join(" ") };
    let mut got: Vec<String> = got.iter().map(key).collect(); let mut want: Vec<String> = want.iter().map(key).collect();
    got.sort(); want.sort();
    // which of two different rules of one name the calls mean is not specified
    if rules.iter().any(|r| rules.iter().any(|q| q.name == r.name && (q.ret != r.ret || q.params.len() != r.params.len()))) { sym::ck(want.iter().filter(|k| k.len() > 0).count() == 0 || got.len() > 0, "a duplicate rule is not reported"); sym::done() }
    sym::log(got.len() as u64); sym::cover(if want.is_empty() { 1 } else { 2 });
    sym::ck(got.len() >= want.len(), "a misuse is not reported");
    sym::ck(got.len() <= want.len(), "a message about something that is no misuse");
    sym::ck(got == want, "a message is about the wrong thing");
    sym::done()
}
/// whatever the macro accepts as a grammar it also translates
pub fn total(s: &str) -> ! {
    proc_macro2::fallback::force();
    let t = tokens(&window(s));
    if !sym::active() { println!("{}", t.iter().cloned().collect::<TokenStream>()); }
    let r = parse(t); sym::log(r.is_ok() as u64); sym::cover(r.is_ok() as u32 + 3);
    if let Ok(g) = r { let o = crate::translate::compile_grammar(&g); let v: Vec<TokenTree> = o.into_iter().collect(); sym::ck(v.iter().any(|t| matches!(t, TokenTree::Ident(i) if i == "mod")), "no module is generated") }
    sym::done()
}
pub fn hd(name: u8, ret: bool, body: Y) -> Hd { Hd { name, vis: false, no_eof: false, cache: 0, params: vec![], generics: false, ret, body } }
pub fn bit() -> bool { sym::pick(2) == 1 }
/// any attributes
pub fn any_hd(name: u8, body: Y) -> Hd { let mut h = hd(name, bit(), body); h.vis = bit(); h.no_eof = bit(); h.cache = sym::pick(3) as u8; h.generics = bit(); h.params = pars(); h }
pub fn pars() -> Vec<bool> { match sym::pick(5) { 0 => vec![], 1 => vec![false], 2 => vec![true], 3 => vec![true, false], _ => vec![false, true, true] } }
/// a call of some rule, parameter or nothing of that name, with some arguments
pub fn call() -> Y { let n = 1 + sym::pick(4) as u8; call_of(n) }
pub fn call_of(n: u8) -> Y { if !gen(n) { return Y::Call(n, 0, vec![]); } Y::Call(n, 0, match sym::pick(4) { 0 => vec![], 1 => vec![A::Rust(vec!["1".into()])], 2 => vec![A::Peg(Y::Lit(0))], _ => vec![A::Rust(vec!["1".into()]), A::Peg(Y::Call(2, 0, vec![]))] }) }
pub fn dleaf() -> Y { match sym::pick(4) { 0 => Y::Lit(0), 1 => Y::Call(2, 0, vec![]), 2 => Y::Call(4, 0, vec![]), _ => Y::Mark(true) } }

// ---- the checked-in parser against one generated from the grammar file
fn tse(a: &TokenStream, b: &TokenStream) -> bool { let mut x = vec![]; let mut y = vec![]; toks(a.clone(), &mut x); toks(b.clone(), &mut y); x == y }
fn tso(a: &Option<TokenStream>, b: &Option<TokenStream>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => tse(a, b), _ => false } }
fn tsv(a: &[TokenStream], b: &[TokenStream]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| tse(a, b)) }
fn tsov(a: &Option<Vec<TokenStream>>, b: &Option<Vec<TokenStream>>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => tsv(a, b), _ => false } }
fn geq(a: &Group, b: &Group) -> bool { a.delimiter() == b.delimiter() && tse(&a.stream(), &b.stream()) }
fn ogeq(a: &Option<Group>, b: &Option<Group>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => geq(a, b), _ => false } }
fn teq(a: &[TaggedExpr], b: &[TaggedExpr]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.name == b.name && eeq(&a.expr, &b.expr)) }
pub fn eeq(a: &SpannedExpr, b: &SpannedExpr) -> bool {
    match (&a.expr, &b.expr) {
        (LiteralExpr(a), LiteralExpr(b)) => a.to_string() == b.to_string(), (PatternExpr(a), PatternExpr(b)) | (CustomExpr(a), CustomExpr(b)) | (FailExpr(a), FailExpr(b)) => geq(a, b),
        (RuleExpr(a, g, v), RuleExpr(b, h, w)) => a == b && tso(g, h) && v.len() == w.len() && v.iter().zip(w).all(|p| match p { (RuleArg::Rust(a), RuleArg::Rust(b)) => tse(a, b), (RuleArg::Peg(a), RuleArg::Peg(b)) => eeq(a, b), _ => false }),
        (MethodExpr(a, s), MethodExpr(b, t)) => a == b && tse(s, t), (ChoiceExpr(v), ChoiceExpr(w)) => v.len() == w.len() && v.iter().zip(w).all(|(a, b)| eeq(a, b)),
        (OptionalExpr(a), OptionalExpr(b)) | (PosAssertExpr(a), PosAssertExpr(b)) | (NegAssertExpr(a), NegAssertExpr(b)) | (MatchStrExpr(a), MatchStrExpr(b)) | (QuietExpr(a), QuietExpr(b)) => eeq(a, b),
        (Repeat { inner: a, bound: n, sep: s }, Repeat { inner: b, bound: m, sep: t }) => eeq(a, b) && (match (s, t) { (None, None) => true, (Some(s), Some(t)) => eeq(s, t), _ => false })
            && match (n, m) { (BoundedRepeat::None, BoundedRepeat::None) | (BoundedRepeat::Plus, BoundedRepeat::Plus) => true, (BoundedRepeat::Exact(a), BoundedRepeat::Exact(b)) => tse(a, b), (BoundedRepeat::Both(a, c), BoundedRepeat::Both(b, d)) => tso(a, b) && tso(c, d), _ => false },
        (ActionExpr(v, g), ActionExpr(w, h)) => teq(v, w) && ogeq(g, h), (PositionExpr, PositionExpr) => true, (MarkerExpr(a), MarkerExpr(b)) => a == b,
        (PrecedenceExpr { levels: v }, PrecedenceExpr { levels: w }) => v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a.operators.len() == b.operators.len() && a.operators.iter().zip(&b.operators).all(|(a, b)| teq(&a.elements, &b.elements) && geq(&a.action, &b.action))),
        _ => false,
    }
}
fn cc(c: &Option<Cache>) -> u8 { match c { None => 0, Some(Cache::Simple) => 1, Some(Cache::Recursive) => 2 } }
pub fn greq(a: &Grammar, b: &Grammar) -> bool {
    tso(&a.doc, &b.doc) && tso(&a.visibility, &b.visibility) && a.name == b.name && tsov(&a.lifetime_params, &b.lifetime_params) && a.args.len() == b.args.len() && a.args.iter().zip(&b.args).all(|((n, t), (m, u))| n == m && tse(t, u)) && tse(&a.input_type, &b.input_type)
        && a.items.len() == b.items.len() && a.items.iter().zip(&b.items).all(|p| match p {
            (Item::Use(a), Item::Use(b)) => tse(a, b),
            (Item::Rule(a), Item::Rule(b)) => a.name == b.name && tsov(&a.ty_params, &b.ty_params) && tso(&a.ret_type, &b.ret_type) && tso(&a.where_clause, &b.where_clause) && tso(&a.doc, &b.doc) && tso(&a.visibility, &b.visibility) && cc(&a.cache) == cc(&b.cache) && a.no_eof == b.no_eof
                && a.params.len() == b.params.len() && a.params.iter().zip(&b.params).all(|(p, q)| p.name == q.name && match (&p.ty, &q.ty) { (RuleParamTy::Rust(a), RuleParamTy::Rust(b)) | (RuleParamTy::Rule(a), RuleParamTy::Rule(b)) => tse(a, b), _ => false }) && eeq(&a.expr, &b.expr),
            _ => false })
}

// ---- the interface of the generated module
pub const XT: [&str; 10] = ["u8", "[u8]", "str", "&'a mut [u8; 4]", "(A, B,)", "Vec<Option<&'static str>>", "Box<dyn FnMut(&str) -> Result<(), E> + Send + 'static>", "<T as Iterator>::Item", "HashMap<K, Vec<Vec<V>>>", "impl for<'b> Fn(&'b u8) -> (bool, &'b u8)"];
pub const XV: [&str; 4] = ["", "pub", "pub(crate)", "pub(in a::b)"];
/// what an item of a module shows: its kind and name, documentation, visibility and all its tokens but the body
pub struct Shown { pub kind: String, pub name: String, pub doc: Vec<String>, pub vis: Vec<String>, pub rest: Vec<TokenTree> }
fn pc(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn strs(t: &[TokenTree]) -> Vec<String> { let mut v = vec![]; toks(t.iter().cloned().collect(), &mut v); v }
fn txt(s: &str) -> Vec<String> { let mut v = vec![]; toks(ts(s), &mut v); v }
/// where the parts of a list end, at the top level of angle brackets
fn split(t: &[TokenTree], at: char) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]]; let mut d = 0i32;
    for (i, x) in t.iter().enumerate() {
        if pc(x, '<') { d += 1 } else if pc(x, '>') && !(i > 0 && pc(&t[i - 1], '-')) { d -= 1 }
        if d == 0 && pc(x, at) { out.push(vec![]) } else { out.last_mut().unwrap().push(x.clone()) }
    }
    if out.last().unwrap().is_empty() { out.pop(); }
    out
}
pub fn items(t: TokenStream) -> Vec<Shown> {
    let v: Vec<TokenTree> = t.into_iter().collect(); let mut out = vec![]; let mut i = 0;
    while i < v.len() {
        let mut s = Shown { kind: String::new(), name: String::new(), doc: vec![], vis: vec![], rest: vec![] };
        while i + 1 < v.len() && pc(&v[i], '#') {
            if let TokenTree::Group(g) = &v[i + 1] { let a: Vec<TokenTree> = g.stream().into_iter().collect(); if a.len() == 3 && matches!(&a[0], TokenTree::Ident(x) if x == "doc") { s.doc.push(a[2].to_string()) } }
            i += 2;
        }
        if matches!(&v.get(i), Some(TokenTree::Ident(x)) if x == "pub") { s.vis.push("pub".into()); i += 1; if let Some(TokenTree::Group(g)) = v.get(i) { if g.delimiter() == Delimiter::Parenthesis { s.vis.extend(strs(&v[i..i + 1])); i += 1; } } }
        if let Some(k) = v.get(i) { s.kind = k.to_string(); i += 1; }
        if let Some(TokenTree::Ident(k)) = v.get(i) { if s.kind != "use" { s.name = k.to_string(); i += 1; } }
        let block = matches!(s.kind.as_str(), "fn" | "mod" | "struct" | "impl" | "enum" | "trait" | "unsafe" | "extern" | "compile_error");
        let mut d = 0i32;
        while i < v.len() {
            let t = v[i].clone(); i += 1;
            if pc(&t, '<') { d += 1 } else if pc(&t, '>') && !pc(&v[i - 2], '-') { d -= 1 }
            if d == 0 && (pc(&t, ';') || block && matches!(&t, TokenTree::Group(g) if g.delimiter() == Delimiter::Brace)) { if !pc(&t, ';') { s.rest.push(t); } break; }
            s.rest.push(t);
        }
        out.push(s);
    }
    out
}
#[derive(Clone, Debug)]
pub struct Xr { pub name: &'static str, pub doc: usize, pub cache: usize, pub no_eof: bool, pub vis: usize, pub gp: usize, pub ps: Vec<(usize, bool)>, pub ret: usize, pub wh: usize }
pub const XN: [&str; 6] = ["ra", "rb", "rc", "grammar", "_x", "parse"];
/// grammar: doc, vis, lifetimes, input, uses; gargs, rules
pub fn exports(s: [usize; 5], gargs: &[usize], rules: &[Xr]) -> ! {
    proc_macro2::fallback::force();
    let br = |v: &[&str]| { let w: Vec<&str> = v.iter().cloned().filter(|x| *x != ",").collect(); if w.is_empty() { String::new() } else { format!("<{}>", w.join(", ")) } };
    let ga: Vec<(String, &str)> = gargs.iter().enumerate().map(|(i, t)| (format!("a{}", i), XT[*t])).collect();
    let list = |v: &[(String, String)]| v.iter().map(|(n, t)| format!("{}: {}", n, t)).collect::<Vec<_>>().join(", ");
    let params = |r: &Xr| -> Vec<(String, String)> { r.ps.iter().enumerate().map(|(i, (t, q))| (format!("p{}", i), if *q { format!("rule<{}>", XT[*t]) } else { XT[*t].to_string() })).collect() };
    let gav: Vec<(String, String)> = ga.iter().map(|(n, t)| (n.clone(), t.to_string())).collect();
    let mut src = format!("{} {} grammar g{}({}) for {} {{ {} ", DOC[s[0]], XV[s[1]], br(LT[s[2]]), list(&gav), XT[s[3]], USES[s[4]].join(" "));
    for r in rules {
        src += &format!("{} {} {} {} rule {}{}({}) {} {} = \"x\"; ", DOC[r.doc], ["", "#[cache]", "#[cache_left_rec]"][r.cache], if r.no_eof { "#[no_eof]" } else { "" }, XV[r.vis], r.name, br(GP[r.gp]), list(&params(r)), if r.ret == 0 { String::new() } else { format!("-> {}", XT[r.ret - 1]) }, WH[r.wh]);
    }
    src += "}";
    if !sym::active() { println!("{}", src); }
    let g = match parse(ts(&src).into_iter().collect()) { Ok(g) => g, Err(e) => { if !sym::active() { println!("{}", e); } sym::fail("a well-formed grammar is rejected"); sym::done() } };
    let o = crate::translate::compile_grammar(&g);
    if !sym::active() { println!("{}", o); }
    let docs = |i: usize| -> Vec<String> { match i { 0 => vec![], 1 => vec!["\" one\"".into()], _ => vec!["\" one\"".into(), "\" two\"".into()] } };
    let top = items(o);
    sym::ck(top.len() == 1 && top[0].kind == "mod" && top[0].name == "g", "the macro does not expand to one module of the name of the grammar");
    sym::ck(top[0].doc == docs(s[0]), "the documentation of the grammar is lost");
    sym::ck(top[0].vis == txt(XV[s[1]]), "the visibility of the module differs");
    let inner = match top[0].rest.last() { Some(TokenTree::Group(g)) => items(g.stream()), _ => { sym::fail("the module has no body"); sym::done() } };
    sym::ck(inner.iter().any(|i| i.kind == "use" && strs(&i.rest) == txt("super::*")), "the module does not see the items around it");
    let us: Vec<Vec<String>> = inner.iter().filter(|i| i.kind == "use" && strs(&i.rest) != txt("super::*")).map(|i| strs(&i.rest)).collect();
    let want: Vec<Vec<String>> = USES[s[4]].iter().map(|u| { let mut v = txt(u); v.remove(0); v.pop(); v }).filter(|u| *u != txt("super::*")).collect();
    sym::ck(us.len() >= want.len() && want.iter().all(|w| us.contains(w)), "a use declaration is lost");
    let shown: Vec<&Shown> = inner.iter().filter(|i| !i.vis.is_empty()).collect();
    let pubs: Vec<&Xr> = rules.iter().filter(|r| r.vis != 0).collect();
    sym::cover(1 + (pubs.len() as u32).min(2));
    sym::ck(shown.len() == pubs.len(), "the visible items are not the pub rules");
    for r in pubs {
        let f: Vec<&&Shown> = shown.iter().filter(|i| i.kind == "fn" && i.name == r.name).collect();
        if f.len() != 1 { sym::fail("a pub rule has no visible function, or several"); continue; }
        let f = f[0];
        sym::ck(f.doc == docs(r.doc), "the documentation of the rule is lost"); sym::ck(f.vis == txt(XV[r.vis]), "the visibility of the function differs");
        // generics: those written, each once and in order (those of the input and the grammar come first)
        let k = f.rest.iter().position(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis) ).unwrap_or(0);
        let mut d = 0i32; let mut open = 0;
        for (i, t) in f.rest.iter().enumerate() { if pc(t, '<') { d += 1 } else if pc(t, '>') && !pc(&f.rest[i - 1], '-') { d -= 1 } if d == 0 && matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis) { open = i; break; } }
        let _ = k;
        let gen: Vec<Vec<String>> = if open > 1 { split(&f.rest[1..open - 1], ',').iter().map(|g| strs(g)).collect() } else { vec![] };
        let mine: Vec<Vec<String>> = LT[s[2]].iter().chain(GP[r.gp]).filter(|x| **x != ",").map(|x| txt(x)).collect();
        sym::ck(gen.len() == mine.len() + 1 && gen[1..] == mine[..], "the generic parameters of the function differ");
        let ps = match &f.rest[open] { TokenTree::Group(g) => split(&g.stream().into_iter().collect::<Vec<_>>(), ','), _ => vec![] };
        let got: Vec<Vec<String>> = ps.iter().skip(1).map(|p| strs(p)).collect();
        let mine: Vec<Vec<String>> = gav.iter().cloned().chain(params(r)).map(|(n, t)| txt(&format!("{}: {}", n, t))).collect();
        sym::ck(got == mine, "the parameters of the function differ");
        // -> ..Result<RET, ..> where ..
        let mut i = open + 1; let mut ret = vec![];
        while i < f.rest.len() && !pc(&f.rest[i], '<') { i += 1; }
        i += 1; d = 0;
        while i < f.rest.len() { let t = &f.rest[i]; if d == 0 && (pc(t, ',') || pc(t, '>') && !pc(&f.rest[i - 1], '-')) { break; } if pc(t, '<') { d += 1 } else if pc(t, '>') && !pc(&f.rest[i - 1], '-') { d -= 1 } ret.push(t.clone()); i += 1; }
        sym::ck(strs(&ret) == txt(if r.ret == 0 { "()" } else { XT[r.ret - 1] }), "the function returns another type");
        while i < f.rest.len() { let t = &f.rest[i]; if pc(t, '<') { d += 1 } else if pc(t, '>') && !pc(&f.rest[i - 1], '-') { d -= 1 } i += 1; if d < 0 { break; } }
        let wh = &f.rest[i..f.rest.len() - 1];
        sym::ck(strs(wh) == txt(WH[r.wh]) || r.wh == 5 && wh.is_empty(), "the where clause of the function differs");
    }
    sym::done()
}
