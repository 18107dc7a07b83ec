// Support for harnesses over the macro's own code: syntax trees chosen symbolically, built
// twice -- as /repo's `ast` types and as the small tree `X` the oracles work on.
#![allow(dead_code, unused)]
use crate::ast::{self, *};
use crate::ast::Expr::*;
use crate::sup::sym;
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree, Punct, Spacing};

#[derive(Clone, Debug, PartialEq)]
pub enum X { Lit, Pat, Pos, Call(usize), CallA(usize, Vec<X>), Fail, Mark(bool), Meth, Cust, Seq(Vec<X>, bool), Alt(Vec<X>), Opt(Box<X>), And(Box<X>), Not(Box<X>), Slice(Box<X>), Quiet(Box<X>), Rep(Box<X>, B, Option<Box<X>>), Prec(Vec<Vec<Vec<X>>>) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Star, Plus, Exact(u8), Both(Option<u8>, Option<u8>) }
impl B {
    pub fn lo(&self) -> u8 { match self { B::Star => 0, B::Plus => 1, B::Exact(n) => *n, B::Both(a, _) => a.unwrap_or(0) } }
    pub fn hi(&self) -> Option<u8> { match self { B::Star | B::Plus => None, B::Exact(n) => Some(*n), B::Both(_, b) => *b } }
}
pub const NAMES: [&str; 24] = ["ra", "rb", "rc", "rd", "re", "rf", "rg", "rh", "ri", "rj", "rk", "rl", "rm", "rn", "ro", "rp", "rq", "rr", "rs", "rt", "ru", "rv", "rw", "rx"];
pub fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
pub fn num(n: u8) -> TokenStream { TokenTree::Literal(Literal::usize_unsuffixed(n as usize)).into() }
pub fn grp(d: Delimiter) -> Group { Group::new(d, TokenStream::new()) }
pub fn sp(e: Expr) -> SpannedExpr { e.at(Span::call_site()) }
fn bx(x: &X) -> Box<SpannedExpr> { Box::new(ex(x)) }
pub fn bound(b: &B) -> BoundedRepeat {
    match b { B::Star => BoundedRepeat::None, B::Plus => BoundedRepeat::Plus, B::Exact(n) => BoundedRepeat::Exact(num(*n)), B::Both(a, c) => BoundedRepeat::Both(a.map(num), c.map(num)) }
}
pub fn tag(x: &X) -> TaggedExpr { TaggedExpr { name: None, expr: ex(x) } }
pub fn ex(x: &X) -> SpannedExpr {
    sp(match x {
        X::Lit => LiteralExpr(Literal::string("x")),
        X::Pat => PatternExpr(grp(Delimiter::Bracket)),
        X::Pos => PositionExpr,
        X::Call(r) => RuleExpr(id(NAMES[*r]), None, vec![]),
        X::CallA(r, a) => RuleExpr(id(NAMES[*r]), None, a.iter().enumerate().map(|(i, x)| if *x == X::Cust { RuleArg::Rust(num(i as u8)) } else { RuleArg::Peg(ex(x)) }).collect()),
        X::Fail => FailExpr(grp(Delimiter::Parenthesis)),
        X::Mark(b) => MarkerExpr(*b),
        X::Meth => MethodExpr(id("m"), TokenStream::new()),
        X::Cust => CustomExpr(grp(Delimiter::Brace)),
        X::Seq(v, a) => ActionExpr(v.iter().map(tag).collect(), if *a { Some(grp(Delimiter::Brace)) } else { None }),
        X::Alt(v) => ChoiceExpr(v.iter().map(ex).collect()),
        X::Opt(e) => OptionalExpr(bx(e)),
        X::And(e) => PosAssertExpr(bx(e)),
        X::Not(e) => NegAssertExpr(bx(e)),
        X::Slice(e) => MatchStrExpr(bx(e)),
        X::Quiet(e) => QuietExpr(bx(e)),
        X::Rep(e, b, s) => Repeat { inner: bx(e), bound: bound(b), sep: s.as_ref().map(|s| bx(s)) },
        X::Prec(ls) => PrecedenceExpr { levels: ls.iter().map(|l| PrecedenceLevel { operators: l.iter().map(|o| PrecedenceOperator { span: Span::call_site(), elements: o.iter().map(tag).collect(), action: grp(Delimiter::Brace) }).collect() }).collect() },
    })
}
pub fn rule(i: usize, x: &X, cache: u64) -> Rule { rule_p(i, x, cache, &[]) }
pub fn rule_p(i: usize, x: &X, cache: u64, params: &[usize]) -> Rule {
    Rule { span: Span::call_site(), name: id(NAMES[i]), ty_params: None, params: params.iter().enumerate().map(|(k, p)| RuleParam { name: id(NAMES[*p]), ty: if k % 3 == 2 { RuleParamTy::Rust(num(0)) } else { RuleParamTy::Rule(num(0)) } }).collect(), expr: ex(x), ret_type: None, where_clause: None, doc: None, visibility: None,
           cache: match cache { 0 => None, 1 => Some(Cache::Simple), _ => Some(Cache::Recursive) }, no_eof: false }
}
pub fn grammar(rules: Vec<Rule>) -> Grammar {
    Grammar { doc: None, visibility: None, name: id("g"), lifetime_params: None, args: vec![], items: rules.into_iter().map(Item::Rule).collect(), input_type: TokenTree::Ident(id("str")).into() }
}

// ---- symbolic choice of trees
pub fn leaf(n: usize) -> X { let k = sym::pick(2 + n as u64) as usize; match k { 0 => X::Lit, 1 => X::Pos, k => X::Call(k - 2) } }
pub fn bnd() -> B { match sym::pick(8) { 0 => B::Star, 1 => B::Plus, 2 => B::Exact(2), 3 => B::Both(None, Some(2)), 4 => B::Both(Some(1), None), 5 => B::Both(Some(2), Some(3)), 6 => B::Both(Some(0), None), _ => B::Exact(0) } }
/// a tree of exactly this root kind whose operands come from `f`
pub fn node(kind: usize, f: &mut dyn FnMut() -> X) -> X {
    let b = |x| Box::new(x);
    match kind {
        0 => f(), 1 => X::Seq(vec![f(), f()], false), 2 => X::Alt(vec![f(), f()]), 3 => X::Opt(b(f())), 4 => X::And(b(f())), 5 => X::Not(b(f())), 6 => X::Slice(b(f())), 7 => X::Quiet(b(f())),
        8 => X::Rep(b(f()), bnd(), None), 9 => { let e = f(); let s = f(); X::Rep(b(e), bnd(), Some(b(s))) }
        10 => X::Seq(vec![f()], true), 11 => X::Seq(vec![], true), 12 => X::Seq(vec![f(), f(), f()], true), 13 => X::Alt(vec![f(), f(), f()]),
        14 => match sym::pick(4) { 0 => X::Fail, 1 => X::Pat, 2 => X::Pos, _ => X::Lit },
        15 => X::Rep(b(f()), B::Plus, None),
        16 => { let e = f(); X::Prec(vec![vec![vec![X::Mark(true), f(), X::Mark(false)]], vec![vec![e]]]) }
        17 => { let e = f(); X::Prec(vec![vec![vec![X::Mark(false), f()]], vec![vec![e]]]) }
        18 => { let e = f(); X::Prec(vec![vec![vec![f(), X::Mark(false)]], vec![vec![e]]]) }
        19 => { let e = f(); let o = f(); X::Prec(vec![vec![vec![X::Pos, X::Mark(false), X::Pos], vec![X::Mark(false), o, X::Mark(true)]], vec![vec![e, X::Lit], vec![f()]]]) }
        _ => X::Lit,
    }
}

/// operands: `x` at the `k`-th place, `o` elsewhere
pub fn nth(k: usize, x: X, o: X) -> impl FnMut() -> X { let mut i = 0; move || { i += 1; if i == k + 1 { x.clone() } else { o.clone() } } }
/// operators nested around `x`, innermost first
pub fn deep(ks: &[(usize, usize)], mut x: X, o: X) -> X { for (k, q) in ks { x = node(*k, &mut nth(*q, x, o.clone())); } x }
pub fn one(v: &[X]) -> X { v[sym::pick(v.len() as u64) as usize].clone() }

// ---- oracle: least fixed points over the syntax tree
pub struct Or { pub nul: Vec<bool>, pub first: Vec<Vec<bool>> }
pub fn nullable(x: &X, nul: &[bool]) -> bool {
    match x {
        X::Lit | X::Pat | X::Fail | X::Mark(_) | X::Meth | X::Cust => false, X::Pos => true, X::Call(r) | X::CallA(r, _) => nul[*r],
        X::Seq(v, _) => v.iter().all(|e| nullable(e, nul)), X::Alt(v) => v.iter().any(|e| nullable(e, nul)),
        X::Opt(_) | X::And(_) | X::Not(_) => true, X::Slice(e) | X::Quiet(e) => nullable(e, nul),
        X::Rep(e, b, _) => b.lo() == 0 || nullable(e, nul),
        X::Prec(ls) => operand_nullable(ls, nul),
    }
}
fn is_span(o: &[X]) -> bool { o.len() == 3 && o[0] == X::Pos && o[2] == X::Pos && matches!(o[1], X::Mark(_)) }
fn is_mark(x: &X) -> bool { matches!(x, X::Mark(_)) }
pub fn operand_nullable(ls: &[Vec<Vec<X>>], nul: &[bool]) -> bool {
    // an atom that may be empty (a prefix operator needs an operand itself)
    ls.iter().flatten().any(|o| !is_span(o) && !is_mark(&o[0]) && !is_mark(&o[o.len() - 1]) && o.iter().all(|e| nullable(e, nul)))
}
/// rules that may be entered at the position where `x` starts
pub fn first(x: &X, nul: &[bool], out: &mut Vec<bool>) {
    match x {
        X::Lit | X::Pat | X::Fail | X::Mark(_) | X::Pos | X::Meth | X::Cust => {} X::Call(r) | X::CallA(r, _) => out[*r] = true,
        X::Seq(v, _) => for e in v { first(e, nul, out); if !nullable(e, nul) { break; } },
        X::Alt(v) => for e in v { first(e, nul, out) },
        X::Opt(e) | X::And(e) | X::Not(e) | X::Slice(e) | X::Quiet(e) => first(e, nul, out),
        X::Rep(e, _, s) => { first(e, nul, out); if let Some(s) = s { if nullable(e, nul) { first(s, nul, out) } } }
        X::Prec(ls) => {
            let on = operand_nullable(ls, nul);
            for o in ls.iter().flatten() {
                if is_span(o) { continue; }
                let els = if is_mark(&o[0]) { if !on { continue; } &o[1..] } else { &o[..] };
                for e in els { if is_mark(e) { break; } first(e, nul, out); if !nullable(e, nul) { break; } }
            }
        }
    }
}
/// loops whose body can succeed without consuming
pub fn loops(x: &X, nul: &[bool]) -> usize {
    match x {
        X::Lit | X::Pat | X::Fail | X::Mark(_) | X::Pos | X::Meth | X::Cust | X::Call(_) => 0,
        X::Seq(v, _) | X::Alt(v) | X::CallA(_, v) => v.iter().map(|e| loops(e, nul)).sum(),
        X::Opt(e) | X::And(e) | X::Not(e) | X::Slice(e) | X::Quiet(e) => loops(e, nul),
        X::Rep(e, b, s) => loops(e, nul) + s.as_ref().map_or(0, |s| loops(s, nul)) + (b.hi().is_none() && nullable(e, nul) && s.as_ref().map_or(true, |s| nullable(s, nul))) as usize,
        X::Prec(ls) => {
            let on = operand_nullable(ls, nul);
            ls.iter().flatten().map(|o| o.iter().map(|e| loops(e, nul)).sum::<usize>()
                + (if is_mark(&o[0]) { o[1..].iter().all(|e| if is_mark(e) { on } else { nullable(e, nul) }) } else { is_mark(&o[o.len() - 1]) && o[..o.len() - 1].iter().all(|e| nullable(e, nul)) }) as usize).sum()
        }
    }
}
pub fn oracle(xs: &[X]) -> Or {
    let n = xs.len(); let mut nul = vec![false; n];
    loop { let mut ch = false; for i in 0..n { if !nul[i] && nullable(&xs[i], &nul) { nul[i] = true; ch = true; } } if !ch { break; } }
    let fs = xs.iter().map(|x| { let mut o = vec![false; n]; first(x, &nul, &mut o); o }).collect();
    Or { nul, first: fs }
}
/// does some cycle of the relation pass through `v`, using only rules allowed by `ok`?
pub fn cyc(f: &[Vec<bool>], v: usize, ok: &dyn Fn(usize) -> bool) -> bool {
    let n = f.len(); if !ok(v) { return false; }
    let mut seen = vec![false; n]; let mut todo = vec![v];
    while let Some(x) = todo.pop() { for y in 0..n { if f[x][y] && ok(y) { if y == v { return true; } if !seen[y] { seen[y] = true; todo.push(y); } } } }
    false
}
/// `x` with the calls of its rule's parameters, of which nothing is known, made opaque
pub fn hide(x: &X, ps: &[usize]) -> X {
    let h = |e: &X| hide(e, ps); let hb = |e: &Box<X>| Box::new(hide(e, ps)); let hv = |v: &Vec<X>| v.iter().map(|e| hide(e, ps)).collect::<Vec<_>>();
    match x {
        X::Call(r) if ps.contains(r) => X::Meth, X::CallA(r, _) if ps.contains(r) => X::Meth,
        X::CallA(r, a) => X::CallA(*r, hv(a)),
        X::Seq(v, a) => X::Seq(hv(v), *a), X::Alt(v) => X::Alt(hv(v)), X::Opt(e) => X::Opt(hb(e)), X::And(e) => X::And(hb(e)), X::Not(e) => X::Not(hb(e)), X::Slice(e) => X::Slice(hb(e)), X::Quiet(e) => X::Quiet(hb(e)),
        X::Rep(e, b, s) => X::Rep(hb(e), *b, s.as_ref().map(|s| hb(s))), X::Prec(ls) => X::Prec(ls.iter().map(|l| l.iter().map(|o| hv(o)).collect()).collect()),
        _ => x.clone(),
    }
}
pub fn check_analysis(xs: &[X], cache: &[u64], left: bool, lps: bool) { check_analysis_p(xs, cache, &vec![vec![]; xs.len()], left, lps) }
pub fn check_analysis_p(xs: &[X], cache: &[u64], params: &[Vec<usize>], left: bool, lps: bool) {
    proc_macro2::fallback::force();
    let n = xs.len();
    let g = grammar((0..n).map(|i| rule_p(i, &xs[i], cache[i], &params[i])).collect());
    if !sym::active() { for i in 0..n { println!("{} {}({}) = {:?}", ["", "#[cache]", "#[cache_left_rec]"][cache[i] as usize], NAMES[i], params[i].iter().map(|p| NAMES[*p]).collect::<Vec<_>>().join(", "), xs[i]); } }
    let a = crate::analysis::check(&g);
    let xs = &xs.iter().zip(params).map(|(x, p)| hide(x, p)).collect::<Vec<_>>()[..];
    let o = oracle(xs);
    sym::log(a.left_recursion.len() as u64); sym::log(a.loop_nullability.len() as u64);
    if left {
        let lr = |r: usize| cache[r] == 2;
        let must = (0..n).any(|r| cyc(&o.first, r, &|x| !lr(x)));
        let may = (0..n).any(|r| !lr(r) && cyc(&o.first, r, &|_| true));
        let got = !a.left_recursion.is_empty();
        sym::cover(if got { 1 } else { 2 });
        if must { sym::ck(got, "a grammar with an endless left recursion is accepted"); }
        if !may { sym::ck(!got, "left recursion is reported although no rule can re-enter itself without consuming input"); }
        for e in &a.left_recursion {
            let m = e.msg();
            let p: Vec<usize> = m.rsplit(": ").next().unwrap().split(" -> ").map(|s| NAMES.iter().position(|m| *m == s).unwrap_or(99)).collect();
            let mut ok = p.len() >= 2 && p[0] == p[p.len() - 1] && p.iter().all(|x| *x < n);
            if ok { for k in 0..p.len() - 1 { if !o.first[p[k]][p[k + 1]] { ok = false; } } }
            sym::ck(ok, "the reported path is not a cycle of calls that consume nothing");
            sym::ck(m.contains("left recursive"), "the message does not say what is wrong");
        }
    }
    if lps {
        let want: usize = xs.iter().map(|x| loops(x, &o.nul)).sum();
        sym::cover(if want > 0 { 3 } else { 4 });
        sym::ck((a.loop_nullability.len() > 0) >= (want > 0), "an endless loop over an expression that can match nothing is accepted");
        sym::ck((a.loop_nullability.len() > 0) <= (want > 0), "an endless loop is reported although every iteration consumes input");
        sym::ck(a.loop_nullability.len() == want, "not every endless loop is reported once");
    }
    sym::done()
}
