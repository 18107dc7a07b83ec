"""error bookkeeping over symbolic positions, and its printed form"""
from check import Check
from core import TIER, SEED
import random

DEEP = TIER == 'thorough'
PRE = r'''
// an input on which `##go(i)` moves to an arbitrary (symbolic) position at or after the start
pub struct Free { pub to: [usize; 24], pub end: usize }
pub static mut AT_: usize = 2;
pub fn at() -> usize { unsafe { AT_ } }
impl Free {
    /// the first `k` positions are arbitrary, the others repeat them
    pub fn new(k: usize) -> Free { let mut f = Free { to: [at(); 24], end: at() + 4 }; for i in 0..k { let b = sym::byte(); sym::assume(b < 5); f.to[i] = at() + b as usize; } for i in k..24 { if k > 0 { f.to[i] = f.to[i % k]; } } f }
    pub fn go(&self, _: usize, i: usize) -> peg::RuleResult<()> { peg::RuleResult::Matched(self.to[i], ()) }
    pub fn no(&self, _: usize) -> peg::RuleResult<()> { peg::RuleResult::Failed }
}
impl peg::Parse for Free {
    type PositionRepr = usize;
    fn start<'input>(&'input self) -> usize { at() }
    fn is_eof<'input>(&'input self, p: usize) -> bool { p >= self.end }
    fn position_repr<'input>(&'input self, p: usize) -> usize { p }
}
/// `alts`: where each alternative fails, with which token, and whether the failure counts; `last`: the position of a match of the whole rule
pub fn check_free(f: &Free, got: Result<(), peg::error::ParseError<usize>>, alts: &[(usize, &'static str, bool)], last: Option<usize>) {
    let mut max = at(); let mut set: Vec<&'static str> = vec![];
    let mut mark = |p: usize, t: &'static str| { if p > max { max = p; set.clear(); } if p == max && !set.contains(&t) { set.push(t); } };
    for (i, t, c) in alts { if *c { mark(f.to[*i], t); } }
    let mut ok = false;
    if let Some(i) = last { if f.to[i] >= f.end { ok = true; } else { mark(f.to[i], "EOF"); } }
    match got {
        Ok(()) => { sym::cover(1); sym::ck(ok, "accepted although the end of the input was not reached"); }
        Err(e) => {
            sym::cover(2); sym::ck(!ok, "rejected although the rule matched the whole input");
            sym::log(e.location as u64);
            sym::ck(e.location == max, "the location is not the furthest counted failure");
            let es: Vec<&'static str> = e.expected.tokens().collect();
            sym::ck(es.len() == set.len() && es.iter().all(|x| set.contains(x)), "the expected set is not what failed at the location");
            sym::log(es.len() as u64);
            let max = sym::conc(max as u64);
            set.sort();
            let body = if set.is_empty() { "<unreported>".to_string() } else if set.len() == 1 { set[0].to_string() } else { let mut s = "one of ".to_string(); for (k, t) in set.iter().enumerate() { if k > 0 { s.push_str(", "); } s.push_str(t); } s };
            let whole = format!("error at {}: expected {}", max, body);
            sym::ck(e.expected.to_string() == body, "the set prints differently");
            sym::ck(e.to_string() == whole, "the error prints differently");
            sym::ck(e == e.clone(), "an error differs from its clone");
        }
    }
    sym::done()
}
'''
LONG = ['t%02d' % i for i in range(20)] + ['t1', 't', 'a rather long description of what was expected here', 'a rather long description of what was expected there']
TOKS = ['', 'a', 'ab', 'abc', 'b', 'EOF', 'number', 'number literal', 'name', '\\"x\\"', "['a'..='z']", ' ', 'one of', '\\u{e9}', 'B']
# expression around `##go(i) expected!(t)`, whether its failures count
W = [('%s', 1), ('%s', 1), ('%s', 1), ('quiet!{%s}', 0), ('&(%s)', 0), ('(!(%s) ##no())', 0), ('((%s)? ##no())', 1), ('((%s)* ##no())', 1), ('((%s)+)', 1), ('quiet!{&(%s)}', 0), ('(!(quiet!{%s}) ##no())', 0),
     ('sub(<(%s)>)', 1), ('qsub(<(%s)>)', 0), ('(&(!(%s)) ##no())', 0), ('(%s ** ##no() ##no())', 1)]


def case(rng, k, many=False):
    toks = rng.sample(LONG, k) if many else [rng.choice(TOKS) for _ in range(k)]
    alts = []; calls = []
    for i in range(k):
        w, c = rng.choice(W[:1] * 9 + W if many else W)
        if rng.random() < .25 and i + 1 < k and not calls.count(i):
            pass
        alts.append(w % ('(##go(%d) (expected!("%s") / ##no()))' % (i, toks[i]))); calls.append('(%d, "%s", %s)' % (i, toks[i], 'true' if c else 'false'))
    last = rng.random() < .4
    if last: alts.append('##go(%d)' % k)
    return alts, calls, k if last else None


def add(c, crate, n, seed, k0=2, k1=5, many=0, tag='f'):
    rng = random.Random(seed)
    for j in range(n):
        k = rng.randint(k0, k1)
        alts, calls, last = case(rng, k, many)
        if rng.random() < .3 and len(alts) > 2: alts = [alts[0], '(%s)' % ' / '.join(alts[1:])]
        h = '%s%d' % (tag, j)
        g = 'peg::parser!{ pub grammar g%s() for Free { use super::*;\n rule sub(x: rule<()>) = x()\n rule qsub(x: rule<()>) = quiet!{x()}\n pub rule top() = %s\n }}\n' % (h, ' / '.join(alts))
        t = g + '#[no_mangle] pub extern "C" fn harness_%s() { sym::log(%d); unsafe { AT_ = %d; } let f = Free::new(%d); let got = g%s::top(&f); check_free(&f, got, &[%s], %s) }' % (h, j + 1, (2, 254, 2, 65533, 0, 4294967293)[j % 6], many or k + (last is not None), h, ', '.join(calls), 'Some(%d)' % last if last is not None else 'None')
        c.add(crate, h, t, {'grammar': g}, {'weight': 1 + (k > 4), 'fork-select': 1})


def make():
    c = Check('C18', 'for every history of failures at symbolic positions, in any arrangement of quiet!, lookahead, options, repetitions and rule closures: the location is the furthest counted failure, the expected set is exactly the tokens that failed there, and the error prints as the location followed by the sorted set',
              '2..5 failures (thorough: 6) at arbitrary positions among 5, tokens and arrangement drawn with VERIF_SEED')
    k = c.crate('f', edition='2021'); k.pre['*'] = PRE
    k2 = c.crate('n', edition='2021', nodefault=True); k2.pre['*'] = PRE
    add(c, 'f', 600 if DEEP else 120, SEED * 32452843, k1=6 if DEEP else 5)
    add(c, 'n', 100 if DEEP else 24, SEED * 32452867)
    add(c, 'f', 40 if DEEP else 12, SEED * 32452889, 12, 20, many=3, tag='m')
    return c
