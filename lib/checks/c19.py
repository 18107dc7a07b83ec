"""the checked-in parser of the macro is the one its grammar file describes"""
from check import Check
from core import TIER, SEED, VERIF, REPO
import front, random
from checks import c17

DEEP = TIER == 'thorough'
FRESH = r'''
pub mod fresh { ::peg::parser!{ @@GRAMMAR@@ } }
/// the same tokens through both parsers
pub fn both(s: &str) -> ! {
    proc_macro2::fallback::force();
    let toks = syn::tokens(&syn::window(s));
    let t: proc_macro2::TokenStream = toks.into_iter().collect();
    if !sym::active() { println!("{}", t); }
    let f = tokens::FlatTokenStream::new(t);
    let a = grammar::peg::peg_grammar(&f); let b = fresh::peg::peg_grammar(&f);
    sym::log(a.is_ok() as u64);
    match (&a, &b) {
        (Ok(a), Ok(b)) => { sym::cover(1); sym::ck(syn::greq(a, b), "the two parsers read the grammar differently") }
        (Err(a), Err(b)) => {
            sym::cover(2); sym::log(a.location.1 as u64);
            if !sym::active() { println!("{}\n{}", a, b); }
            sym::ck(a.location.1 == b.location.1, "the two parsers report the error at different tokens");
            let x: Vec<&str> = a.expected.tokens().collect(); let y: Vec<&str> = b.expected.tokens().collect();
            sym::ck(x.len() == y.len() && x.iter().all(|t| y.contains(t)), "the two parsers expect different tokens");
        }
        _ => sym::fail("one parser accepts what the other rejects"),
    }
    sym::done()
}
'''
# contexts for a window of arbitrary tokens
CTX = ['grammar g ( ) for str { rule ra ( ) = %s }', 'grammar g ( ) for str { rule ra ( ) -> %s = L }', 'grammar g ( ) for str { rule ra %s = L }', 'grammar g ( ) for str { use %s ; }', 'grammar g ( ) for str { rule ra ( x : %s ) = L }',
       'grammar g ( ) for %s { }', 'grammar g %s for str { rule _ = L }', '%s grammar g ( ) for str { }', 'grammar g ( ) for str { %s rule ra ( ) = L }', 'grammar g ( ) for str { rule ra ( ) where %s = L }', 'grammar g ( ) for str { rule ra ( ) = ra :: < %s > ( ) }',
       'grammar g ( ) for str { rule ra < %s > ( ) = L }', 'grammar g ( ) for str { rule ra ( ) = precedence ! { %s } }', 'grammar g ( ) for str { rule ra ( ) = ra ( %s ) }', 'grammar g ( ) for str { rule ra ( ) = L * %s L }', 'grammar g ( ) for str { rule ra ( ) = L ; %s }']
T = ['P', 'P', 'ra', 'rb', "' a", '& ', 'mut', 'dyn', 'impl', 'for', '<', '>', '::', '+', ',', '( )', '( ra )', '[ ra ]', '{ L }', '->', 'L', '?', 'as', ':', 'rule', 'use', 'pub', 'crate', '*', '# [ cache )', '# [ no_eof )', '# [ doc = L )', '=', 'where', 'grammar', '( ra , )', 'rule <', 'fn']


def words(rng, W, n):
    out = []; d = 0
    while len(out) < n:
        w = rng.choice(W)
        if w == ')':
            if d == 0: continue
            d -= 1
        else: d += sum(x in '({[' for x in w.split() if len(x) == 1) - sum(x == ')' for x in w.split()) if w.split()[-1:] != [']'] else 0
        out.append(w)
    return ' '.join(out + [')'] * d)


def close(s): return s.replace(']', ')').replace('}', ')')


def make():
    c = Check('C19', 'on every token stream of the spaces below, the parser in grammar.rs and one freshly generated by the macro from grammar.rustpeg agree: the same syntax tree, or an error at the same token with the same expected set',
              'windows of 1..8 elements drawn with VERIF_SEED, at most 3 arbitrary punctuation characters with arbitrary spacing, in 16 contexts (expressions, types, headers, use, where, generics, bounds)')
    k = front.crate(c, 'm')
    with open(REPO + '/peg-macros/grammar.rustpeg') as f: gr = f.read()
    k.pre['*'] = k.pre['*'].replace('#[path = "front.rs"] pub mod front;\nuse front::*;\n', c17.MOD) + FRESH.replace('@@GRAMMAR@@', gr)
    with open(VERIF + '/harness/syn.rs') as f: k.extra['syn.rs'] = f.read()
    rng = random.Random(SEED * 122949823); n = [0]; seen = set()
    def add(s, note):
        s = close(s)
        if s in seen: return
        seen.add(s)
        h = 's%d' % n[0]; n[0] += 1
        c.add('m', h, '#[no_mangle] pub extern "C" fn harness_%s() { sym::log(%d); both("%s") }' % (h, n[0], s), {'note': note}, {'max-depth': 2000})
    for x in CTX:
        for w in ['', 'P', 'P P', 'ra P', 'P ra', 'ra P ra', 'P ra P', 'ra P P ra', 'P P P', 'ra < ra P', 'ra P P', '( P )', '[ P ]', '{ P }', 'L', 'L P L', 'ra P ( )', 'pub P', '# [ ra P )', 'P L P']: add(x % w, x)
    while n[0] < (9000 if DEEP else 2200):
        x = rng.choice(CTX)
        s = words(rng, c17.W if x in (CTX[0], CTX[12], CTX[13], CTX[14]) and rng.random() < .8 else T, rng.randint(1, 8))
        if s.split().count('P') > 3: continue
        add(x % s, x)
    return c
