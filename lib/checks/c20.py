"""misuse of rules, parameters, attributes and markers is reported, nothing else is, and the macro never panics"""
from check import Check
from core import TIER, SEED, VERIF
import front, random
from checks import c17, c19

DEEP = TIER == 'thorough'
H = '#[no_mangle] pub extern "C" fn harness_%(h)s() { sym::log(%(k)d); %(body)s }'


def make():
    c = Check('C20', 'the grammar parser, the analyses and compile_grammar of the macro, run on grammars of 1..3 rules with symbolic headers and bodies: the compile_error! messages are about exactly the misuses an independent check of the written grammar finds (undefined and duplicate rules, argument counts, results of rules without one, markers outside precedence!, malformed precedence operators, attributes that do not apply, closures called with arguments or generics), and on token windows as in C19: whatever is accepted as a grammar is translated without a panic',
              'headers: every combination of return type, pub, no_eof, cache attribute, generics and 5 parameter lists; bodies: one of 30 operator forms (sampled pairs) over 4 arguments forms of calls of every name, sampled; precedence operators of up to 4 elements of 6 kinds; windows as in C19')
    k = front.crate(c, 'm')
    k.pre['*'] = k.pre['*'].replace('#[path = "front.rs"] pub mod front;\nuse front::*;\n', c17.MOD)
    with open(VERIF + '/harness/syn.rs') as f: k.extra['syn.rs'] = f.read()
    rng = random.Random(SEED * 141650939); n = [0]
    def add(body, note, w=1):
        h = 's%d' % n[0]; n[0] += 1
        c.add('m', h, H % {'h': h, 'k': n[0], 'body': body}, {'note': note}, {'max-depth': 2000, 'weight': w})
    add('let r = [any_hd(1, syn::Y::Lit(0))]; diag(&r)', 'one header', 3)
    for nm in (10, 11):
        add('let mut r = hd(%d, syn::bit(), syn::Y::Lit(0)); r.vis = syn::bit(); r.no_eof = syn::bit(); r.cache = sym::pick(3) as u8; diag(&[r])' % nm, 'one header, underscore')
    # a call: every callee and argument list, in the position of every operator
    for a in range(30):
        for b in ([None] + ([rng.randrange(1, 30) for _ in range(30 if DEEP else 2)] if a else [])):
            wide = b is not None or a in (7, 9, 20, 21, 28)
            inner = '|| { n += 1; if n == %d { %s } else { syn::Y::Lit(0) } }' % (rng.randint(1, 2 if a in (8, 9, 10, 11, 14, 15, 19, 23, 24, 25, 29) else 1), 'syn::call()' if not wide else 'syn::call_of(%d)' % rng.choice([1, 2, 2, 2, 3, 4]))
            y = 'syn::node(%d, &mut %s)' % (a, inner if b is None else '|| { m += 1; if m == 1 { syn::node(%d, &mut %s) } else { syn::Y::Lit(0) } }' % (b, inner))
            ps = lambda: rng.choice(['', '', 'true', 'false', 'true, false', 'false, true'])
            if b is not None and (a in (9, 20, 21, 28) or b in (9, 20, 21, 28)) and {a, b} & {7, 9, 20, 21, 28, 13, 23, 25} != {a if b not in (7, 9, 13, 20, 21, 23, 25, 28) else b}: continue
            for q in range(3 if DEEP else 1):
                add('let mut n = 0; let mut m = 0; let mut a = hd(1, %s, %s); a.params = vec![%s]; let mut b = hd(2, syn::bit(), syn::Y::Lit(0)); b.params = %s; diag(&[a, b])' % (rng.choice(['true', 'false', 'syn::bit()']) if not wide else rng.choice(['true', 'false']), y, ps(), 'syn::pars()' if not wide else 'vec![%s]' % ps()), 'call under %s %s' % (a, b), 2)
    # headers of two rules
    for _ in range(60 if DEEP else 16):
        def h(nm, on):
            v = {'vis': 'syn::bit()', 'no_eof': 'syn::bit()', 'cache': 'sym::pick(3) as u8', 'generics': 'syn::bit()', 'params': 'syn::pars()'}
            fix = {'vis': 'false', 'no_eof': 'false', 'cache': '0', 'generics': 'false', 'params': 'vec![]'}
            on = rng.sample(sorted(v), on)
            return '{ let mut h = hd(%s, syn::bit(), %s); %s h }' % (nm, rng.choice(['syn::Y::Lit(0)', 'syn::call_of(2)', 'syn::call_of(%s)' % nm, 'syn::dleaf()']), ' '.join('h.%s = %s;' % (x, v[x] if x in on else fix[x]) for x in sorted(v)))
        add('let r = [%s, %s]; diag(&r)' % (h(1, 2), h(2, 1)), 'two headers', 2)
    # names: duplicates, shadowing by parameters, underscore rules
    for nm in ('[1, 2, 10]', '[1, 3, 4]', '[3, 3, 11]'):
        for _ in range(16 if DEEP else 4):
            def rule(i): return '{ let mut h = hd(%s, %s, syn::%s); h.params = vec![%s]; %s h }' % ('%s[sym::pick(3) as usize]' % nm if i else rng.choice(nm[1:-1].split(', ')), rng.choice(['true', 'false']), rng.choice(['call()', 'dleaf()', 'call_of(%s[2])' % nm, 'call_of(3)', 'call_of(4)'] if i < 1 else ['dleaf()']), rng.choice(['', 'true', 'false, true', 'true, true']), rng.choice(['', 'h.vis = true;', 'h.cache = 1;', 'h.cache = 2;']))
            add('let r = [%s]; diag(&r)' % ', '.join(rule(i) for i in range(rng.randint(2, 3))), 'names', 3)
    # calls of parameters
    for a in (0, 1, 3, 7, 9, 11, 12, 14, 18, 22, 28):
        add('let mut n = 0; let mut a = hd(1, true, syn::node(%d, &mut || { n += 1; if n == 1 { syn::Y::Call(3 + sym::pick(3) as u8, sym::pick(3) as u8, match sym::pick(3) { 0 => vec![], 1 => vec![syn::A::Peg(syn::Y::Lit(0))], _ => vec![syn::A::Rust(vec!["1".into()])] }) } else { syn::Y::Lit(0) } })); a.params = vec![%s]; diag(&[a])' % (a or 13, rng.choice(['true', 'true, true', 'true, false'])), 'parameters under %d' % a, 2)
    # precedence operators
    EL = 'match sym::pick(6) { 0 => syn::Y::Pos, 1 => syn::Y::Mark(true), 2 => syn::Y::Mark(false), 3 => syn::Y::Lit(0), 4 => syn::Y::Call(2, 0, vec![]), _ => syn::Y::Call(4, 0, vec![]) }'
    EL3 = 'match sym::pick(4) { 0 => syn::Y::Pos, 1 => syn::Y::Mark(true), 2 => syn::Y::Mark(false), _ => syn::Y::Lit(0) }'
    FS = {'p': 'syn::Y::Pos', 'L': 'syn::Y::Lit(0)', 'M': 'syn::Y::Mark(true)', 'm': 'syn::Y::Mark(false)', '?': EL, '3': EL3}
    for ops in ['0', '?', '??', '???', '3333', '3?3', 'p??p', 'M33M', 'm3m33', '?|?', 'L|3?', '33-L', '3-33', 'L-0|L', 'L|0', 'M3m|33', 'mL-?3', 'LM-L-3?', 'pMp|L??']:
        lv = ', '.join('vec![%s]' % ', '.join('(vec![%s], 7)' % ', '.join('(%d, %s)' % (rng.choice([0, 0, 3, 4]), FS[x]) for x in o if x != '0') for o in l.split('|')) for l in ops.split('-'))
        add('let a = hd(1, true, syn::Y::Prec(vec![%s])); let b = hd(2, %s, syn::Y::Lit(0)); diag(&[a, b])' % (lv, rng.choice(['true', 'false', 'syn::bit()'])), 'operators ' + ops, 2)
    # many rules, parameters, arguments; several misuses at once
    call = lambda n, k: 'syn::Y::Call(%s, 0, vec![%s])' % (n, ', '.join(rng.choice(['syn::A::Rust(vec!["1".into()])', 'syn::A::Peg(syn::Y::Lit(0))']) for _ in range(k)))
    for k in ((4, 6, 9, 16) if not DEEP else range(3, 34)):
        for _ in range(2):
            ps = [rng.choice(['true', 'false']) for _ in range(k)]
            add('let mut a = hd(1, true, syn::one(&[%s])); let mut b = hd(2, syn::bit(), syn::one(&[syn::Y::Lit(0), syn::Y::Call(%d, 0, vec![]), syn::Y::Call(%d, 0, vec![])])); b.params = vec![%s]; b.vis = syn::bit(); diag(&[a, b])' % (', '.join(call(2, i) for i in (0, k - 1, k, k + 1)), 15 + k - 1, 15 + k, ', '.join(ps)), '%d parameters' % k, 2)
    for k in ((3, 5, 8, 14, 30) if not DEEP else range(3, 38)):
        for v in range(4):
            i, j = rng.sample(range(k), 2)
            rs = []
            for r in range(k):
                body = rng.choice(['syn::Y::Lit(0)', call(17 + rng.randrange(k), 0), call(17 + (r + 1) % k, rng.choice([0, 0, 1])), 'syn::Y::Seq(vec![(3, %s), (0, %s)], 7)' % (call(17 + rng.randrange(k), 0), call(17 + min(39, k), 0)), 'syn::Y::Alt(vec![%s])' % ', '.join(call(17 + rng.randrange(k), 0) for _ in range(rng.randint(2, 6) if k < 9 else 2))][:5 if k < 20 else 4])
                if r == i: body = 'syn::one(&[%s])' % ', '.join([body, call(17 + j, 0), call(17 + j, 1), call(56, 0)])
                nm = 'if syn::bit() { %d } else { %d }' % (17 + r, 17 + i) if r == j and v % 2 else '%d' % (17 + r)
                rs.append('{ let mut h = hd(%s, %s, %s); %s h }' % (nm, rng.choice(['true', 'false']) if r != j else 'syn::bit()', body, rng.choice(['', 'h.vis = true;', 'h.cache = 1;', 'h.no_eof = true;', 'h.vis = true; h.no_eof = true;']) if r != j else 'h.cache = sym::pick(3) as u8;'))
            add('let r = [%s]; diag(&r)' % ', '.join(rs), '%d rules' % k, 3)
    # translation is total
    seen = set()
    for f in ('[ %s )', 'x : [ %s )', '[ %s ) { )', 'x : [ %s ) { %s )', 'L { %s )', '# { %s )', '## ra ( %s )', 'expected ! ( %s )', 'position ! ( %s )', 'quiet ! { [ %s ) )', 'L * < { %s ) >', '[ %s ) ** < { %s ) , { %s ) > L', '[ ra ) ++ [ %s )', '! [ %s ) / & [ %s )', '$ [ %s )', '( [ %s ) ? )',
              'ra ( < [ %s ) > , { %s ) )', 'ra :: < { %s ) > ( )', 'precedence ! { x : [ %s ) { %s ) )', 'precedence ! { x : ( @ ) [ %s ) y : @ { %s ) -- L { ) )', 'precedence ! { %s )', '%s'):
        for g in ('', 'P', 'P L', 'P P', 'L', 'ra', '( )', '[ )', '{ )', 'ra L', '( P )'):
            t = f.replace('%s', g); ps = t.split().count('P')
            if ps > 3 or (g == '' and f == '%s'): continue
            x = 'grammar g ( ) for str { rule ra ( ) = %s }'
            s = c19.close(x % t)
            if s not in seen: seen.add(s); add('syn::total("%s")' % s, s, 1 + ps)
    more = len(seen)
    while len(seen) < more + (3000 if DEEP else 500):
        x = rng.choice(c19.CTX)
        s = c19.words(rng, c17.W if x in (c19.CTX[0], c19.CTX[12], c19.CTX[13], c19.CTX[14]) and rng.random() < .8 else c19.T, rng.randint(0, 7))
        s = c19.close(x % s)
        if s.split().count('P') > 2 or s in seen: continue
        seen.add(s); add('syn::total("%s")' % s, s)
    c.expect_covers |= {1, 2, 3, 4}
    return c
