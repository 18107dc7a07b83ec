"""left-recursion analysis"""
from check import Check
from core import TIER, SEED
import front, random

DEEP = TIER == 'thorough'
H = '#[no_mangle] pub extern "C" fn harness_%(h)s() { sym::log(%(k)d); %(body)s check_analysis(&xs, &cache, %(what)s) }'


def spaces(c, what):
    """every grammar of these spaces"""
    k = [0]
    def add(body, note, w=1):
        h = 'a%d' % k[0]; k[0] += 1
        c.add('m', h, H % {'h': h, 'body': body, 'what': what, 'k': k[0]}, {'note': note}, {'max-depth': 1200, 'weight': w})
    cache = lambda n: 'let cache: Vec<u64> = (0..%d).map(|_| sym::pick(3)).collect();' % n
    cache2 = lambda n: 'let cache: Vec<u64> = (0..%d).map(|_| 2 * sym::pick(2)).collect();' % n
    # one rule, two levels of operators
    for k1 in range(20):
        for k2 in range(20):
            if k1 in (0, 11, 14): continue
            add('let mut s = %d; let mut f = || { s += 1; if s %% 2 == 1 { node(%d, &mut || leaf(1)) } else { leaf(1) } }; let xs = vec![node(%d, &mut f)]; %s' % (0, k2, k1, cache(1)), 'one rule: %d over %d' % (k1, k2))
            add('let mut s = %d; let mut f = || { s += 1; if s %% 2 == 1 { node(%d, &mut || leaf(1)) } else { leaf(1) } }; let xs = vec![node(%d, &mut f)]; %s' % (1, k2, k1, cache(1)), 'one rule: %d over %d' % (k1, k2))
    # two rules, one operator each
    for k1 in range(20):
        for k2 in range(20):
            if k2 > k1 or (k1 in (12, 13, 19) and k2 in (9, 12, 13, 16, 17, 18, 19)) or (k1 == k2 == 9): continue
            add('let xs = vec![node(%d, &mut || leaf(2)), node(%d, &mut || leaf(2))]; %s' % (k1, k2, cache2(2)), 'two rules: %d, %d' % (k1, k2), 2 if k1 in (9, 12, 13, 19) or k2 in (9, 12, 13, 19) else 1)
    # three rules: seeded choice of shapes
    rng = random.Random(SEED * 1299709)
    small = [0, 1, 2, 3, 4, 6, 10, 14, 15]
    for _ in range(400 if DEEP else 40):
        ks = [rng.choice(small) for _ in range(3)]
        if sum({1: 2, 2: 2, 14: 0}.get(x, 1) for x in ks) > (6 if DEEP else 5): continue
        add('let xs = vec![%s]; %s' % (', '.join('node(%d, &mut || leaf(3))' % x for x in ks), cache2(3) if rng.random() < .6 else 'let cache = vec![0; 3];'), 'three rules: %s' % ks, 3)
    # large grammars: chains through many rules, deep nesting, long sequences and choices; a few operands symbolic
    AR = {0: 1, 1: 2, 2: 2, 3: 1, 4: 1, 5: 1, 6: 1, 7: 1, 10: 1, 12: 3, 13: 3, 15: 1, 16: 2, 17: 2, 18: 2}
    O = ['X::Lit', 'X::Pos', 'X::Opt(Box::new(X::Lit))']
    kq = lambda: (lambda k: (k, rng.randrange(AR[k])))(rng.choice(sorted(AR)))
    def ks(n): return '&[%s]' % ', '.join('(%d, %d)' % kq() for _ in range(n))
    def big(xs, note, ca): add('let xs: Vec<X> = vec![%s]; let cache: Vec<u64> = vec![%s];' % (', '.join(xs), ', '.join(ca)), note, 3)
    for n in ((4, 5, 7, 9, 12, 17, 24) if not DEEP else list(range(4, 25)) * 4):
        for v in range(4):
            last = rng.randrange(n)
            xs = ['deep(%s, %s, %s)' % (ks(rng.choice([1, 1, 2])), 'X::Call(%d)' % (i + 1) if i + 1 < n else 'one(&[X::Call(%d), X::Call(0), X::Lit, X::Pos])' % last, rng.choice(O if v % 2 else O[1:])) for i in range(n)]
            if v > 1: xs[last] = 'deep(%s, one(&[X::Call(%d), X::Lit]), X::Pos)' % (ks(1), (last + 1) % n)
            rest = list(range(n)); rng.shuffle(rest)
            ca = ['0'] * n
            for r in rest[:rng.choice([0, 1, 1, n // 2])]: ca[r] = '2'
            if v > 2: ca[rest[-1]] = 'sym::pick(3)'
            big(xs, 'chain of %d rules' % n, ca)
    for n in ((6, 12, 20) if not DEEP else range(4, 40, 2)):
        for v in range(6):
            big(['deep(%s, one(&[X::Call(0), X::Call(1), X::Lit, X::Pos]), %s)' % (ks(n), rng.choice(O)), 'one(&[X::Lit, X::Pos, X::Opt(Box::new(X::Call(0)))])'], '%d nested operators' % n, ['0', 'sym::pick(3)'])
    for n in ((9, 17, 40) if not DEEP else (9, 17, 40, 130, 260)):
        for v in range(8):
            el = [rng.choice(['X::Pos', 'X::Opt(Box::new(X::Lit))', 'X::Rep(Box::new(X::Lit), B::Star, None)', 'X::Not(Box::new(X::Lit))', 'X::Rep(Box::new(X::Pos), B::Plus, None)', 'X::Rep(Box::new(X::Opt(Box::new(X::Lit))), B::Star, None)'][:4 if v % 2 else 6]) for _ in range(n)]
            el[rng.randrange(n)] = 'one(&[X::Lit, X::Pos])'; el[-1 - v % 2] = 'one(&[X::Call(0), X::Lit, X::Pos])'
            w = ['X::Seq(vec![%s], false)', 'X::Alt(vec![%s])', 'X::Rep(Box::new(X::Seq(vec![%s], true)), B::Plus, None)', 'X::Prec(vec![vec![vec![%s]]])', 'X::Rep(Box::new(X::Lit), B::Star, Some(Box::new(X::Alt(vec![%s]))))'][v % 5]
            if v % 5 in (1, 4): el = [e if rng.random() < .15 or 'one' in e else 'X::Lit' for e in el]
            big([w % ', '.join(el), 'one(&[X::Lit, X::Call(0)])'], '%d elements' % n, ['sym::pick(3)', '0'])

    # parameters, some named like a rule, and closures as arguments
    HP = '#[no_mangle] pub extern "C" fn harness_%(h)s() { sym::log(%(k)d); %(body)s check_analysis_p(&xs, &cache, &ps, %(what)s) }'
    def addp(body, note, w=2):
        h = 'a%d' % k[0]; k[0] += 1
        c.add('m', h, HP % {'h': h, 'body': body, 'what': what, 'k': k[0]}, {'note': note}, {'max-depth': 1200, 'weight': w})
    P1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 15, 16, 17, 18]
    for k1 in P1:
        for k2 in (P1 if DEEP else rng.sample(P1, 4)):
            a, b = rng.sample(range(AR[k1] if k1 in AR else 1), 1)[0], rng.randrange(AR.get(k2, 1))
            n = rng.choice([1, 1, 2, 4]); q = rng.randrange(n)
            o = lambda: rng.choice(['X::Lit', 'X::Pos', 'X::Opt(Box::new(X::Lit))'])
            inner = 'node(%d, &mut nth(%d, one(&[X::Call(0), X::Call(2), X::Pos]), %s))' % (rng.choice([3, 8, 8, 9, 15, 1]) if not {k1, k2} & {8, 9} else rng.choice([15, 1]), 0, o())
            args = ', '.join(inner if i == q else rng.choice(['X::Lit', 'X::Cust', 'X::Pos']) for i in range(n))
            ps = [rng.choice([0, 2, 3, 9]) if i == q else 10 + i for i in range(n)]
            addp('let ps = vec![vec![], vec![%s], vec![]]; let xs = vec![node(%d, &mut nth(%d, X::CallA(1, vec![%s]), one(&[X::Lit, X::Pos]))), node(%d, &mut nth(%d, X::Call(%d), %s)), one(&[X::Lit, X::Opt(Box::new(X::Lit)), X::Call(0)])]; %s'
                 % (', '.join(map(str, ps)), k1, a, args, k2, b, ps[q] if rng.random() < .7 else rng.choice([0, 2]), o(), 'let cache = vec![%d * sym::pick(2), 0, 0];' % rng.choice([1, 2])), 'parameters: %d, %d' % (k1, k2))


def make():
    c = Check('C15', 'the left-recursion analysis of the macro, run on symbolically chosen grammars: a grammar with a cycle of calls that consume nothing and none of whose rules is #[cache_left_rec] is rejected; a rejected grammar has such a cycle (with at least one rule not so marked), and the reported path is one',
              'grammars of one rule with two nested operators, of two rules with one operator each, of three rules with sampled operators, and sampled large ones (chains through up to 24 rules, up to 20 nested operators, up to 40 elements) with two or three symbolic operands; rules with up to 4 parameters (some named like a rule) and closures as arguments; all other leaves (literal, position, any rule), bounds and cache attributes symbolic')
    front.crate(c, 'm')
    spaces(c, 'true, false')
    return c
