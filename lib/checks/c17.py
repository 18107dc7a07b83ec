"""the macro reads the grammar that was written"""
from check import Check
from core import TIER, SEED, VERIF
import front, random

DEEP = TIER == 'thorough'
MOD = '#[path = "syn.rs"] pub mod syn;\nuse syn::*;\n'
H = '#[no_mangle] pub extern "C" fn harness_%(h)s() { sym::log(%(k)d); %(body)s }'

W = ['P', 'P', 'P', 'L', 'ra ( )', 'ra', 'x :', '_', '( P )', '{ )', '[ )', '*', '+', '?', '/', '**', '++', '< L4 >', '< L4 , >', '< , >', '##', '#', '@', '&', '!', '$', '(', '{', 'precedence ! {', 'quiet ! {', 'ra (', 'ra ( <', 'expected ! ( )', 'position ! ( )', '--', '>', ',', ')', ')', ';']


def make():
    c = Check('C17', 'the grammar parser of the macro, run on (a) every tree of the spaces below printed with minimal parentheses and arbitrary spacing after operators, (b) headers, (c) token sequences with arbitrary punctuation: the syntax tree is the one written, and a sequence that is no expression is rejected',
              'trees: every pair of the 30 operator forms with symbolic leaves, sampled triples; headers: every pair of parts of 17, the others drawn; token sequences: all of 1..3 tokens over 10 kinds, sampled ones of 3..8 elements with at most 4 arbitrary punctuation characters')
    k = front.crate(c, 'm')
    k.pre['*'] = k.pre['*'].replace('#[path = "front.rs"] pub mod front;\nuse front::*;\n', MOD)
    with open(VERIF + '/harness/syn.rs') as f: k.extra['syn.rs'] = f.read()
    n = [0]; rng = random.Random(SEED * 86028157)
    def add(body, note, w=1):
        h = 's%d' % n[0]; n[0] += 1
        c.add('m', h, H % {'h': h, 'k': n[0], 'body': body}, {'note': note}, {'max-depth': 2000, 'weight': w})
    for a in range(30):
        add('let y = syn::node(%d, &mut syn::leaf); roundtrip(&y)' % a, 'one operator: %d' % a)
    for a in range(1, 30):
        for b in range(30):
            if a == b == 28 and not DEEP: continue
            wide = a in (15, 19, 23, 24, 25, 28, 29) or a in (8, 9, 10, 11, 14) and b in (0, 9, 11, 13, 19, 20, 21, 23, 25, 28) and not (DEEP and b == 0)
            if wide: add('let mut n = 0; let y = syn::node(%d, &mut || { n += 1; if n == %d { syn::node(%d, &mut syn::few) } else { syn::few() } }); roundtrip(&y)' % (a, rng.randint(1, 2 if a not in (15, 24, 25) else 3), b), '%d over %d' % (a, b))
            else: add('let y = syn::node(%d, &mut || syn::node(%d, &mut || syn::Y::Lit(0))); roundtrip(&y)' % (a, b), '%d over %d' % (a, b))
    for _ in range(1500 if DEEP else 150):
        def tree(d): return 'syn::node(%d, &mut %s)' % (rng.randrange(30), '|| ' + tree(d - 1) if d else 'syn::few')
        a, b, e = [rng.randrange(1, 30) for _ in range(3)]
        if sum(x in (20, 21, 28) for x in (a, b, e)) > 1: continue
        add('let mut n = 0; let y = syn::node(%d, &mut || { n += 1; if n == 1 { let mut m = 0; syn::node(%d, &mut || { m += 1; if m == 1 { syn::node(%d, &mut syn::few) } else { syn::Y::Lit(0) } }) } else { syn::few() } }); roundtrip(&y)' % (a, b, e), '%d over %d over %d' % (a, b, e))
    # headers: two parts symbolic, the others drawn
    LEN = [3, 5, 4, 5, 26, 12, 3, 3, 2, 5, 8, 8, 8, 27, 7, 26, 6]
    for i in range(17):
        for j in range(i):
            if not DEEP and rng.random() < .5: continue
            s = [0 if rng.random() < .5 else rng.randrange(l) for l in LEN]
            t = ['%d' % x for x in s]; t[i] = 'sym::pick(%d) as usize' % LEN[i]; t[j] = 'sym::pick(%d) as usize' % LEN[j]
            if LEN[i] * LEN[j] > 250: t[j] = '%d' % s[j]
            add('syn::header([%s], %s, %s)' % (', '.join(t[:15]), t[15], t[16]), 'header %d %d' % (i, j), 2)
    # large expressions: deep nesting; many elements, alternatives, arguments, operators, levels
    AR = {1: 1, 2: 1, 3: 1, 4: 1, 5: 1, 6: 1, 8: 2, 14: 2, 15: 3, 16: 1, 17: 1, 18: 1, 19: 2, 22: 1, 24: 3, 25: 3, 26: 1, 27: 1, 29: 2}
    for d in ((5, 7, 9, 12, 16, 24) if not DEEP else list(range(5, 40)) * 3):
        for _ in range(5):
            ks = [(lambda k: (k, rng.randrange(AR[k])))(rng.choice(sorted(AR))) for _ in range(d)]
            add('let y = syn::deep(&[%s], syn::node(%d, &mut syn::few)); roundtrip(&y)' % (', '.join('(%d, %d)' % k for k in ks), rng.choice([1, 6, 8, 10, 11, 12, 14, 18])), '%d nested operators' % d)
    B = ['syn::Y::Lit(0)', 'syn::Y::Call(1, 0, vec![])', 'syn::Y::Pos', 'syn::Y::Pat(3)', 'syn::deep(&[(6, 0)], syn::Y::Lit(1))', 'syn::deep(&[(3, 0)], syn::Y::Lit(0))', 'syn::deep(&[(8, 0)], syn::Y::Call(1, 0, vec![]))', 'syn::deep(&[(14, 1)], syn::Y::Call(2, 0, vec![]))', 'syn::Y::Call(10, 0, vec![])']
    def some(n, sy=1):
        v = [rng.choice(B) for _ in range(n)]
        for i in rng.sample(range(n), sy): v[i] = 'syn::one(&[syn::Y::Lit(0), syn::Y::Call(1, 0, vec![]), syn::Y::Mark(false)])'
        return v
    lab = lambda v: ', '.join('(%d, %s)' % (rng.choice([0, 17 + i % 40]), x) for i, x in enumerate(v))
    for m in ((4, 6, 9, 17, 33) if not DEEP else list(range(4, 40)) + [65, 129, 257]):
        for k in range(7):
            y = ['syn::Y::Seq(vec![%s], 7)' % lab(some(m)), 'syn::Y::Alt(vec![%s])' % ', '.join(some(m)), 'syn::Y::Alt(vec![%s])' % ', '.join('syn::Y::Seq(vec![%s], 5)' % lab(some(2, 0)) for _ in range(m)),
                 'syn::Y::Call(1, 0, vec![%s])' % ', '.join('syn::A::Peg(%s)' % x if rng.random() < .5 else 'syn::A::Rust(vec!["%s".into()])' % rng.choice(['1', '{ 3 }', 'a.b(1, 2)']) for x in some(m)),
                 'syn::Y::Prec(vec![%s])' % ', '.join('vec![(vec![%s], 7)]' % lab(some(2, 0)) for _ in range(m)), 'syn::Y::Prec(vec![vec![(vec![(3, syn::Y::Mark(false))], 5)], vec![%s]])' % ', '.join('(vec![%s], 7)' % lab(some(rng.randint(1, 3), 0)) for _ in range(m)),
                 'syn::Y::Prec(vec![vec![(vec![%s], 7)]])' % lab(some(m))][k]
            add('let y = %s; roundtrip(&y)' % y, '%d parts (%d)' % (m, k))
    for q in range(7):
        for big in ((6, 12) if not DEEP else (6, 12, 40)):
            v = ['%d' % rng.choice([0, 1, 2]) for _ in range(7)]; v[q] = '%d + sym::pick(5) as usize' % (big - 4)
            add('syn::big([%s])' % ', '.join(v), 'large header %d' % q, 3)
    # token sequences
    A = ['P', 'L', 'ra', '_', '( )', '{ )', '[ )', '( P )', '( L )', '{ L )']
    for x in A:
        add('free("%s")' % x, x)
        for y in A:
            add('free("%s %s")' % (x, y), x + y)
            for z in A:
                if [x, y, z].count('P') >= 1 or rng.random() < .1: add('free("%s %s %s")' % (x, y, z), x + y + z)
    B = ['ra', '( )', '{ L )', '[ ra )', 'P', 'P', 'L', ',', '( ra , L )', '<', '>']
    for _ in range(1500 if DEEP else 150):
        s = 'ra ( %s )' % ' '.join(rng.choice(B) for _ in range(rng.randint(2, 5)))
        if 1 <= s.split().count('P') <= 3: add('free("%s")' % s, s)
    def words(n):
        out = []; d = 0
        while len(out) < n:
            w = rng.choice(W)
            if w == ')':
                if d == 0: continue
                d -= 1
            elif w.split()[-1] in '({<' and '(' in w or w.endswith('{'): d += 1
            out.append(w)
        return ' '.join(out + [')'] * d)
    for _ in range(4000 if DEEP else 400):
        s = words(rng.randint(3, 8))
        if not 1 <= s.split().count('P') <= 4: continue
        add('free("%s")' % s, s)
    return c
