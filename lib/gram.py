"""Grammar syntax trees used to generate harnesses: each tree prints itself both as
rust-peg grammar text (what the macro under test sees) and as a Rust constant for the
reference interpreter in harness/sup.rs."""
import itertools


def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


class G:
    """base: p = printing precedence (0 choice, 1 sequence, 2 suffix, 3 prefix, 4 primary)"""
    p = 4
    kids = ()

    def t(self, need=0):
        s = self.txt()
        return s if self.p >= need else '(' + s + ')'

    def nullable(self, rn):  # may succeed without consuming
        raise NotImplementedError

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Lit(G):
    """src: how the literal is written"""
    def __init__(s, c, src=None): s.c, s.src = c, src or rs(c)
    def txt(s): return s.src
    def ref(s): return 'E::Lit(%s,%s)' % (rs(s.c).replace('\r', '\\r').replace('\0', '\\0'), rs(s.src))
    def nullable(s, rn): return s.c == ''


class Pat(G):
    """alts: list of (lo, hi) ints; kind 'u8' or 'char'"""
    def __init__(s, alts, neg=False, kind='u8', any=False, guard=False): s.alts, s.neg, s.kind, s.any, s.guard = alts, neg, kind, any, guard
    def one(s, v):
        if s.kind == 'u8': return str(v)
        c = chr(v)
        return "'" + ({"'": "\\'", '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(c) or (c if 32 <= v < 127 else '\\x%02x' % v if v < 128 else '\\u{%x}' % v)) + "'"
    def txt(s):
        if s.any: return '[_]' if not s.neg else '[^ _]'
        if s.guard:
            c = ' || '.join('(c >= %s && c <= %s)' % (s.one(a), s.one(b)) for a, b in s.alts)
            return '[%sc if %s]' % ('^ ' if s.neg else '', c)
        return '[' + ('^ ' if s.neg else '') + ' | '.join(s.one(a) if a == b else '%s..=%s' % (s.one(a), s.one(b)) for a, b in s.alts) + ']'
    def ref(s):
        r = [(0, 0xffffffff)] if s.any else s.alts
        return 'E::Pat(&[%s],%s,%s)' % (','.join('(%d,%d)' % x for x in r), 'true' if s.neg else 'false', rs(s.txt()))
    def nullable(s, rn): return False


class RawPat(G):
    """pattern given as source; ranges over the reference's element codes"""
    def __init__(s, text, rngs, neg=False): s.text, s.rngs, s.neg = text, rngs, neg
    def txt(s): return '[' + s.text + ']'
    def ref(s): return 'E::Pat(&[%s],%s,%s)' % (','.join('(%d,%d)' % x for x in s.rngs), 'true' if s.neg else 'false', rs(s.txt()))
    def nullable(s, rn): return False


class Meth(G):
    def __init__(s, i, custom=False): s.i, s.custom = i, custom
    def txt(s): return '#{|input, pos| input.sub(pos, %d)}' % s.i if s.custom else '##sub(%d)' % s.i
    def ref(s): return 'E::Meth(%d)' % s.i
    def nullable(s, rn): return True


class Hit(G):
    def __init__(s, k): s.k = k
    def txt(s): return '#{|_i, pos| { hit(%d, pos); ::peg::RuleResult::Matched(pos, ()) }}' % s.k
    def ref(s): return 'E::Hit(%d)' % s.k
    def nullable(s, rn): return True


class Pos(G):
    def txt(s): return 'position!()'
    def ref(s): return 'E::Pos'
    def nullable(s, rn): return True


class Exp(G):
    def __init__(s, m): s.m = m
    def txt(s): return 'expected!(%s)' % rs(s.m)
    def ref(s): return 'E::Exp(%s)' % rs(s.m)
    def nullable(s, rn): return False


class Call(G):
    """args: list of G (rule closures), int (value), or ('p', i, name) (forwarded parameter)"""
    def __init__(s, name, args=(), generics=''): s.name, s.args, s.generics = name, list(args), generics; s.kids = [a for a in s.args if isinstance(a, G)]
    def txt(s):
        a = ['<' + x.t() + '>' if isinstance(x, G) else (str(x) if isinstance(x, int) else x[2] if x[0] == 'p' else '(%s + %d) %% 8' % (x[2], x[3])) for x in s.args]
        if set(s.name) == {'_'}: return s.name
        return s.name + s.generics + '(' + ', '.join(a) + ')'
    def ref(s):
        a = ['A::R(&%s)' % x.ref() if isinstance(x, G) else ('A::V(%d)' % x if isinstance(x, int) else 'A::P(%d)' % x[1] if x[0] == 'p' else 'A::O(%d,%d)' % (x[1], x[3])) for x in s.args]
        return 'E::Call(%s,&[%s])' % ('RULE_' + s.name, ','.join(a))
    def nullable(s, rn): return rn.get(s.name, True)


class Par(G):
    def __init__(s, i, name): s.i, s.name = i, name
    def txt(s): return s.name + '()'
    def ref(s): return 'E::Par(%d)' % s.i
    def nullable(s, rn): return True


_ids = itertools.count(1)


class Seq(G):
    """els: list of G or (label, G); act: None | ('nd',) | ('cond', k, msg) | ('raw', rust, ref) """
    p = 1
    def __init__(s, *els, act=None, id=None, bind=False):
        s.bind = bind
        s.els = [e if isinstance(e, tuple) else (None, e) for e in els]
        s.act = act; s.kids = [e for _, e in s.els]; s.id = id if id is not None else next(_ids)
    def labels(s): return [l for l, _ in s.els if l]
    def txt(s):
        b = ' '.join((l + ':' if l else '') + e.t(2) for l, e in s.els)
        v = 'vec![' + ', '.join(l + '.v()' for l in s.labels()) + ']'
        if s.act is None: return b
        if s.act[0] == 'nd': return b + ' { nd(%d, %s) }' % (s.id, v)
        if s.act[0] == 'cond':
            return b + ' {? let __a = %s; if cnd(%d, &__a) { Ok(nd(%d, __a)) } else { Err(%s) } }' % (v, s.act[1], s.id, rs(s.act[2]))
        if s.act[0] == 'cap': return b + ' { nd(%d, vec![%s.v()]) }' % (s.id, s.act[1])
        if s.act[0] == 'pcond': return b + ' {? if %s >= %d { Ok(nd(%d, %s)) } else { Err(%s) } }' % (s.act[2], s.act[3], s.id, v, rs(s.act[4]))
        if s.act[0] == 'pick': return b + ' { %s }' % s.labels()[s.act[1]]
        if s.act[0] == 'pnum': return b + ' { nd(%d, { let mut vs9: Vec<V> = %s; vs9.push((%s as u64).v()); vs9 }) }' % (s.id, v, s.act[2])
        return b + ' { ' + s.act[1] + ' }'
    def ref(s):
        if len(s.els) == 1 and s.act is None and not s.els[0][0]: return s.els[0][1].ref()
        a = 'Act::No'
        if s.act:
            a = {'nd': lambda: 'Act::Nd(%d)' % s.id, 'cond': lambda: 'Act::Cond(%d,%s,%d)' % (s.act[1], rs(s.act[2]), s.id),
                 'pick': lambda: 'Act::Pick(%d)' % s.act[1], 'pnum': lambda: 'Act::PNum(%d,%d)' % (s.id, s.act[1]), 'pcond': lambda: 'Act::PCond(%d,%d,%d,%s)' % (s.id, s.act[1], s.act[3], rs(s.act[4])), 'raw': lambda: s.act[2], 'fold2': lambda: 'Act::Fold2', 'cap': lambda: 'Act::Low(%d,%d)' % (s.id, s.act[2])}[s.act[0]]()
        return 'E::%s(&[%s],%s)' % ('Bind' if s.bind else 'Seq', ','.join('(%s,&%s)' % ('true' if l or (s.act and s.act[0] == 'cap') else 'false', e.ref()) for l, e in s.els), a)
    def nullable(s, rn): return all(e.nullable(rn) for e in s.kids)


class Alt(G):
    p = 0
    def __init__(s, *es): s.kids = list(es)
    def txt(s): return ' / '.join(e.t(1) for e in s.kids)
    def ref(s): return 'E::Alt(&[%s])' % ','.join('&' + e.ref() for e in s.kids)
    def nullable(s, rn): return any(e.nullable(rn) for e in s.kids)


class Un(G):
    def __init__(s, e): s.e = e; s.kids = [e]


class Opt(Un):
    p = 2
    def txt(s): return s.e.t(3) + '?'
    def ref(s): return 'E::Opt(&%s)' % s.e.ref()
    def nullable(s, rn): return True


class Rep(Un):
    """op: '*', '+', or bounds (lo, hi) with None; brace: print bounds as {expr}; lo/hi may be ('p', i, name)"""
    p = 2
    def __init__(s, e, op='*', sep=None, brace=False, exact=False):
        super().__init__(e); s.op, s.sep, s.brace, s.exact = op, sep, brace, exact
        if sep is not None: s.kids = [e, sep]
    def num(s, n): return '' if n is None else ('{' + n[2] + '}' if isinstance(n, tuple) else ('{%d - 1}' % (n + 1) if s.brace else str(n)))
    def txt(s):
        star = '**' if s.sep is not None else '*'
        if s.op == '*': o = star
        elif s.op == '+': o = '++' if s.sep is not None else '+'
        elif s.exact: o = star + '<' + s.num(s.op[0]) + '>'
        else: o = star + '<' + s.num(s.op[0]) + ',' + s.num(s.op[1]) + '>'
        return s.e.t(3) + o + (' ' + s.sep.t(4) if s.sep is not None else '')
    def ref(s):
        lo, hi = (0, None) if s.op == '*' else (1, None) if s.op == '+' else s.op
        if s.exact: hi = lo
        n = lambda x, d: d if x is None else 'N::P(%d)' % x[1] if isinstance(x, tuple) else 'N::C(%d)' % x
        return 'E::Rep(&%s,%s,%s,%s)' % (s.e.ref(), n(lo, 'N::C(0)'), n(hi, 'N::Inf'), 'None' if s.sep is None else 'Some(&%s)' % s.sep.ref())
    def lo(s): return 0 if s.op == '*' else 1 if s.op == '+' else (s.op[0] or 0)
    def bounded(s): return not isinstance(s.op, str) and (s.exact or s.op[1] is not None)
    def nullable(s, rn): return s.lo() == 0 or isinstance(s.lo(), tuple) or s.e.nullable(rn)
    def loops(s, rn): return not s.bounded() and s.e.nullable(rn) and (s.sep is None or s.sep.nullable(rn))


class Pre(Un):
    p = 3
    def txt(s): return s.sy + s.e.t(4)
    def ref(s): return '%s(&%s)' % (s.rf, s.e.ref())


class And(Pre):
    sy, rf = '&', 'E::And'
    def nullable(s, rn): return True


class Not(Pre):
    sy, rf = '!', 'E::Not'
    def nullable(s, rn): return True


class Slice(Pre):
    sy, rf = '$', 'E::Slice'
    def nullable(s, rn): return s.e.nullable(rn)


class Quiet(Un):
    def txt(s): return 'quiet!{' + s.e.t() + '}'
    def ref(s): return 'E::Quiet(&%s)' % s.e.ref()
    def nullable(s, rn): return s.e.nullable(rn)


class Prec(G):
    """levels: list of list of (kind, els, assoc_left, loose, llab, rlab): kind 'atom','pre','post','in'"""
    def __init__(s, levels, span=False):
        s.levels, s.span = levels, span
        s.ids = [[next(_ids) for _ in l] for l in levels]
        s.kids = [e for l in levels for op in l for _, e in op['els']]
    def txt(s):
        out = []
        for li, l in enumerate(s.levels):
            ops = []
            if s.span and li == 0: out.append('ql:position!() qn:@ qr:position!() { spn(ql, qn, qr) }')
            for oi, op in enumerate(l):
                els = [(lab + ':' if lab else '') + e.t(2) for lab, e in op['els']]
                labs = [lab for lab, _ in op['els'] if lab]
                k = op['kind']; ll = op.get('llab', 'l%d' % s.ids[li][oi]); rl = op.get('rlab', 'r%d' % s.ids[li][oi])
                pre = lambda lab, m: (lab + ':' if lab else '') + m
                mk = (ll, rl)
                if k == 'in':
                    a, b = ('(@)', '@') if op['assoc'] == 'l' else ('@', '(@)')
                    els = [pre(ll, a)] + els + [pre(rl, b)]; labs = [ll] * bool(ll) + labs + [rl] * bool(rl)
                elif k == 'post': els = [pre(ll, '@')] + els; labs = [ll] * bool(ll) + labs
                elif k == 'pre': els = els + [pre(rl, '(@)' if op.get('loose') else '@')]; labs = labs + [rl] * bool(rl)
                ops.append(' '.join(els) + ' { nd(%d, vec![%s]) }' % (s.ids[li][oi], ', '.join(x if x in mk else x + '.v()' for x in labs)))
            out.append('\n'.join(ops))
        return 'precedence!{\n' + '\n--\n'.join(out) + '\n}'
    def ref(s):
        ls = []
        for li, l in enumerate(s.levels):
            ops = []
            for oi, op in enumerate(l):
                k = {'atom': 0, 'pre': 1, 'post': 2, 'in': 3}[op['kind']]
                b = lambda x: 'true' if x else 'false'
                ops.append('Op{kind:%d,assoc_left:%s,loose:%s,els:&[%s],llab:%s,rlab:%s,act:%d}' % (
                    k, b(op.get('assoc') == 'l'), b(op.get('loose')), ','.join('(%s,&%s)' % (b(lab), e.ref()) for lab, e in op['els']), b(op.get('llab', 1)), b(op.get('rlab', 1)), s.ids[li][oi]))
            ls.append('&[%s]' % ','.join(ops))
        return 'E::Prec(&[%s])' % ','.join(ls)
    def nullable(s, rn): return all(e.nullable(rn) for l in s.levels for op in l if op['kind'] == 'atom' for _, e in op['els'])


class Rule:
    def __init__(s, name, e, ret='V', attrs='', params='', generics='', lrec=False, ref=None, pub=''):
        s.name, s.e, s.ret, s.attrs, s.params, s.generics, s.lrec, s.refe, s.pub = name, e, ret, attrs, params, generics, lrec, ref, pub


LIFE = [("W<'lf>", '(wv:(%s) { W::of(wv.v(), lfx) })'), ("W<'input>", '(wv:(%s) { W::any(wv.v()) })')]
START = [5, 5, 0, 5, 254, 5, 5, 65534, 5, 4294967294, 5]   # where positions of the abstract input begin
_gid = itertools.count(1)


class Gram:
    """rules[0] is the entry; inp: 'sym' | 'str' | 'bytes'"""
    def __init__(s, rules, inp='sym', no_eof=False, n=3, nlit=None, nm=None, wide=2, nc=None, span=False, full=False, note='', refrules=None, head='', gargs=(), targs=0, lim=3, start=None, pre='', post='', deep=False, life=False):
        s.life = life
        s.gargs, s.targs, s.lim = list(gargs), targs, lim
        s.pre, s.post, s.deep = pre, post, deep
        s.start = START[next(_gid) % len(START)] if start is None else start
        s.rules, s.inp, s.no_eof, s.n, s.wide, s.span, s.full, s.note, s.refrules, s.head = rules, inp, no_eof, n, wide, span, full, note, refrules, head
        lits = [x.c for r in rules for x in r.e.walk() if isinstance(x, Lit)]
        s.nlit = nlit if nlit is not None else (max([ord(c[0]) - 96 for c in lits], default=0) if inp == 'sym' else 0)
        s.nm = nm if nm is not None else max([x.i + 1 for r in rules for x in r.e.walk() if isinstance(x, Meth)], default=0)
        s.nc = nc if nc is not None else max([x.act[1] + 1 for r in rules for x in r.e.walk() if isinstance(x, Seq) and x.act and x.act[0] == 'cond'], default=0)

    def loops(s):
        rn = {}
        for _ in range(6):
            for r in s.rules: rn[r.name] = r.e.nullable(rn)
        return any(isinstance(x, Rep) and x.loops(rn) for r in s.rules for x in r.e.walk())

    def text(s, name):
        ty = {'sym': 'Sym', 'str': 'str', 'bytes': '[u8]', 'toks': '[Tok]', 'words': '[u16]'}[s.inp]
        if s.life: ty = {'sym': "SyL<'lf>"}.get(s.inp, ty)
        out = ['peg::parser!{ pub grammar %s%s(%s) for %s {' % (name, "<'lf>" if s.life else '', ', '.join([x + ': usize' for x in s.gargs] + ["lfx: &'lf Lf"] * bool(s.life)), ty), 'use crate::sup::*;']
        for i, r in enumerate(s.rules):
            if s.life and set(r.name) != {'_'}:
                # values that borrow from an argument of the grammar or from the input, bounds in a where clause, own lifetime parameters
                k = (i + s.life) % 4
                ret, ex, gen = r.ret, r.e.txt(), r.generics
                if i and ret == 'V' and k < 3: ret, ex = LIFE[k % 2][0], LIFE[k % 2][1] % ex
                wh = ''
                if gen and k % 2 and not 'cache' in r.attrs:
                    ps = [x.split(':') for x in gen[1:-1].split(',')]
                    wh = ' where ' + ', '.join('%s: %s' % (a.strip(), b.strip()) for a, b in ps); gen = "<'own, " + ', '.join(a.strip() for a, b in ps) + '>'
                a = ('#[no_eof] ' if s.no_eof else '') + 'pub ' if i == 0 else r.pub
                out.append('  %s%srule %s%s(%s)%s%s = %s' % (r.attrs + ' ' if r.attrs else '', a, r.name, gen, r.params, ' -> ' + ret if ret else '', wh, ex)); continue
            a = ('#[no_eof] ' if s.no_eof else '') + 'pub ' if i == 0 else r.pub
            nm = r.name if set(r.name) == {'_'} else '%s%s(%s)' % (r.name, r.generics, r.params)
            out.append('  %s%srule %s%s = %s' % (r.attrs + ' ' if r.attrs else '', a, nm, ' -> ' + r.ret if r.ret else '', r.e.txt()))
        out.append('}}')
        return '\n'.join(out)

    def refconst(s, name):
        rr = s.refrules or s.rules
        c = ''.join('const RULE_%s: usize = %d; ' % (r.name, i) for i, r in enumerate(rr))
        return 'mod r%s { use crate::sup::*; %s pub static R: &[Rule] = &[%s]; }' % (name, c, ',\n'.join(
            'Rule{e:&%s,lrec:%s,memo:%s,span:%s,name:%s}' % ((r.refe or r.e).ref(), 'true' if r.lrec else 'false', 'true' if 'cache]' in r.attrs else 'false', 'true' if s.span else 'false', rs(r.name)) for r in rr))

    def harness(s, name, mode):
        b = lambda x: 'true' if x else 'false'
        top = s.rules[0].name
        call = '%s::%s(%s)' % (name, top, ', '.join(['&SyL::new(i)' if s.life and s.inp == 'sym' else 'i'] + ['ga(%d)' % i for i in range(len(s.gargs))] + ['&LF'] * bool(s.life) + ['ta(%d)' % i for i in range(s.targs)])) + ('' if s.rules[0].ret == 'V' else '.map(|x| x.v())')
        first = 'set_deep(); ' if s.deep else ''
        if s.inp == 'sym':
            if s.start != 5: first += 'set_start(%d); ' % s.start
            return '#[no_mangle] pub extern "C" fn harness_%s() { ' % name + first + '%srun_sym(|i| %s, r%s::R, %s, (%d,%d,%d,%d,%d), %s, %s) }' % ('init_args(%d, %d, %d); ' % (len(s.gargs), s.targs, s.lim) if s.gargs or s.targs else '', call, name, b(s.no_eof), s.n, s.nlit, s.nm, s.wide, s.nc, b(s.span), mode)
        if s.inp == 'str' and (s.pre or s.post):
            return '#[no_mangle] pub extern "C" fn harness_%s() { %sinit_conds(%d); run_text(|i| %s, r%s::R, %s, %s, %d, %s, %s, %s, %s) }' % (name, first, s.nc, call, name, b(s.no_eof), rs(s.pre), s.n, rs(s.post), b(s.full), b(s.span), mode)
        if s.inp == 'bytes' and (s.pre or s.post):
            return '#[no_mangle] pub extern "C" fn harness_%s() { %sinit_conds(%d); run_bytes_in(|i| %s, r%s::R, %s, %s, %d, %s, %s, %s) }' % (name, first, s.nc, call, name, b(s.no_eof), rs(s.pre), s.n, rs(s.post), b(s.span), mode)
        if s.inp == 'str':
            return '#[no_mangle] pub extern "C" fn harness_%s() { init_conds(%d); run_str(|i| %s, r%s::R, %s, %d, %s, %s, %s) }' % (name, s.nc, call, name, b(s.no_eof), s.n, b(s.full), b(s.span), mode)
        return ('#[no_mangle] pub extern "C" fn harness_%s() { init_conds(%d); run_' + s.inp + '(|i| %s, r%s::R, %s, %d, %s, %s) }') % (name, s.nc, call, name, b(s.no_eof), s.n, b(s.span), mode)

    def rust(s, name, mode): return s.text(name) + '\n' + s.refconst(name) + '\n' + s.harness(name, mode) + '\n'
