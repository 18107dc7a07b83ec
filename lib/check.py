"""A check: a set of harnesses for one property, decided by symbolic execution."""
import concurrent.futures as cf, json, os, sys, time, hashlib, traceback
from core import *
import core

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Check:
    def __init__(self, pid, what, bounds, functions_hint=(), assumptions=(), budget=0):
        self.pid, self.what, self.bounds = pid, what, bounds
        self.assumptions = list(assumptions); self.t0 = time.time(); self.budget = budget or (600 if TIER == 'quick' else 7200)
        self.crates = {}; self.items = []; self.results = []; self.viol = []; self.notes = []; self.extra_cov = {}; self.errors = []
        self.expect_covers = set(); self.nbins = 8

    # ---- registering
    def crate(self, name, **kw):
        if name not in self.crates: self.crates[name] = Crate(self.pid.lower() + '_' + name, **kw)
        return self.crates[name]

    def add(self, crate, harness, text, meta=None, opts=None, bin=None):
        c = self.crate(crate)
        b = bin or 'b%d' % (len([i for i in self.items if i['crate'] == crate]) % self.nbins)
        c.add(b, harness, text)
        self.items.append({'crate': crate, 'bin': b, 'h': harness, 'meta': meta or {}, 'opts': opts or {}, 'text': text})

    def gram(self, g, mode, crate='g', name=None, opts=None, meta=None):
        name = name or 'g%d' % len(self.items)
        m = {'grammar': g.text(name), 'note': g.note}; m.update(meta or {})
        self.add(crate, name, g.rust(name, mode), m, opts)

    # ---- running
    def left(self): return self.budget - (time.time() - self.t0)

    def report(self, h, msg, detail):
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(p, 'w') as f: json.dump({'property': self.pid, 'harness': h, 'what': msg, **detail}, f, indent=1)
        self.viol.append({'h': h, 'msg': msg, 'replay': p, 'detail': detail})

    def run(self):
        os.makedirs(os.path.join(BUILD, 'tmp'), exist_ok=True)
        build_engine()
        built = {}
        for n, c in self.crates.items():
            if os.environ.get("PEG_DBG"): print("built", n, round(time.time() - self.t0, 1))
            try: built[n] = c.build(timeout=max(60, self.left()))
            except CheckError as e:
                if c.internal: raise CheckError('the harness over the macro\'s own modules no longer compiles against them\n' + str(e))
                if self.repo_builds(): self.report('build-' + n, 'a grammar of the corpus no longer compiles', {'log': str(e)[:6000], 'dir': c.dir})
                else: raise CheckError('the repository itself does not build\n' + str(e))
        groups = {}
        for i in self.items:
            if i['crate'] in built: groups.setdefault((i['crate'], i['bin']), []).append(i)
        chunks = []
        for k, its in groups.items():
            heavy = [i for i in its if i['opts'].get('weight', 1) > 1]; light = [i for i in its if i['opts'].get('weight', 1) <= 1]
            chunks += [(i['opts']['weight'], k, [i]) for i in heavy] + [(1, k, light[n:n + 12]) for n in range(0, len(light), 12)]
        chunks.sort(key=lambda c: -c[0])
        with cf.ThreadPoolExecutor(core.JOBS) as ex:
            for f in [ex.submit(self.chunk, its, built[k[0]][k[1]]) for _, k, its in chunks]: f.result()

    def chunk(self, its, be):
        if len(self.viol) >= 6: self.notes.append('stopped after six violations'); return   # already decided
        rs = symex_batch(be[0], [(i['h'], self.opts(i)) for i in its], self.t0 + self.budget + 30)
        for i, j in zip(its, rs): self.one(i, j, be[1])

    def opts(self, it):
        o = {'max-time': 400 if TIER == 'quick' else 1500, 'max-instr': 20000000, 'max-depth': 1200, 'samples': 2, 'seed': SEED}
        o.update({k: v for k, v in it['opts'].items() if k not in ('weight', 'expect')})
        o['max-time'] = int(max(5, min(o['max-time'], self.left())))
        return o

    def repo_builds(self):
        env = {**os.environ, **RUSTENV, 'CARGO_TARGET_DIR': os.path.join(BUILD, 'work', 'repocheck')}
        return sh(['cargo', 'check', '--offline', '--lib'], cwd=REPO, env=env).returncode == 0

    def one(self, it, j, exe):
        j['h'] = it['h']; j['meta'] = it['meta']
        self.results.append(j)
        for v in j['violations']:
            if len(self.viol) >= 6: break
            kind, out = native(exe, it['h'], v['bytes'], timeout=6)
            ok = {'assert': kind == 'assert', 'panic': kind in ('panic', 'hang'), 'diverge': kind in ('hang', 'panic'), 'memory': kind in ('panic', 'hang', 'assert')}.get(v['kind'], False)
            d = {'kind': v['kind'], 'bytes': v['bytes'], 'where': v['where'], 'note': v['note'], 'native': kind, 'native_output': out[-800:], 'source': it['text'], 'grammar': it['meta'].get('grammar', ''),
                 'replay_cmd': 'SYM_BYTES=%s %s %s' % (v['bytes'], exe, it['h'])}
            if not ok: self.errors.append('counterexample of %s does not replay natively (%s vs %s: %s)' % (it['h'], v['kind'], kind, v['msg'])); d['msg'] = v['msg']; self.notes.append(d); continue
            self.report(it['h'] + '-%d' % len(self.viol), v['msg'] if v['kind'] == 'assert' else '%s: %s' % (v['kind'], v['msg']), d)
        if not j.get('complete'):
            if not j['violations']: self.errors.append('%s incomplete: %s' % (it['h'], j.get('incomplete')))
        j['replayed'] = 0
        if len(self.viol) >= 6: return
        for s in j.get('samples', []):
            kind, out = native(exe, it['h'], s['bytes'])
            if kind != 'ok' or 'SYM done %s %s' % (s['loghash'], s['nlog']) not in out:
                if not (kind == 'assert' and j['violations']): self.errors.append('%s: symbolic and native runs disagree on %s (%s)' % (it['h'], s['bytes'], kind + out[-200:]))
            else: j['replayed'] += 1
        want = it['opts'].get('expect', it['meta'].get('covers'))
        if not j['violations'] and j.get('complete') and j.get('paths_ok', 0) + j.get('expected_panics', 0) == 0: self.errors.append('%s is vacuous: no path reaches the end' % it['h'])

    # ---- finishing
    def known(self):
        try:
            with open(KNOWN) as f: return [k for k in json.load(f)['findings'] if k['property'] == self.pid]
        except FileNotFoundError: return []

    def finish(self, level='model_checking'):
        kn = self.known(); hit = {}; new = []
        for v in self.viol:
            m = None
            for k in kn:
                if k['grammar'].split() == v['detail'].get('grammar', '').split() and k['what'] in v['msg']: m = k
            if m is not None: hit[m['id']] = m
            else: new.append(v)
        for k in hit.values(): print('KNOWN-FINDING: property=%s %s' % (self.pid, k['describe']))
        R = self.results; S = lambda f: sum(r.get(f, 0) or 0 for r in R)
        fns = sorted({f for r in R for f in r.get('functions', [])})
        mine = [f for f in fns if f.startswith(('g', 'peg', '_$LT$')) or 'peg' in f or '__parse' in f]
        cov = {'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': S('replayed'), 'harnesses': len(R),
               'what': self.what, 'bounds': self.bounds, 'paths_completed': S('paths_ok'), 'forks': S('forks'), 'symbolic_branches': S('symbolic_branches'),
               'assertions_concrete': S('asserts_concrete'), 'assertions_symbolic': S('asserts_symbolic'),
               'solver_queries': S('z3_queries'), 'solver_sat': S('z3_sat'), 'solver_unsat': S('z3_unsat'), 'solver_time_s': round(sum(r.get('z3_time_s', 0) for r in R), 3),
               'sat_by_checked_witness': S('witness_sat'), 'decided_by_asserted_literal': S('literal_hits') + S('bound_hits'),
               'max_symbolic_bytes': max([r.get('max_sym_bytes', 0) for r in R], default=0), 'engine_time_s': round(sum(r.get('wall_s', 0) for r in R), 2),
               'functions_executed': len(fns), 'functions_of_the_code_under_test': sorted({f for f in mine})[:80],
               'build_s': {n: round(getattr(c, 'build_s', 0), 1) for n, c in self.crates.items()},
               'covers': {str(k): sum(r.get('covers', {}).get(str(k), 0) for r in R) for k in sorted({k for r in R for k in r.get('covers', {})})},
               'samples': [{'harness': r['h'], 'grammar': r['meta'].get('grammar', r['meta'].get('note', ''))[:600], 'paths': r.get('paths'), 'queries': r.get('z3_queries'), 'inputs': [s['bytes'] for s in r.get('samples', [])[:2]]} for r in (R[:2] + R[len(R) // 2:len(R) // 2 + 2] + R[-2:])]}
        if os.environ.get('PEG_DBG'):
            for r in sorted(R, key=lambda r: -r.get('wall_s', 0))[:6]: print('slow', r['h'], r.get('wall_s'), r.get('paths'), r['meta'].get('note'))
        cov.update(self.extra_cov)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if self.errors: ev['errors'] = self.errors[:20]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for v in new[:10]:
            print('VIOLATION property=%s replay=%s' % (self.pid, v['replay'])); print('  ' + v['msg'][:300])
        for e in self.errors[:10]: print('ERROR: ' + e[:3000])
        print('%s: %d harnesses, %d paths, %d solver queries (%.1fs), %d native replays, %.1fs' % (self.pid, len(R), cov['states'], cov['solver_queries'], cov['solver_time_s'], cov['traces_validated_against_impl'], ev['wall_s']))
        if new: return 1
        if self.errors: return 2
        for c in self.expect_covers:
            if not cov['covers'].get(str(c)): print('ERROR: cover %s never reached' % c); return 2
        return 0
