"""Build + run machinery shared by all checks."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PEG_REPO', '/repo')
BUILD = os.environ.get('PEG_BUILD', os.path.join(VERIF, 'build'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
TRIPLE = 'x86_64-unknown-linux-gnu'
RUSTENV = {'RUSTUP_TOOLCHAIN': '1.68.0', 'CARGO_REGISTRIES_CRATES_IO_PROTOCOL': 'sparse', 'CARGO_NET_OFFLINE': 'true'}
JOBS = int(os.environ.get('PEG_JOBS', '8'))


class CheckError(Exception):
    """the check could not decide (neither pass nor violation)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build_engine():
    out = os.path.join(BUILD, 'engine')
    r = sh([os.path.join(VERIF, 'engine', 'build.sh'), out])
    if r.returncode: raise CheckError('engine build failed:\n' + r.stdout[-3000:])
    return out


MAIN = '''
pub mod sup;
use sup::*;
%s
fn main() { let a = std::env::args().nth(1).unwrap_or_default(); match a.as_str() { %s _ => { println!("no such harness"); std::process::exit(3) } } }
'''


class Crate:
    """one generated cargo package; bins: name -> list of (harness name, rust text)"""
    def __init__(self, name, features=(), deps='', edition='2018', sup=True, nodefault=False, internal=False):
        self.nodefault, self.internal = nodefault, internal   # internal: compiles the macro's own modules
        self.name, self.features, self.deps, self.edition = name, list(features), deps, edition
        self.dir = os.path.join(BUILD, 'work', name); self.bins = {}; self.extra = {}; self.pre = {}

    def add(self, binname, harness, text): self.bins.setdefault(binname, []).append((harness, text))

    def write(self):
        shutil.rmtree(os.path.join(self.dir, 'src'), ignore_errors=True)
        os.makedirs(os.path.join(self.dir, 'src', 'bin'), exist_ok=True)
        feat = ', features = [%s]' % ', '.join('"%s"' % f for f in self.features) if self.features else ''
        if self.nodefault: feat = ', default-features = false' + feat
        with open(os.path.join(self.dir, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "h"\nversion = "0.1.0"\nedition = "%s"\n[dependencies]\npeg = { path = "%s"%s }\n%s\n[workspace]\n' % (self.edition, REPO, feat, self.deps))
            f.write('[profile.release]\nlto = "fat"\npanic = "abort"\ncodegen-units = 1\nopt-level = 2\ndebug-assertions = false\noverflow-checks = true\n')
            for b in self.bins: f.write('[[bin]]\nname = "%s"\npath = "src/bin/%s/main.rs"\n' % (b, b))
        shutil.copy(os.path.join(VERIF, 'harness', 'Cargo.lock'), os.path.join(self.dir, 'Cargo.lock'))
        for b, hs in self.bins.items():
            d = os.path.join(self.dir, 'src', 'bin', b); os.makedirs(d, exist_ok=True)
            shutil.copy(os.path.join(VERIF, 'harness', 'sup.rs'), d)
            for fn, tx in self.extra.items():
                with open(os.path.join(d, fn), 'w') as f: f.write(tx)
            body = self.pre.get(b, self.pre.get('*', '')) + '\n' + '\n'.join(t for _, t in hs)
            arms = ' '.join('"%s" => harness_%s(),' % (h, h) for h, _ in hs)
            with open(os.path.join(d, 'main.rs'), 'w') as f: f.write('#![allow(unused, non_upper_case_globals)]\n' + MAIN % (body, arms))

    def build(self, timeout=800):
        """returns {bin: (bitcode, executable)}"""
        self.write()
        env = {**os.environ, **RUSTENV, 'RUSTFLAGS': '-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-bc,link -C link-arg=%s/engine/shim.o -A warnings' % BUILD,
               'CARGO_TARGET_DIR': os.path.join(self.dir, 'target')}
        deps = os.path.join(self.dir, 'target', TRIPLE, 'release', 'deps')
        for b in self.bins:
            for f in glob.glob(os.path.join(deps, b + '-*')): os.remove(f)
        t = time.time()
        r = subprocess.run(['cargo', 'build', '--offline', '--release', '--bins', '--target', TRIPLE, '-j', str(JOBS)], cwd=self.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        self.build_s = time.time() - t; self.log = r.stdout
        if r.returncode: raise CheckError('harness build failed (%s):\n%s' % (self.name, first_errors(r.stdout)))
        out = {}
        for b in self.bins:
            bc = glob.glob(os.path.join(deps, b + '-*.bc')); exe = os.path.join(self.dir, 'target', TRIPLE, 'release', b)
            if len(bc) != 1 or not os.path.exists(exe): raise CheckError('missing build output for ' + b)
            out[b] = (bc[0], exe)
        return out


def first_errors(log):
    ls = log.splitlines(); out = []
    for i, l in enumerate(ls):
        if l.startswith('error'): out += ls[i:i + 12]
        if len(out) > 60: break
    return '\n'.join(out) or log[-2000:]


def symex_batch(bc, items, deadline):
    """items: [(harness, opts)]; yields the result of each, in order"""
    tmp = tempfile.mkdtemp(prefix='sx', dir=os.path.join(BUILD, 'tmp'))
    try:
        with open(tmp + '/batch', 'w') as f:
            for n, (h, o) in enumerate(items):
                f.write('harness_%s %s/%d %s\n' % (h, tmp, n, ' '.join('--%s %s' % kv for kv in o.items())))
        t = time.time(); err = ''
        p = subprocess.Popen([os.path.join(BUILD, 'engine', 'symex'), bc, '--batch', tmp + '/batch'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
        try: _, err = p.communicate(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate(); err = 'out of time'
        out = []
        for n, (h, o) in enumerate(items):
            try:
                with open('%s/%d' % (tmp, n)) as f: out.append(json.load(f))
            except Exception as e:
                out.append({'entry': h, 'complete': False, 'incomplete': 'engine gave no result: ' + err[-300:], 'violations': [], 'samples': []})
        return out
    finally: shutil.rmtree(tmp, ignore_errors=True)


def native(exe, harness, hexbytes, timeout=20):
    """replay one assignment; returns (kind, output): ok / assert / assume / panic / hang"""
    env = {**os.environ, 'SYM_BYTES': hexbytes}
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_CPU, (timeout, timeout))
    try:
        r = subprocess.run([exe, harness], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return 'hang', 'no result within %d s' % timeout
    if 'SYM done' in r.stdout: return 'ok', r.stdout
    if r.returncode == 77: return 'assert', r.stdout
    if r.returncode == 78: return 'assume', r.stdout
    if r.returncode in (-24, -9): return 'hang', 'killed by resource limit'
    return 'panic', r.stdout[-2000:] + ' [exit %s]' % r.returncode
