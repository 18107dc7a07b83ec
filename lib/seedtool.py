#!/usr/bin/env python3
"""Development tool (no check uses it): python3 seedtool.py SPECS.py ID...  -- SPECS.py defines S = {id: dict(prop, needs, breaks, edits=[(file, old, new)], main, [features])}.
Makes seeded/<id>/, then confirms in a scratch copy (bind-mounted over /repo in a user namespace) that the change builds, passes the stable tests, and that the demo tells the trees apart; then runs the property's check against the copy."""
import json, os, re, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against /repo in a scratch directory and runs it; its assertions hold on the correct tree.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=1.68.0 CARGO_NET_OFFLINE=true CARGO_REGISTRIES_CRATES_IO_PROTOCOL=sparse CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock"
printf '[package]\\nname = "h"\\nversion = "0.1.0"\\nedition = "2018"\\n[dependencies]\\npeg = { path = "/repo"%s }\\n%s\\n[workspace]\\n' > "$d/Cargo.toml"
cd "$d" && cargo build --offline -q 2>build.log || { cat build.log; exit 1; }
ulimit -v 8000000
timeout 30 "$d/target/debug/h"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def ns(copy, cmd): return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (copy, cmd))
def one(sid, s, check=True):
    d = os.path.join(V, 'seeded', sid); os.makedirs(d, exist_ok=True)
    c = '/tmp/s/' + sid; shutil.rmtree(c, ignore_errors=True); sh('cp -a /repo ' + c)
    for f, old, new in s['edits']:
        p = os.path.join(c, f); t = open(p).read()
        if t.count(old) != 1: return sid, 'edit matches %d times in %s' % (t.count(old), f)
        open(p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % c).stdout)
    open(d + '/meta.json', 'w').write(json.dumps({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
    open(d + '/demo.sh', 'w').write(s.get('demo') or DEMO % (s.get('features', ''), s.get('deps', '')))
    if 'main' in s:
        open(d + '/main.rs', 'w').write(s['main'].lstrip('\n')); shutil.copy(V + '/harness/Cargo.lock', d)
    os.chmod(d + '/demo.sh', 0o755)
    r = sh('cd /repo && bash %s/demo.sh' % d)
    if r.returncode: return sid, 'DEMO FAILS ON CLEAN TREE\n' + r.stdout[-1500:]
    r = ns(c, 'bash %s/demo.sh' % d)
    if r.returncode == 0: return sid, 'DEMO PASSES WITH PATCH'
    out = 'demo: ' + ' | '.join(r.stdout.strip().splitlines()[-3:])[:300]
    t = '/tmp/s/%s.test.sh' % sid
    open(t, 'w').write(open('/opt/vp/test.sh').read().replace('LOGS=/opt/vp/logs', 'LOGS=/tmp/s/%s.logs' % sid))
    r = ns(c, 'bash /opt/vp/build.sh >/tmp/s/%s.build 2>&1 && bash %s /tmp/s/%s.json' % (sid, t, sid))
    try:
        o = json.load(open('/tmp/s/%s.json' % sid)); b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = sorted(b - set(o['passed']))
    except Exception as e: bad = ['no results: ' + r.stdout[-300:]]
    if bad: shutil.rmtree(c, ignore_errors=True); return sid, out + '\nTESTS CATCH IT: %s' % bad[:6]
    if check:
        for prop in [s['prop']] + s.get('also', []):
            r = sh('python3 %s/lib/main.py %s' % (V, prop), env={**os.environ, 'PEG_REPO': c, 'PEG_BUILD': '/tmp/s/build_' + sid, 'PEG_JOBS': '4'})
            lines = r.stdout.strip().splitlines()
            out += '\n%s exit %d: %s' % (prop, r.returncode, ' // '.join([l for l in lines if 'VIOLATION' in l][:2] + lines[-2:])[:500])
        shutil.rmtree('/tmp/s/build_' + sid, ignore_errors=True)
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree('/tmp/s/%s.logs' % sid, ignore_errors=True)
    return sid, out
def main():
    S = runpy.run_path(sys.argv[1])['S']
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(one, i, S[i], not os.environ.get('NOCHECK')) for i in (sys.argv[2:] or S)]):
            sid, o = f.result(); print('=====', sid, '\n' + o, flush=True)
main()
