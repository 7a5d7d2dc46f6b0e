#!/usr/bin/env python3
"""plant.py DIR: DIR/bug.py (PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...]) and DIR/main.rs
become /verif/seeded/<basename DIR>; then everything the task demands of a planted bug is confirmed:
the patch applies, /repo builds, its stable tests pass, the demonstration separates the trees; and
the property's check is run. /repo is restored."""
import json, os, shutil, subprocess, sys, runpy
src = sys.argv[1].rstrip('/')
only_check = '--check' in sys.argv
name = os.path.basename(src)
V, out = '/verif', f'/verif/seeded/{name}'
def run(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert run('git -C /repo status --porcelain').stdout == '', 'repo dirty'
if not only_check:
    ns = runpy.run_path(src + '/bug.py')
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, new in ns['EDITS']:
            p = f'/repo/{f}'; t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = run('git -C /repo diff').stdout
    finally:
        run('git -C /repo checkout -q -- .')
    open(out + '/patch.diff', 'w').write(d)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.copy(f'{V}/tools/demokit/demo.sh', out + '/demo.sh')
    shutil.copy(src + '/main.rs', out + '/main.rs')
    which = ns.get('KIT', '')
    dk = f'{V}/tools/demokit' + (f'-{which}' if which else '')
    kit = out + '/kit'; shutil.rmtree(kit, ignore_errors=True)
    shutil.copytree(dk, kit, ignore=shutil.ignore_patterns('target', 'demo.sh')); os.makedirs(kit + '/src', exist_ok=True)
    shutil.copytree(f'{V}/tools/demokit/didcomm', kit + '/didcomm', dirs_exist_ok=True)
    shutil.copytree(f'{V}/vendor/askar-crypto', kit + '/askar-crypto', ignore=shutil.ignore_patterns('target'))
    if which == 'js': shutil.copytree(f'{V}/js/stubs', kit + '/stubs', ignore=shutil.ignore_patterns('target'))
    if which == 'ffi': shutil.copytree(f'{V}/ffi/uniffi-stub', kit + '/uniffi-stub', ignore=shutil.ignore_patterns('target'))
    for m in ('keys', 'refjose', 'world', 'msgs', 'layers', 'onion') + (() if which else ('mutate',)): shutil.copy(f'{V}/harness/src/{m}.rs', kit + '/src')
meta = json.load(open(out + '/meta.json'))
r = run(f'cd /repo && bash {out}/demo.sh')
print('clean demo', r.returncode)
if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
ok = True
try:
    a = run(f'git -C /repo apply {out}/patch.diff')
    if a.returncode: print(a.stdout); sys.exit(1)
    if not only_check:
        b = run('bash /opt/vp/build.sh'); print('build', b.returncode)
        run('bash /opt/vp/test.sh /tmp/plant_t.json')
        t = json.load(open('/tmp/plant_t.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [s for s in stable if s not in t.get('passed', t)]
        print('stable failing', bad)
        u = run('cd /verif/upstream && . ../env.sh && cargo test --offline --release 2>&1 | grep -E "^test result|FAILED|failed"')
        print('upstream', u.stdout.strip()[:600])
        ok &= b.returncode == 0 and not bad
    r = run(f'cd /repo && bash {out}/demo.sh')
    print('patched demo', r.returncode, r.stdout.strip()[-300:])
    ok &= r.returncode != 0
    props = [meta['property']] + [a for a in sys.argv[2:] if a.startswith('C')]
    for p in props:
        c = run(f'cd /verif && ./check.sh {p} quick')
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print('CHECK', p, c.returncode, v[:2])
finally:
    run('git -C /repo checkout -q -- .')
print('OK' if ok else 'NOT OK', name)
