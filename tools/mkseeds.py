#!/usr/bin/env python3
"""mkseeds.py GENDIR SPEC.py [ID...]: builds /verif/seeded/<id> for each entry of SPEC.py and confirms it in a scratch copy.
Confirm: demo passes on the unchanged tree; with the patch the tests pass (stable and, where noted, all) and the demo fails."""
import os, sys, subprocess, shutil, json, tempfile
gen, spec = sys.argv[1:3]; only = sys.argv[3:]
V = '/verif'
ns = {}
exec(open(spec).read(), ns)
def run(cmd, cwd=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
base_blame = {}
def own_lines(f):
    """line texts which our own commits added"""
    if f not in base_blame:
        o = subprocess.run(['git', '-C', '/repo', 'diff', '-U0', 'c3ad9a4', '--', f], stdout=subprocess.PIPE, text=True).stdout
        base_blame[f] = {l[1:] for l in o.split('\n') if l.startswith('+') and not l.startswith('+++')}
    return base_blame[f]
for e in ns['SEEDS']:
    id, prop, f, edits, flags, needs, breaks = e
    if only and id not in only: continue
    d = f'{V}/seeded/{id}'
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        r = f'{w}/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        files = f if isinstance(f, list) else [f]
        for fi, (old, new) in ((edits[i][2], edits[i][:2]) if len(edits[i]) == 3 else (files[0], edits[i]) for i in range(len(edits))):
            p = f'{r}/{fi}'; s = open(p).read()
            if s.count(old) != 1: print(id, 'BAD EDIT', s.count(old), repr(old[:60])); raise SystemExit
            open(p, 'w').write(s.replace(old, new))
        patch = run('git diff', r)[1]
        removed = [l[1:] for l in patch.split('\n') if l.startswith('-') and not l.startswith('---')]
        mine = [l for l in removed if any(l in own_lines(fi) and l.strip() not in ('}', '') for fi in files)]
        if mine: print(id, 'TOUCHES OWN LINES', mine)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f'{d}/patch.diff', 'w').write(patch)
        if os.path.isdir(f'{gen}/d/{id}'): # several modules, with v1compat
            for x in os.listdir(f'{gen}/d/{id}'): shutil.copy(f'{gen}/d/{id}/{x}', d)
            shutil.copy(f'{gen}/v1/demo.sh', d); shutil.copy(f'{gen}/v1/v1.hpp', d); shutil.copy(f'{V}/sim/v1gen.py', d)
        else:
            shutil.copy(f'{gen}/demo.sh', d); shutil.copy(f'{gen}/common.hpp', d)
            shutil.copy(f'{gen}/d/{id}.cpp', f'{d}/demo.cpp')
        if flags: open(f'{d}/flags', 'w').write(flags + '\n')
        os.makedirs(f'{d}/shim'); shutil.copytree(f'{V}/shim/itlib', f'{d}/shim/itlib'); shutil.copytree(f'{V}/shim/splat', f'{d}/shim/splat')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
        c0, o0 = run(f'bash {d}/demo.sh', '/repo')
        c1, o1 = run(f'bash {d}/demo.sh', r)
        ct, ot = run(f'bash {V}/shim/run_repo_tests.sh {r} {w}/t')
        failed = [l for l in ot.split('\n') if 'FAILED' in l]
        print(id, prop, 'clean', c0, 'patched', c1, 'tests', 'all pass' if ct == 0 and not failed else failed or ot[-300:])
        if c0: print(o0[-600:])
        if not c1 or 'build failed' in o1: print(o1[-600:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
