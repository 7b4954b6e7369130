#!/usr/bin/env python3
# Mutation experiment: small changes of the library, which of them does no check notice?
# mutants.py SCRATCH [--time S] [--files substr,...] [--seed N] [--max N]: writes SCRATCH/results.jsonl
import sys, os, re, subprocess, json, shutil, random, argparse, hashlib
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('scratch'); ap.add_argument('--time', type=float, default=4); ap.add_argument('--files', default='')
ap.add_argument('--seed', type=int, default=1); ap.add_argument('--max', type=int, default=100000); ap.add_argument('--jobs', default='8')
ap.add_argument('--props', default='C05,C02,C12,C17,C14,C15,C10,C01,C16,C09,C06,C08,C11,C07,C18,C13,C03,C04')
ap.add_argument('--only', default='') # file:line
a = ap.parse_args()
S = os.path.abspath(a.scratch)
os.makedirs(S, exist_ok=True)
repo = S + '/repo'
if not os.path.exists(repo): subprocess.check_call(['cp', '-a', '/repo', repo])
subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
objs = S + '/objs'
os.makedirs(objs, exist_ok=True)
gen = S + '/v1gen'
os.makedirs(gen, exist_ok=True)
subprocess.check_call(['python3', here + '/sim/v1gen.py', repo, gen, '5'])
INC = ['-I' + repo + '/code', '-I' + here + '/shim', '-I' + here + '/sim']
V1 = ['-I' + repo + '/v1compat/code', '-I' + gen]
TS = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
OPT = ['-O1', '-g', '-fno-omit-frame-pointer', '-w']
WRAP = ['-Wl,--wrap=' + s for s in 'memcmp pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock __cxa_atexit pthread_once __cxa_thread_atexit'.split()]
def src_files():
    r = []
    for top in ('/code', '/v1compat/code'):
        for d, _, fs in os.walk(repo + top):
            for f in fs:
                if f.endswith(('.cpp', '.c', '.hpp', '.h')): r.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(r)
def compile_cmds(files):
    cs = []
    for f in files:
        if f.startswith('sim:'):
            n = f[4:]; src = here + '/sim/' + n + '.cpp'
            fl = (['-O2'] + INC) if n in ('tls0', 'tls1', 'rt', 'rbtree', 'gen', 'main') else (OPT + TS + INC + (V1 if n.startswith('v1') else []))
            cs.append((f, ['clang++', '-std=c++17'] + fl + ['-c', src, '-o', objs + '/' + f.replace(':', '_') + '.o']))
        else:
            o = objs + '/' + f.replace('/', '_') + '.o'
            cs.append((f, (['clang++', '-std=c++17'] if f.endswith('.cpp') else ['clang', '-std=c11']) + OPT + TS + INC + (V1 if f.startswith('v1compat') else []) + ['-c', repo + '/' + f, '-o', o]))
    return cs
allc = [f for f in src_files() if f.endswith(('.cpp', '.c'))]
units = ['sim:' + n for n in 'tls0 v1 v1world v1msgs ops objs mixins kids crowd dom'.split()] + allc + ['sim:' + n for n in 'v1plug tls1 rt rbtree gen main'.split()] # in the order of linking
def build(files):
    ps = [subprocess.Popen(c, stderr=subprocess.DEVNULL) for _, c in compile_cmds(files)]
    ok = all([p.wait() == 0 for p in ps])
    if ok:
        for f, c in compile_cmds(files):
            sec = 'lib' if f.startswith('v1compat') else f[6:] if f in ('sim:v1msgs', 'sim:v1world', 'sim:v1plug') else None
            if sec: subprocess.check_call(['sh', here + '/sim/sections.sh', sec, c[-1]])
    return ok
def link():
    o = [c[-1] for _, c in compile_cmds(units)]
    return subprocess.call(['clang++', '-static'] + WRAP + o + ['-o', S + '/dsim', '-lpthread'], stderr=subprocess.DEVNULL) == 0
print('base build', build(units) and link(), flush=True)
deps = {}
def users(h): # translation units which include a header, by preprocessor
    if not deps:
        for f, c in compile_cmds(units):
            c2 = [x for x in c if x not in TS]; i = c2.index('-c')
            t = subprocess.run(c2[:i] + ['-MM', c2[i + 1]], capture_output=True, text=True).stdout
            deps[f] = {os.path.normpath(x) for x in t.split()}
    return [f for f in deps if os.path.join(repo, h) in deps[f]]
def mutate(line):
    r = []
    st = line.strip()
    if not st or st.startswith(('//', '#', '*', '/*', 'namespace', 'using', 'template', 'static_assert', 'assert', 'friend', 'typedef')): return r
    code = line.split('//')[0]
    if code.rstrip().endswith(';') and not re.match(r'\s*(return|break|continue|}|const |auto |virtual|extern|explicit)', code):
        if '(' in code or '=' in code or '++' in code or '--' in code: r.append(('delete', ''))
    if re.match(r'\s*(auto|const auto).*lock', code): r.append(('delete-lock', ''))
    m = re.search(r'\bif \((.*)\)', code)
    if m and 'constexpr' not in code:
        r.append(('negate', code[:m.start(1)] + '!(' + m.group(1) + ')' + code[m.end(1):]))
        r.append(('never', code[:m.start(1)] + 'false && (' + m.group(1) + ')' + code[m.end(1):]))
        r.append(('always', code[:m.start(1)] + 'true || (' + m.group(1) + ')' + code[m.end(1):]))
    for x, y in [(' < ', ' <= '), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), ('true', 'false'), ('false', 'true'),
                 ('memory_order_acquire', 'memory_order_relaxed'), ('memory_order_release', 'memory_order_relaxed'), ('memory_order_acq_rel', 'memory_order_relaxed'), ('unique_lock', 'shared_lock'), ('begin()', 'end()'), ('++', '--'), ('--', '++'), (' = 0', ' = 1'), ('continue;', 'break;'), ('break;', 'continue;'), ('front()', 'back()'), ('back()', 'front()'), (' <= ', ' < '), (' >= ', ' > '), ('rbegin', 'begin'), ('rend', 'end'), ('std::move(', '('), ('+= ', '-= '), ('-= ', '+= ')]:
        for m in re.finditer(re.escape(x), code):
            r.append((x.strip() + '->' + y.strip(), code[:m.start()] + y + code[m.end():]))
    m = re.match(r'(\s*)return (.*);', code)
    if m and m.group(2) not in ('true', 'false') :
        pass
    return r
ms = []
for f in src_files():
    if a.files and not any(x in f for x in a.files.split(',')): continue
    lines = open(repo + '/' + f).read().split('\n')
    for i, l in enumerate(lines):
        if a.only and a.only != '%s:%d' % (f, i + 1): continue
        for k, n in mutate(l): ms.append((f, i, k, n))
random.Random(a.seed).shuffle(ms)
ms = ms[:a.max]
done = set()
res = S + '/results.jsonl'
if os.path.exists(res):
    for l in open(res): d = json.loads(l); done.add((d['file'], d['line'], d['kind'], d['new']))
print(len(ms), 'mutants', flush=True)
for f, i, k, n in ms:
    if (f, i + 1, k, n.strip()) in done: continue
    p = repo + '/' + f
    old = open(p).read()
    lines = old.split('\n')
    was = lines[i]
    lines[i] = n
    open(p, 'w').write('\n'.join(lines))
    todo = [f] if f.endswith(('.cpp', '.c')) else users(f)
    st, why = 'survived', ''
    try:
        if not build(todo): st = 'no-compile'
        elif not link(): st = 'no-link'
        else:
            for pr in a.props.split(','):
                q = subprocess.run([S + '/dsim', 'check', '--raw', '--property', pr, '--time', str(a.time), '--jobs', a.jobs], capture_output=True, text=True)
                if q.returncode == 1: st = 'killed'; why = pr + ' ' + q.stdout.split('\n')[1][:200]; break
                if q.returncode != 0: st = 'error'; why = pr + ' ' + (q.stderr or q.stdout)[:300]; break
    finally:
        open(p, 'w').write(old)
        if st != 'no-compile' or True: build(todo) if len(todo) <= 3 else None
    if len(todo) > 3: build(todo)
    d = {'file': f, 'line': i + 1, 'kind': k, 'was': was.strip(), 'new': n.strip(), 'status': st, 'why': why}
    open(res, 'a').write(json.dumps(d) + '\n')
    print(st, f, i + 1, k, was.strip()[:80], '=>', n.strip()[:80], '|', why[:120], flush=True)
