#!/usr/bin/env python3
"""mutate.py FILE... [--n N] [--seed K] [--workers W] [--out LOG]: small mechanical changes to sources of a copy of the
repository, each run through the checks that look at the file; lists the changes no check notices.  A development aid:
no check uses it.  Everything happens in /tmp/mut."""
import importlib.machinery, importlib.util, os, random, re, shutil, subprocess, sys, threading, queue, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = '/tmp/mut'; R = B + '/repo'; BASE = B + '/base'
os.environ['VERIF_REPO'] = R
def load():
    l = importlib.machinery.SourceFileLoader('chk', V + '/check'); m = importlib.util.module_from_spec(importlib.util.spec_from_loader('chk', l)); l.exec_module(m); return m
def mask(s):
    """s with comments, strings and preprocessor lines blanked"""
    o = list(s); i = 0; n = len(s)
    def blank(a, b):
        for k in range(a, b):
            if o[k] != '\n': o[k] = ' '
    while i < n:
        if s.startswith('//', i): j = s.find('\n', i); j = n if j < 0 else j; blank(i, j); i = j
        elif s.startswith('/*', i): j = s.find('*/', i); j = n if j < 0 else j + 2; blank(i, j); i = j
        elif s[i] == '"':
            j = i + 1
            while s[j] != '"': j += 2 if s[j] == '\\' else 1
            blank(i, j + 1); i = j + 1
        elif s[i] == "'":
            j = i + 1
            while s[j] != "'": j += 2 if s[j] == '\\' else 1
            blank(i, j + 1); i = j + 1
        elif s[i] == '#' and s[:i].rstrip(' \t').endswith('\n'):
            j = i
            while True:
                k = s.find('\n', j); k = n if k < 0 else k
                if s[k - 1] == '\\': j = k + 1; continue
                break
            if re.match(r'#[ \t]*if 0\b', s[i:]) or re.match(r'#[ \t]*ifndef NDEBUG\b|#[ \t]*ifdef SLIP_GMP_MEMORY_DEBUG\b', s[i:]):
                d = 0; k = i
                while True:
                    e = s.find('\n', k); e = n if e < 0 else e; w = s[k:e].strip()
                    if re.match(r'#[ \t]*if', w): d += 1
                    elif re.match(r'#[ \t]*endif', w): d -= 1
                    if d == 0 or e >= n or d == 1 and re.match(r'#[ \t]*else', w): k = e; break
                    k = e + 1
            blank(i, k); i = k
        elif i and not s[i - 1].isalnum() and re.match(r'(ASSERT|AMD_DEBUG\d|DEBUG\d) *\(', s[i:]):   # compiled out
            d = 0; k = s.index('(', i)
            while True:
                d += (s[k] == '(') - (s[k] == ')'); k += 1
                if d == 0: break
            k = s.index(';', k) + 1; blank(i, k); i = k
        else: i += 1
    return ''.join(o)
OPS = [(r'SLIP_GMP(Z|Q|FR)_WRAPPER_START \([^)]*\)', 'SLIP_GMP_WRAPPER_START'), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+ ?1\b', '+ 0'), (r'- ?1\b', '- 0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'= 0 ?;', '= 1 ;'), (r'= 1 ?;', '= 0 ;'), (r'\* ', '/ '), (r'\+\+', '--'), (r'! ?(?=[a-zA-Z(])', ''), (r'\bSLIP_MAX\b', 'SLIP_MIN'), (r'\bSLIP_MIN\b', 'SLIP_MAX'), (r'\bMAX\b', 'MIN'), (r'\bMIN\b', 'MAX'), (r' >> ', ' << '), (r'\bcontinue ?;', 'break ;'), (r'\bbreak ?;', 'continue ;'), (r'\bi\b(?=\])', 'k'), (r'\bj\b(?=\])', 'i'), (r'->m\b', '->n'), (r'->n\b', '->m'), (r'\bEMPTY\b', '0'), (r'= NULL', '= (void *) 8')]
STMT = re.compile(r'^[ \t]*(?!return|else|case|break|continue|goto|int|double|char|bool|size_t|int64_t|Int|SLIP_\w+ ?\*|SLIP_info|static|const|void|if|for|while|switch|mp[zqf]\w*_t|\}|\{)[^\n{}]*;[ \t]*$', re.M)
def mutants(f):
    s = open(f).read(); m = mask(s); res = []
    b0 = m.find('{')
    for pat, rep in OPS:
        for x in re.finditer(pat, m):
            if x.start() > b0: res.append((x.start(), x.end(), rep))
    for x in STMT.finditer(m):
        if x.start() > b0 and x.group().strip(' ;\t'):
            a = m[:x.start()].rstrip()
            if a and a[-1] in ';{})': res.append((x.start(), x.end(), ' ;'))
    return s, sorted(set(res))
FINE = [('LU_analyze', 'S05 S16 S20 S13 S14'), ('analysis_free', 'S15 S13'), ('LU_factorize', 'S03 S02 S16 S01 S13 S14'), ('LU_solve', 'S01 S21 S16 S12 S20 S13 S14'), ('SLIP_backslash', 'S06 S16 S20 S01 S13 S14'),
       ('SLIP_(calloc|malloc|realloc|free)\\.', 'S17 S15'), ('default_options|finalize|initialize', 'S15 S20'), ('matrix_allocate', 'S11 S16 S14 S13'), ('matrix_check', 'S10 R02 S16 S20 S13 S14'), ('matrix_copy', 'S07 S16 S13 S14'), ('matrix_free', 'S11 S15 S13'), ('matrix_nnz', 'S11 S16'),
       ('slip_(back_sub|forward_sub|matrix_div|matrix_mul|permute)', 'S01 S12 S13 S14'), ('cast_array', 'S07 S09 S06 S08 S13 S14'), ('cast_matrix|create_mp|cumsum', 'S07 S13 S14'), ('check_solution', 'S21 S13 S14'), ('slip_(dfs|reach|ref_tri|sparse)', 'S03 S02 S13 S14'), ('expand', 'S08 S07 S13 S14'), ('pivot', 'S04 S02 S13 S14')]
FINE = [('SLIP_LU/Source/.*' + p if not p.startswith('SLIP_(') else 'SLIP_LU/Source/' + p, c) for p, c in FINE]
REL = FINE + [('AMD/Source/.*\\.f', 'A08'), ('^AMD/Source|^AMD/Include', 'A01 A02 A03 A04 A05 A06 A07 R01 S05 M02'), ('AMD/MATLAB|COLAMD/MATLAB', 'M02'), ('COLAMD/', 'C02 C06 C03 C01 C05 C04 R01 M02'), ('SuiteSparse_config', 'G01 G02 S17 S16 S15 S13 S14 A01 C01 A06 C06 R01'), ('SLIP_LU/Demo', 'D01 D02 D03'), ('SLIP_LU/MATLAB', 'M01'),
       ('SLIP_gmp', 'S18 S19 S07 S15 R02'), ('SLIP_LU/', 'S09 S05 S11 S10 S15 S16 S17 S08 S07 S21 S20 R02 S02 S03 S06 S13 S14 S12 D01 D03 S01 S04')]
def main():
    a = sys.argv[1:]; n = 40; seed = 1; W = 2; out = B + '/log'; files = []; jobs = 4
    while a:
        x = a.pop(0)
        if x == '--n': n = int(a.pop(0))
        elif x == '--seed': seed = int(a.pop(0))
        elif x == '--workers': W = int(a.pop(0))
        elif x == '--jobs': jobs = int(a.pop(0))
        elif x == '--out': out = a.pop(0)
        else: files.append(x)
    C = load(); rnd = random.Random(seed)
    from concurrent.futures import ThreadPoolExecutor
    if not os.path.exists(BASE + '/done'):
        shutil.rmtree(B + '/repo', ignore_errors=True); shutil.rmtree(BASE, ignore_errors=True); os.makedirs(BASE)
        subprocess.check_call(['git', 'clone', '-q', '/repo', R])
        todo = []
        for nm, pre, f in C.units(''): todo.append(['gcc'] + C.CFLAGS + pre + C.INC + ['-c', f, '-o', '%s/%s.o' % (BASE, nm)]); todo.append(['gcc'] + C.CFLAGS + pre + ['-DMATLAB_MEX_FILE', '-I%s/mexmock' % C.MC] + C.INC + ['-c', f, '-o', '%s/m_%s.o' % (BASE, nm)])
        for h in sorted(set(C.HARNESS.values())) + ['mc', 'slipx', 'lu']: todo.append(['g++'] + C.CXXFLAGS + C.INC + ['-c', '%s/%s.cpp' % (C.MC, h), '-o', '%s/%s.o' % (BASE, h)])
        for cmd in others(C): todo.append(cmd[1] + ['-c', cmd[2], '-o', '%s/%s.o' % (BASE, cmd[0])])
        with ThreadPoolExecutor(8) as ex:
            for c, (rc, o) in zip(todo, ex.map(C.sh, todo)):
                if rc: print(c, o); sys.exit(1)
        open(BASE + '/done', 'w').write('')
    jobsl = []
    for f in files:
        s, ms = mutants(R + '/' + f); 
        for k in rnd.sample(range(len(ms)), min(n, len(ms))): jobsl.append((f, ms[k]))
    rnd.shuffle(jobsl); q = queue.Queue(); [q.put(j) for j in jobsl]; lock = threading.Lock(); stat = {}
    log = open(out, 'a')
    def work(w):
        while True:
            try: f, (a, b, rep) = q.get_nowait()
            except queue.Empty: return
            t = time.time(); r = one(C, f, a, b, rep, w, jobs); s = open(R + '/' + f).read(); ln = s.count('\n', 0, a + (len(s[a:b]) - len(s[a:b].lstrip()) if rep == ' ;' else 0)) + 1; line = s.split('\n')[ln - 1].strip()
            with lock: stat[r.split()[0]] = stat.get(r.split()[0], 0) + 1; log.write('%s\t%s:%d\t%s\t[%s -> %s]\t%.0fs\n' % (r, f, ln, line, s[a:b].strip(), rep.strip(), time.time() - t)); log.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
    print(stat)
def others(C):
    M = R + '/SLIP_LU/MATLAB'; mx = ['gcc'] + C.CFLAGS + ['-DMATLAB_MEX_FILE', '-I%s/mexmock' % C.MC] + C.INC + ['-I' + M + '/Source']
    o = [('f_amd.f', ['gfortran', '-O1', '-g1', '-w', '-fsanitize=address'], R + '/AMD/Source/amd.f', 'h_f77'), ('f_amdbar.f', ['gfortran', '-O1', '-g1', '-w', '-fsanitize=address'], R + '/AMD/Source/amdbar.f', 'h_f77'),
         ('demos', ['gcc'] + C.CFLAGS + C.INC, R + '/SLIP_LU/Demo/demos.c', 'h_demo'), ('sliplu', ['gcc'] + C.CFLAGS + C.INC + ['-Dmain=sliplu_main', '-DSLIP_initialize=sliplu_initialize'], R + '/SLIP_LU/Demo/SLIPLU.c', 'h_demo')]
    import glob
    for n, f in [('slip', M + '/SLIP_mex_soln.c'), ('amd', R + '/AMD/MATLAB/amd_mex.c'), ('colamd', R + '/COLAMD/MATLAB/colamdmex.c'), ('symamd', R + '/COLAMD/MATLAB/symamdmex.c')] + [('', f) for f in sorted(glob.glob(M + '/Source/*.c'))]:
        o.append(('mex_' + os.path.basename(f), mx + (['-DmexFunction=%s_mexFunction' % n] if n else []), f, 'h_mex'))
    return o
def one(C, f, a, b, rep, w, jobs):
    D = '%s/w%d' % (B, w); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    s = open(R + '/' + f).read(); src = '%s/%s' % (D, os.path.basename(f)); open(src, 'w').write(s[:a] + rep + s[b:]); full = R + '/' + f; over = {}
    inc = ['-I' + os.path.dirname(full)]
    for nm, pre, g in C.units(''):
        if g == full:
            for m, x in (('', []), ('m_', ['-DMATLAB_MEX_FILE', '-I%s/mexmock' % C.MC])):
                o = '%s/%s%s.o' % (D, m, nm); rc, t = C.sh(['gcc'] + C.CFLAGS + pre + x + C.INC + inc + ['-c', src, '-o', o]); 
                if rc: return 'nocompile'
                over[m + nm] = o
    for nm, cmd, g, h in others(C):
        if g == full:
            o = '%s/%s.o' % (D, nm); rc, t = C.sh(cmd + inc + ['-c', src, '-o', o])
            if rc: return 'nocompile'
            over[nm] = o
    if not over: return 'nofile'
    if all(subprocess.run(['cmp', '-s', over[n], '%s/%s.o' % (BASE, n)]).returncode == 0 for n in over): return 'same'
    rel = next(r for p, r in REL if re.search(p, f)).split(); exes = {}
    env = dict(os.environ); env['LC_ALL'] = 'C'; env['MC_TMP'] = D
    for p in rel:
        h = C.HARNESS[p]
        if h not in exes:
            ob = ['mc', 'slipx', h] + {'h_lu': ['lu'], 'h_hist': ['lu'], 'h_oom': ['lu']}.get(h, []) + [x[0] for x in others(C) if x[3] == h] + [('m_' if h == 'h_mex' else '') + u[0] for u in C.units('')]
            rc, t = C.sh(['g++', '-fsanitize=address'] + [over.get(x, '%s/%s.o' % (BASE, x)) for x in ob] + ['-lmpfr', '-lgmp', '-lm', '-lpthread'] + (['-lgfortran'] if h == 'h_f77' else []) + ['-o', D + '/' + h])
            if rc: return 'nolink'
            exes[h] = D + '/' + h
        js = D + '/o.json'; kf = D + '/known'; open(kf, 'w').write(''.join(k + '\n' for k in C.known_entries(p)))
        try: r = subprocess.run([exes[h], '--prop', p, '--tier', 'quick', '--out', js, '--jobs', str(jobs), '--known', kf, '--budget', '150'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
        except subprocess.TimeoutExpired: return 'caught %s(timeout)' % p
        if r.returncode not in (0, 1) or not os.path.exists(js): return 'caught %s(rc %d)' % (p, r.returncode)
        if any(not v['known'] for v in json.load(open(js))['violations']): return 'caught ' + p
        os.remove(js)
    return 'SURVIVED'
main()
