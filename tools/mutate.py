#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl [--n=N] [--workers=K] [--seed=S] [--files=a,b]: measuring only.
Makes small random changes to copies of /repo's sources, runs the simulator on each, and lists which are noticed."""
import os, re, sys, random, subprocess, json, shutil, threading, queue, time
A = dict(a[2:].split('=', 1) for a in sys.argv[2:]); OUT = sys.argv[1]
N = int(A.get('n', 400)); K = int(A.get('workers', 6)); random.seed(int(A.get('seed', 1)))
R = '/repo'; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {'unix.c', 'mdb.c', 'globals.c', 's_version.c', 'murgil.c'}
cm = open(R + '/CMakeLists.txt').read()
files = [f for f in re.findall(r'(?:server|pktserv)/[a-zA-Z0-9_]*\.c', cm) if os.path.basename(f) not in SKIP]
files = sorted(set(files))
if 'files' in A: files = [f for f in files if any(x in f for x in A['files'].split(','))]
unc = set()
if os.path.exists('/tmp/covout/uncovered.txt'):
    for l in open('/tmp/covout/uncovered.txt'):
        m = re.match(r'(\S+):(\d+) (\d+)/(\d+)', l)
        if m and m.group(3) == '0': unc.add((m.group(1), int(m.group(2))))
OPS = [
    (r'(?<![<>=!-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
    (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[ (])!(?=[a-z(])', ''), (r'\bif \((.*)\)\s*(\{?)$', r'if (!(\1)) \2'), (r'\bif \((.*)\)\s*(\{?)$', r'if (1) \2'), (r'\bif \((.*)\)\s*(\{?)$', r'if (0) \2'),
    (r'\bstrcasecmp\b', 'strcmp'), (r'\bstrncmp\b', 'strncasecmp'), (r'\bstrcmp\b', 'strcasecmp'),
    (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1)),
    (r'\bn_(invites|talk|notifies)\b', r's_\1'), (r'\bpri_', 'pub_'), (r'\bpub_', 'pri_'), (r'\bMAX_REAL_USERS\b', '1'), (r'\+\+', '--'), (r'\bt_recv\b', 't_sent'), (r'\bt_on\b', 't_recv'),
    (r'(?<=\w) \+ (?=\w)', ' - '), (r'(?<=\w) - (?=\w)', ' + '), (r'\bbreak;', ';'), (r'\breturn\s*\(?-1\)?;', ';'), (r'\breturn;', ';'),
    (r'\bSUPERSECRET\b', 'SECRET'), (r'\bSECRET\b', 'SUPERSECRET'), (r'\bLOGIN_COMPLETE\b', 'LOGIN_PENDING'), (r'\bLOGIN_FALSE\b', 'LOGIN_PENDING'),
    (r'^(\s*)[A-Za-z_][\w\[\]\.\->]*\s*(=|\+\+|--|\()[^;]*;\s*$', r'\1;'),
]
M = []
for f in files:
    L = open(f'{R}/{f}').read().split('\n'); com = False
    for i, l in enumerate(L):
        t = l.strip()
        if com:
            if '*/' in t: com = False
            continue
        if t.startswith('/*') and '*/' not in t: com = True; continue
        if not t or t[0] in '#/*' or 'mdb' in t or 'mbuf, "[' in t or t.startswith('static') or t.startswith('extern') or re.match(r'(int|char|long|time_t|struct|unsigned|size_t|void|const|DBM|datum)\b', t) or (f, i + 1) in unc: continue
        for k, (p, r) in enumerate(OPS):
            for m in re.finditer(p, l):
                if l[:m.start()].count('"') % 2: continue
                nl = l[:m.start()] + m.expand(r) + l[m.end():] if isinstance(r, str) else l[:m.start()] + r(m) + l[m.end():]
                if nl != l: M.append((f, i + 1, k, l, nl))
random.shuffle(M); print(len(M), 'possible'); M = M[:N]
q = queue.Queue()
for m in M: q.put(m)
lock = threading.Lock(); out = open(OUT, 'a'); done = [0, 0]
BASE = A.get('base', '/tmp/mutb')
shutil.rmtree(BASE, ignore_errors=True); subprocess.run([V + '/build.sh', BASE], check=True)
sh = open(V + '/build.sh').read()
CF = re.search(r'CF="(.*?)"', sh).group(1)
WR = sorted(set(re.findall(r'__wrap_([A-Za-z0-9_]*)', open(V + '/sim/kernel.cc').read())))
def run(w):
    D = f'/tmp/mutw{w}'; shutil.rmtree(D, ignore_errors=True); shutil.copytree(BASE, D + '/b'); shutil.copytree(R, D + '/r', ignore=shutil.ignore_patterns('_build', '.git'))
    cf = CF.replace('$O', D + '/b').replace('$R', D + '/r').split()
    while True:
        try: f, ln, k, l, nl = q.get_nowait()
        except queue.Empty: break
        src = open(f'{R}/{f}').read().split('\n'); src[ln - 1] = nl; open(f'{D}/r/{f}', 'w').write('\n'.join(src))
        o = D + '/b/o/' + ('s_' if f.startswith('server') else 'p_') + os.path.basename(f) + '.o'
        keep = BASE + '/o/' + os.path.basename(o); res = {'f': f, 'line': ln, 'old': l.strip(), 'new': nl.strip()}
        gcc = ['gcc'] + cf + (['-DPKTSERV_INTERNAL'] if f.startswith('pkt') else []) + ['-c', f'{D}/r/{f}', '-o']
        new = open(f'{D}/r/{f}').read(); shutil.copy(f'{R}/{f}', f'{D}/r/{f}'); subprocess.run(gcc + [D + '/base.o']); open(f'{D}/r/{f}', 'w').write(new)
        c = subprocess.run(['gcc'] + cf + (['-DPKTSERV_INTERNAL'] if f.startswith('pkt') else []) + ['-c', f'{D}/r/{f}', '-o', o], capture_output=True)
        if c.returncode: res['r'] = 'nocompile'
        elif open(o, 'rb').read() == open(D + '/base.o', 'rb').read(): res['r'] = 'same'
        else:
            objs = [f'{D}/b/o/{x}' for x in sorted(os.listdir(D + '/b/o')) if not x.startswith('x_')]
            subprocess.run(['gcc', '-shared', '-fsanitize=address,bounds', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + x for x in WR] + ['-o', D + '/b/icbd.0.so'] + objs + ['-lssl', '-lcrypto'], check=True)
            for i in range(1, 6): shutil.copy(D + '/b/icbd.0.so', D + f'/b/icbd.{i}.so')
            res['r'] = 'SURVIVED'; t0 = time.time()
            for p, s in [(0, 8)] + [(p, 3) for p in range(1, 26)]:
                try: subprocess.run([D + '/b/sim', 'batch', '--dir=' + D + '/b', f'--prop={p}', '--seed=%d' % (777 + p), f'--seconds={s}', '--stride=1', '--offset=0', '--replay=' + D + '/rep', '--out=' + D + '/o.json', '--sets=' + D + '/sets'], capture_output=True, timeout=200)
                except subprocess.TimeoutExpired: res['r'] = 'hang'; break
                b = json.load(open(D + '/o.json'))
                if b['rc'] or b['violations'] or b['foreign_detail'] or b['errors'] or b['mismatch']:
                    res['r'] = 'killed' if b['rc'] == 1 or b['violations'] or b['foreign_detail'] else 'error'; res['by'] = p; res['how'] = str((b.get('cls'), b.get('detail')) if b['rc'] == 1 else list(b['violations'])[:1] or list(b['foreign_detail'])[:1] or b['error_detail'])[:160]; break
            res['t'] = round(time.time() - t0, 1)
        shutil.copy(keep, o); shutil.copy(f'{R}/{f}', f'{D}/r/{f}')
        with lock: out.write(json.dumps(res) + '\n'); out.flush(); done[0] += 1; done[1] += res['r'] == 'SURVIVED'
    shutil.rmtree(D, ignore_errors=True)
T = [threading.Thread(target=run, args=(w,)) for w in range(K)]
[t.start() for t in T]; [t.join() for t in T]; print(done)
