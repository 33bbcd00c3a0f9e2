#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--seconds=N]

Builds the simulator with /repo's current sources, runs seeded simulations of the whole server on all cores for the
given property's workload and fault profile, and reports:
  exit 0  the property held in every simulated run
  exit 1  "VIOLATION property=<id> replay=<file>": the file replays exactly (confirmed in a fresh process)
  exit 2  the check itself could not do its work
The evidence file evidence/<id>.json is rewritten from what this run measured."""
import fcntl, json, os, re, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, 'build', 'main')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SECONDS = {'quick': 60, 'thorough': 660}
REAL = ['server/*.c and pktserv/*.c of /repo, all of them, unmodified, main() included (AddressSanitizer and bounds checks on)',
        'OpenSSL on both ends of TLS sessions (the server\'s SSL_* calls are the real library over a memory BIO fed by the simulator)',
        'C library other than the calls listed as stubs']
STUB = ['sockets, accept, poll, read, write, close, fcntl and socket options (simulated network with finite buffers)',
        'time, gettimeofday, signals and the resolver (simulated clock and DNS)',
        'open/stdio/rename/fsync of the server\'s files (simulated disk with volatile and durable contents)',
        'process exit and restart (a crashed server is started again from its durable files as a fresh image)',
        'chat clients (generated packets; every frame they receive is compared with the reference model)']


def known():
    p = os.path.join(V, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(C\d+) class=(\S+) match=/(.*)/ (.*)$', l)
            if m:
                out.append(m.groups())
    return out


def build():
    os.makedirs(os.path.join(V, 'build'), exist_ok=True)
    with open(os.path.join(V, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(V, 'build.sh'), B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:] + '\ncheck.py: the build failed\n')
        sys.exit(2)


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--') and '=' in a)
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    num = int(prop[1:])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    secs = float(opts.get('seconds', SECONDS[tier]))
    build()
    built = time.time()
    out = os.path.join(V, 'out', prop)
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        os.unlink(os.path.join(out, f))
    procs = []

    def stopall():
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        for p in procs:
            p.wait()

    for j in range(WORKERS):
        cmd = [B + '/sim', 'batch', '--dir=' + B, f'--prop={num}', f'--seed={seed}', f'--seconds={secs:g}', f'--stride={WORKERS}', f'--offset={j}',
               f'--replay={out}/violation.{j}', f'--out={out}/batch.{j}.json', f'--sets={out}/sets.{j}', '--minbudget=' + ('25' if tier == 'quick' else '60')]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f'{out}/err.{j}', 'w'), start_new_session=True))
    deadline = time.time() + secs + 180
    confirmed, unconfirmed, suppressed = None, [], []
    pending = set(range(WORKERS))
    while pending and not confirmed:
        time.sleep(0.1)
        if time.time() > deadline:
            break
        for j in sorted(pending):
            rc = procs[j].poll()
            if rc is None:
                continue
            pending.discard(j)
            if rc == 1:
                rep = f'{out}/violation.{j}'
                # gate: a fresh process must reproduce the same violation, with the same history hash, twice
                ok = all(subprocess.run([B + '/sim', 'replay', rep, '--dir=' + B], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(2))
                b = json.load(open(f'{out}/batch.{j}.json'))
                k = [x for x in known() if x[0] == prop and x[1] == b['cls'] and re.search(x[2], b['detail'])]
                if k:
                    suppressed.append(k[0])
                elif ok:
                    confirmed = (rep, b)
                    break
                else:
                    unconfirmed.append((j, b['cls'], b['detail']))
    stopall()
    bs = []
    for j in range(WORKERS):
        try:
            bs.append(json.load(open(f'{out}/batch.{j}.json')))
        except (OSError, ValueError):
            pass
    if not bs:
        sys.stderr.write('check.py: no worker finished\n')
        for j in range(WORKERS):
            sys.stderr.write(open(f'{out}/err.{j}').read()[-500:])
        sys.exit(2)
    S = lambda k: sum(b[k] for b in bs)
    st = {}
    for b in bs:
        for k, v in b['stats'].items():
            st[k] = st.get(k, 0) + v
    hashes, sigs = set(), set()
    for j in range(WORKERS):
        try:
            for l in open(f'{out}/sets.{j}'):
                (hashes if l[0] == 'h' else sigs).add(l[1:-1])
        except OSError:
            pass
        try:
            os.unlink(f'{out}/sets.{j}')
        except OSError:
            pass
    foreign = {}
    for b in bs:
        for k, v in b['foreign_detail'].items():
            foreign[k] = foreign.get(k, 0) + v
    simwall = max(b['wall'] for b in bs)
    names = list(st)   # the simulator lists the fault kinds first, then the situations, from "login" on
    cut = names.index('login') if 'login' in names else len(names)
    faults = {k: st[k] for k in names[:cut]}
    seen = {k: st[k] for k in names[cut:]}
    samples = []
    for b in bs:
        samples += b['samples'][:1]
    nviol = 1 if confirmed else 0
    cov = dict(
        evaluations=S('runs'), distinct_nontrivial=len(hashes),
        rule='One evaluation is one whole simulated execution of the server (start, many clients, faults, heal phase, final checks) from one seed. '
             'It counts as non-trivial when at least one obligation tagged with this property was checked in it and it ran to its end; distinct by the hash of the whole history (every system call result, dispatched packet and delivered frame).',
        samples=samples[:4],
        runs_per_hour=int(S('runs') / simwall * 3600), seeds=f'{seed}*1000003+k for k=0..{S("runs")} striped over {WORKERS} workers',
        simulated_seconds=S('sim_ms') // 1000, obligations_checked_for_this_property=S('obligations'),
        runs_with_an_obligation=S('relevant'), event_loop_turns=S('polls'), packets_dispatched=S('dispatches'), frames_compared=S('frames'),
        steps=S('steps'), system_calls=S('syscalls'), server_restarts_after_crash=S('restarts'),
        distinct_states=len(sigs), distinct_states_measure='hash of the model state abstracted to (users, groups, moderators, settings, pending queues) at each event-loop turn',
        faults_injected=faults, situations_reached=seen,
        determinism=dict(runs_repeated=S('twice'), mismatches=S('mismatch')),
        runs_ended_by_a_divergence_of_another_property=S('foreign'), other_property_divergences=dict(list(foreign.items())[:5]),
        harness_errors=S('errors'), unconfirmed=unconfirmed[:3],
        components_real=REAL, components_stub=STUB)
    if confirmed:
        cov['violation'] = dict(cls=confirmed[1]['cls'], detail=confirmed[1]['detail'], replay=confirmed[0])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=['the reference model in sim/model*.cc states the intended behaviour (see DESIGN.md)',
                           'the simulated kernel calls behave as POSIX allows; only the fault kinds listed are injected',
                           'table sizes are reduced (20 descriptors, 8 groups) so that limits are reached'],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {S("runs")} runs ({len(hashes)} distinct), {S("obligations")} obligations, {S("sim_ms")//1000} simulated s, build {built-t0:.1f} s, total {time.time()-t0:.1f} s')
    if S('mismatch') or unconfirmed:
        print('note: not deterministic:', [b['error_detail'] for b in bs if b['error_detail']][:3], unconfirmed[:3])
    for k in sorted(set(suppressed)):
        print(f'KNOWN-FINDING: property={prop} {k[3]}')
    if confirmed:
        print(confirmed[1]['cls'] + ': ' + confirmed[1]['detail'][:1500])
        print(f'VIOLATION property={prop} replay={confirmed[0]}')
        sys.exit(1)
    if S('ok') + S('foreign') == 0:
        sys.stderr.write('check.py: no run completed: ' + str([b['error_detail'] for b in bs][:2]) + '\n')
        sys.exit(2)
    sys.exit(0)


main()
