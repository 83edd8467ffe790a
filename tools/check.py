#!/usr/bin/env python3
"""Decides one property: builds, explores its harnesses symbolically, replays what was found.

usage: check.py PROPERTY        (VERIF_TIER=quick|thorough, VERIF_SEED)
exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: no verdict.
"""
import json, os, pwd, random, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from harnesses import PROPS

T = os.environ.get('VTARGET', os.path.join(V, 'target'))
PSYM = T + '/engine/release/psym'
PH = T + '/replay/replay/pharness'
LL = T + '/bc/all.ll'


def known_findings(prop):
    """Lines 'finding: property=<id> harness=<name> :: <start of the message>'; 'fixed:' lines suppress nothing."""
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                head, msg = l.split(' :: ', 1)
                out.append((head.split('harness=')[1].split()[0], msg))
    return out


def replay(harness, assign, deep, timeout=60):
    """Runs the harness natively on an assignment, as an unprivileged user in a scratch directory."""
    d = tempfile.mkdtemp(prefix='pharness')
    try:
        os.chmod(d, 0o755)
        w = d + '/w'
        os.mkdir(w)
        shutil.copy(PH, d + '/pharness')
        os.chmod(d + '/pharness', 0o755)
        with open(d + '/a', 'w') as f:
            for k, v in assign:
                f.write('%s %d\n' % (k, v))
        os.chmod(d + '/a', 0o644)
        kw = {}
        if os.getuid() == 0:
            u = pwd.getpwnam('nobody')
            os.chown(w, u.pw_uid, u.pw_gid)
            kw = dict(user=u.pw_uid, group=u.pw_gid, extra_groups=[])
        env = dict(PATH='/usr/bin:/bin', HOME=w, PHARNESS_DEEP='1' if deep else '0')
        try:
            p = subprocess.run([d + '/pharness', harness, d + '/a'], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True, **kw)
            out, code = p.stdout.decode('utf8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as e:
            out, code = (e.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT', 99
        return out, code
    finally:
        shutil.rmtree(d, ignore_errors=True)


def outcome(out, code):
    last = ''
    for l in out.splitlines():
        for k in ('DONE', 'VIOLATED', 'BLOCKED', 'ASSUME', 'ERROR', 'PANIC', 'TIMEOUT'):
            if l.startswith(k):
                last = l
    if code == -signal.SIGABRT and not last.startswith('VIOLATED'):
        return 'PANIC ' + ' '.join(x for x in out.splitlines() if 'panicked' in x)[:300]
    if code in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
        return 'PANIC signal %d' % -code
    return last


def observations(out):
    r = []
    for l in out.splitlines():
        if l.startswith('OBS '):
            _, n, v = l.rsplit(' ', 2) if l.count(' ') > 2 else l.split(' ')
            r.append([n, int(v)])
    return r


def demangle(names):
    """the functions of possum (and instances of library code for its types) among the names"""
    r = subprocess.run(['c++filt'], input='\n'.join(sorted(names)).encode(), stdout=subprocess.PIPE).stdout.decode('utf8', 'replace').splitlines()
    import re
    r = {re.sub(r'\[[0-9a-f]{16}\]|::h[0-9a-f]{16}$', '', x) for x in r}
    return sorted(x for x in r if x.startswith('possum') or x.startswith('<possum'))


# (for trying the executor: this many samples of each harness are run natively)
SOAK = int(os.environ.get('VSOAK', '0'))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rnd = random.Random(seed)
    deep = tier == 'thorough'
    t0 = time.time()
    spec = PROPS[prop]
    b = subprocess.run(['bash', V + '/tools/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    sys.stdout.write(b.stdout.decode('utf8', 'replace'))
    if b.returncode != 0:
        print('the build failed')
        return 2
    t_build = time.time() - t0
    ev_dir = V + '/evidence'
    os.makedirs(ev_dir + '/replays', exist_ok=True)
    hs = [h for h in spec['harnesses'] if deep or not h.get('deep_only')]
    budget = spec.get('thorough_s', 3000) if deep else spec.get('quick_s', 480)
    tot = dict(paths=0, forks=0, steps=0, queries=0, sat=0, unsat=0, solver_s=0.0, max_query_s=0.0)
    functions, samples, notes, confirmed, unconfirmed, mism = set(), [], [], [], [], []
    validated, complete, findings_hit, unsup, bounds = 0, True, set(), 0, []
    per = []
    err = None
    known = known_findings(prop)
    weight = sum(h.get('weight', 1) for h in hs)
    for h in hs:
        name = h['name']
        left = budget - (time.time() - t0 - t_build)
        mine = max(20, left * h.get('weight', 1) / weight)
        weight -= h.get('weight', 1)
        mine = min(mine, h.get('max_s', 10**9))
        out = T + '/out-%s-%s.jsonl' % (prop, name)
        if os.path.exists(out):
            os.remove(out)
        kf = T + '/known-%s' % prop
        with open(kf, 'w') as f:
            for hn, msg in known:
                if hn == name:
                    f.write(msg + '\n')
        cmd = [PSYM, '--entry=' + name, '--ll=' + LL, '--out=' + out, '--time=%d' % mine, '--jobs=8', '--known=' + kf, '--deep=%d' % deep] + (['--every=%s' % os.environ.get('VSOAK_EVERY', '50')] if SOAK else []) + h.get('args', [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines = p.stdout.decode('utf8', 'replace').strip().splitlines()
        try:
            s = json.loads(lines[-1])
        except Exception:
            err = '%s: the executor gave no result (exit %d): %s' % (name, p.returncode, p.stderr.decode('utf8', 'replace')[-800:])
            print(err)
            continue
        for k in ('paths', 'forks', 'steps', 'queries', 'sat', 'unsat', 'solver_s'):
            tot[k] += s[k]
        tot['max_query_s'] = max(tot['max_query_s'], s['max_query_s'])
        functions |= set(s['functions'])
        if s['died']:
            err = '%s: a worker died: %s' % (name, p.stderr.decode('utf8', 'replace')[-800:])
            print(err)
        if s['incomplete'] and not s['violations']:
            complete = False
        viol, smp, labels = [], [], set()
        for l in open(out):
            try:
                d = json.loads(l)
            except Exception:
                continue
            k = d['kind']
            if k == 'reach':
                labels.add(d['msg'])
            elif k == 'sample':
                smp.append(d)
            elif k == 'violation':
                viol.append(d)
            elif k == 'known':
                viol.append(dict(d, known=True))
            elif k == 'unsupported':
                unsup += 1
                notes.append('%s: not explored: %s at %s' % (name, d['msg'], str(d.get('place'))[-300:]))
        bounds.append('%s: %s' % (name, h['bounds_deep'] if deep and 'bounds_deep' in h else h['bounds']))
        per.append(dict(harness=name, paths=s['paths'], queries=s['queries'], unsat=s['unsat'], solver_s=s['solver_s'], wall_s=s['wall_s'], complete=not s['incomplete'], labels=sorted(labels)))
        print('%s: %d paths, %d queries (%d unsat), %.1f s solver, %.1f s%s' % (name, s['paths'], s['queries'], s['unsat'], s['solver_s'], s['wall_s'], '' if not s['incomplete'] else ' (not complete)'))
        # what the executor found, on the real code
        seen_msgs = {}
        for d in viol:
            m = d['msg']
            if seen_msgs.get(m, 0) >= 2:
                continue
            o, code = replay(name, d['vars'], deep)
            oc = outcome(o, code)
            ok = oc.startswith('VIOLATED') or oc.startswith('PANIC') or oc.startswith('BLOCKED') and 'stuck' in m
            rec = dict(property=prop, harness=name, message=m, place=d.get('place'), assignment=d['vars'], native=oc, native_output=o[-3000:], how='pharness %s FILE in an empty directory, FILE holding the assignment one "name value" per line' % name)
            if d.get('known'):
                if ok:
                    findings_hit.add((name, next(x for hn, x in known if hn == name and m.startswith(x))))
                continue
            if ok:
                seen_msgs[m] = seen_msgs.get(m, 0) + 1
                path = '%s/replays/%s-%d.json' % (ev_dir, prop, len(confirmed))
                with open(path, 'w') as f:
                    json.dump(rec, f, indent=1)
                confirmed.append((path, m, oc))
                print('  %s: %s' % (name, m))
                print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            else:
                unconfirmed.append(rec)
                print('  %s: "%s" did not show natively (%s)' % (name, m, oc))
        # the executor against the real code, on paths that ended well
        n = SOAK or h.get('validate', 6)
        rnd.shuffle(smp)
        for d in smp[:n]:
            o, code = replay(name, d['vars'], deep)
            oc = outcome(o, code)
            if oc.startswith('DONE') and observations(o) == [[a, b] for a, b in d['obs']]:
                validated += 1
                if len(samples) < 8:
                    samples.append(dict(harness=name, assignment=d['vars'], observed=d['obs'][:12], native='agrees'))
            else:
                mism.append('%s %s: native says %s' % (name, d['vars'], oc))
                print('  mismatch: ' + mism[-1] + '\n' + o[-500:] + str(d['obs']))
        for want in h.get('labels', []):
            if want not in labels and not viol and not s['incomplete']:
                err = '%s: "%s" is never reached' % (name, want)
                print(err)
        if confirmed and not deep:
            break
    for hn, msg in sorted(findings_hit):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, hn, msg))
    wall = time.time() - t0
    cov = dict(
        states=tot['paths'],
        transitions=tot['steps'],
        traces_validated_against_impl=validated,
        samples=samples,
        exhaustive=complete and unsup == 0,
        explanation='states: symbolic paths ended (each stands for every input satisfying its path condition); transitions: LLVM instructions executed symbolically',
        bounds=bounds,
        functions_encoded=demangle(functions),
        queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'],
        forks=tot['forks'], solver_s=round(tot['solver_s'], 3), max_query_s=tot['max_query_s'],
        harnesses=per, not_explored=notes[:20], mismatches=mism, build_s=round(t_build, 1),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=spec.get('assumptions', []) + COMMON, wall_s=round(wall, 2), violations=len(confirmed))
    with open('%s/%s.json' % (ev_dir, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    if confirmed:
        return 1
    if unconfirmed or mism or err or tot['paths'] == 0:
        print('no verdict')
        return 2
    print('%s held: %d paths, %d queries, %d replayed natively, %.0f s' % (prop, tot['paths'], tot['queries'], validated, wall))
    return 0


COMMON = [
    'the file system, locks, threads, clock and mmap are a model of Linux (engine/src/kern.rs, ext.rs) checked against native runs on sampled paths, not the kernel itself',
    'memory allocation does not fail; bytes of values are opaque and pairwise distinct from each other',
    'SQLite is the bundled 3.44 compiled to LLVM IR and executed; only its WAL checksum loop is replaced by an equivalent function over the same bytes',
]

if __name__ == '__main__':
    sys.exit(main())
