#!/usr/bin/env python3
"""Deterministic simulation checks of sugarme/tokenizer.

  check.py Cxx [--tier quick|thorough] [--seed N] [--secs S]   decide one property
  check.py replay FILE                                         reproduce a reported violation
  check.py build                                               build the simulator only
  check.py determinism [Cxx ...]                               run seeds twice, compare every event

Exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check itself.
"""
import argparse, fcntl, glob, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(VERIF, '.build')
GO = '/opt/veriftools/go1.24.13/bin/go'
DEPS = 'golang.org/x/sync@v0.14.0,github.com/patrickmn/go-cache@v2.1.0+incompatible'
NW = 8
EXPLORE = {'quick': 45.0, 'thorough': 540.0}

sys.path.insert(0, os.path.join(VERIF, 'tools'))


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GONOSUMDB='*', GONOSUMCHECK='1',
             CGO_ENABLED='1', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.path.join(B, 'gocache'),
             PATH='/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    return e


def build():
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ov = os.path.join(B, 'ov')
    shutil.rmtree(ov, ignore_errors=True)

    def run(cmd, cwd, may_fail=False):
        p = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if may_fail:
                return None
            die('building the simulator failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        return p.stdout
    run([GO, 'build', '-o', os.path.join(B, 'simgen'), '.'], os.path.join(VERIF, 'simgen'))
    gen = [os.path.join(B, 'simgen'), '-repo', REPO, '-out', ov, '-std', os.path.join(VERIF, 'simgen', 'std'), '-deps', DEPS]
    o = run(gen, VERIF)
    shutil.copy(os.path.join(VERIF, 'harness', 'go.mod'), os.path.join(B, 'go.mod'))
    sums = set()
    for f in (os.path.join(REPO, 'go.sum'), os.path.join(VERIF, 'harness', 'extra.sum')):
        if os.path.exists(f):
            sums |= set(open(f).read().splitlines())
    open(os.path.join(B, 'go.sum'), 'w').write('\n'.join(sorted(x for x in sums if x)) + '\n')
    comp = [GO, 'build', '-race', '-tags', 'verif', '-modfile=' + os.path.join(B, 'go.mod'), '-overlay', os.path.join(ov, 'overlay.json'),
            '-o', os.path.join(B, 'simh'), '.']
    if run(comp, os.path.join(VERIF, 'harness'), True) is None:
        # without the functions that reset package-level variables: not every declaration can be repeated
        shutil.rmtree(ov, ignore_errors=True)
        o = run(gen + ['-resets=false'], VERIF)
        run(comp, os.path.join(VERIF, 'harness'))
    # a private copy, so that a later build cannot replace it under a running check
    d = tempfile.mkdtemp(prefix='simrun.', dir=scratch_root())
    shutil.copy(os.path.join(B, 'simh'), os.path.join(d, 'simh'))
    shutil.copy(os.path.join(ov, 'sites.json'), os.path.join(d, 'sites.json'))
    lock.close()
    return d, {'build_s': round(time.time() - t0, 1), 'simgen': o.strip()}


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        try:
            if os.access(d, os.W_OK) and shutil.disk_usage(d).free > 1 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


class Proc:
    """One simulator process and its output so far."""

    def __init__(self, work, tag, args, proc=None):
        self.tag = tag
        self.out = os.path.join(work, 'out.' + tag)
        self.err = os.path.join(work, 'err.' + tag)
        self.race = os.path.join(work, 'race.' + tag)
        self.scr = os.path.join(work, 's.' + tag)
        for f in [self.out] + glob.glob(self.race + '.*'):
            if os.path.exists(f):
                os.remove(f)
        e = {'PATH': '/usr/bin:/bin', 'HOME': '/root', 'LANG': 'C', 'TZ': 'UTC', 'TMPDIR': self.scr,
             'GORACE': 'halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 atexit_sleep_ms=0 log_path=' + self.race}
        if proc:
            e['VS_PROC'] = str(proc)  # other random numbers at package initialisation, other hash seeds
        self.p = subprocess.Popen([os.path.join(work, 'simh'), '-scratch', self.scr, '-sites', os.path.join(work, 'sites.json'), '-out', self.out] + args,
                                  env=e, stdout=subprocess.DEVNULL, stderr=open(self.err, 'w'), cwd=work)
        self.pos = 0
        self.buf = b''
        self.last = time.time()
        self.begun = None

    def poll(self):
        """New complete output lines, and whether the process has ended."""
        done = self.p.poll() is not None
        lines = []
        try:
            with open(self.out, 'rb') as f:
                f.seek(self.pos)
                d = f.read()
        except FileNotFoundError:
            d = b''
        if d:
            self.pos += len(d)
            self.buf += d
            self.last = time.time()
            *ls, self.buf = self.buf.split(b'\n')
            for l in ls:
                x = json.loads(l)
                if x['t'] == 'B':
                    self.begun = x['i']
                lines.append(x)
        return lines, done

    def kill(self):
        try:
            self.p.kill()
        except ProcessLookupError:
            pass
        self.p.wait()
        shutil.rmtree(self.scr, ignore_errors=True)

    def stderr(self):
        return open(self.err, errors='replace').read()

    def races(self):
        s = ''
        for f in glob.glob(self.race + '.*'):
            s += open(f, errors='replace').read()
        return s


def death(stderr, rc):
    """Classifies the death of a simulator process."""
    for l in stderr.splitlines():
        if l.startswith('fatal error: ') or l.startswith('panic: ') or 'goroutine stack exceeds' in l or l.startswith('unexpected fault'):
            if 'out of memory' in l or 'cannot allocate' in l:
                return None
            return l.strip()
    return None


DIGEST = {'quick': 160, 'thorough': 1600}
STALL = 150
STALLMSG = 'the run does not end, and passes no statement of the library: a call never comes back'


def evaluate(work, cases, tag='e', nproc=NW, timeout=300, hang=0, extra=[]):
    """Runs cases in fresh processes. Results in order; {'died': why} for a death."""
    res = [None] * len(cases)
    if not cases:
        return res
    n = min(nproc, len(cases))
    parts = [list(range(k, len(cases), n)) for k in range(n)]

    def one(k):
        idx = parts[k]
        f = os.path.join(work, 'in.%s%d' % (tag, k))
        with open(f, 'w') as h:
            for i in idx:
                h.write(json.dumps(cases[i]) + '\n')
        frm = 0
        t0 = time.time()
        while frm < len(idx):
            p = Proc(work, '%s%d' % (tag, k), ['-mode', 'eval', '-in', f, '-from', str(frm)] + extra, cases[idx[0]].get('proc'))
            ended = stalled = False
            while True:
                lines, done = p.poll()
                for l in lines:
                    if l['t'] == 'E':
                        res[idx[l['i']]] = l['r']
                        l['r']['race_text'] = ''
                        frm = l['i'] + 1
                    elif l['t'] == 'D':
                        ended = True
                if done and not lines:
                    break
                if hang and time.time() - max(p.last, t0) > hang and frm < len(idx):
                    i = p.begun if p.begun is not None else frm
                    p.kill()
                    res[idx[i]] = {'died': 'stall', 'infra': False, 'stderr': '', 'violations': [{'class': 'stall', 'key': '', 'msg': STALLMSG}]}
                    stalled = True
                    break
                if time.time() - t0 > timeout:
                    p.kill()
                    return
                if not done:
                    time.sleep(0.01)
            if stalled:
                return
            rt = p.races()
            if rt and len(idx) == 1 and res[idx[0]]:
                res[idx[0]]['race_text'] = rt[:6000]
            err = p.stderr()
            rc = p.p.returncode
            p.kill()
            if not ended and frm < len(idx):
                i = p.begun if p.begun is not None else frm
                why = death(err, rc)
                res[idx[i]] = {'died': why or 'exit status %s' % rc, 'infra': why is None, 'stderr': err[-6000:], 'violations': [{'class': 'crash', 'key': '', 'msg': 'the process died: %s\n%s' % (why, err[:3000])}] if why else []}
                frm = i + 1
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(n)))
    return res


def load_known():
    known = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: '):
                w = l.split(None, 3)
                d = {'what': w[3].strip()}
                for x in w[1:3]:
                    k, v = x.split('=', 1)
                    d[k] = v
                known.append(d)
    return known


def split_known(prop, vs, known):
    new, old = [], []
    for v in vs:
        m = [k for k in known if k['property'] == prop and v.get('key') and k['key'] == v['key']]
        (old if m else new).append((v, m[0] if m else None))
    return [v for v, _ in new], [m for _, m in old]


def classes(res, prop, known):
    if not res:
        return set()
    new, _ = split_known(prop, res.get('violations') or [], known)
    return set(v['class'] for v in new)


def minimise(work, prop, case, res, cls, known, deadline, apart=False):
    """Shrinks the draws, then the schedule, keeping the violation class.

    apart: every candidate in a process of its own."""
    log = []

    def fails(cands):
        if apart:
            rs = []
            for k in range(0, len(cands), 2 * NW):
                rs += evaluate(work, cands[k:k + 2 * NW], 'm', nproc=2 * NW)
        else:
            rs = evaluate(work, cands, 'm')
        return [cls in classes(r, prop, known) for r in rs], rs
    cur = dict(case, use_draws=True, draws=list(res.get('draws') or []), use_decisions=False)
    ok, rs = fails([cur])
    if not ok[0]:
        return case, res, ['draw replay differs']
    best = rs[0]
    n0 = len(cur['draws'])

    def consider(cands):
        nonlocal cur, best
        if not cands or time.time() > deadline:
            return False
        ok, rs = fails(cands)
        good = [i for i, x in enumerate(ok) if x]
        if not good:
            return False
        # the simplest of the failing candidates
        def cost(i):
            d = rs[i].get('draws') or cands[i]['draws']
            return (len(d), sum(d))
        i = min(good, key=cost)
        used = rs[i].get('draws')
        c = dict(cands[i])
        if used is not None and len(used) < len(c['draws']):
            c['draws'] = used
        cur, best = c, rs[i]
        return True

    def strip(d):
        while d and d[-1] == 0:
            d.pop()
        return d
    size = max(1, len(cur['draws']) // 2)
    rounds = 0
    while time.time() < deadline:
        d = cur['draws']
        before = (len(d), sum(d))
        cands = []
        if rounds == 0:
            for frac in (0, 1, 2, 3, 4, 5, 6, 7):
                cands.append(strip(d[:len(d) * frac // 8]))
        starts = list(range(0, len(d), size))
        if len(starts) > 48:
            k = rounds * 48 % len(starts)
            starts = (starts + starts)[k:k + 48]
        for s in starts:
            seg = d[s:s + size]
            cands.append(d[:s] + d[s + size:])
            if any(seg):
                cands.append(d[:s] + [0] * len(seg) + d[s + size:])
            if size <= 2 and max(seg or [0]) > 1:
                cands.append(d[:s] + [x // 2 for x in seg] + d[s + size:])
        uniq = []
        for c in cands:
            if c != d and c not in uniq:
                uniq.append(c)
        got = consider([dict(cur, draws=c) for c in uniq])
        rounds += 1
        after = (len(cur['draws']), sum(cur['draws']))
        if not got or after >= before:
            if size == 1:
                if rounds * 48 >= len(d) or len(d) <= 48:
                    break
            size = max(1, size // 2)
    log.append('workload and fault choices: %d -> %d (sum %d), %d rounds' % (n0, len(cur['draws']), sum(cur['draws']), rounds))
    # the schedule: none, then fewer preemptions
    if time.time() < deadline + 15:
        deadline = max(deadline, time.time() + 15)
    dec = best.get('decisions') or []
    if best.get('dec_full') or not dec:
        n1 = len(dec)
        c = dict(cur, use_decisions=True, decisions=[])
        ok, rs = fails([c])
        if ok[0]:
            cur, best, dec = c, rs[0], []
        else:
            c = dict(cur, use_decisions=True, decisions=dec)
            ok, rs = fails([c])
            if ok[0]:
                cur, best = c, rs[0]
                size = max(1, len(dec) // 2)
                while dec and time.time() < deadline:
                    starts = list(range(0, len(dec), size))[:64]
                    cands = [dict(cur, decisions=dec[:s] + dec[s + size:]) for s in starts]
                    ok, rs = fails(cands)
                    good = [i for i, x in enumerate(ok) if x]
                    if good:
                        cur, best = cands[good[0]], rs[good[0]]
                        dec = cur['decisions']
                        size = min(size, max(1, len(dec)))
                    elif size == 1:
                        break
                    else:
                        size = max(1, size // 2)
            else:
                log.append('decision replay differs; the seed decides the schedule')
        log.append('scheduling decisions: %d -> %d' % (n1, len(cur.get('decisions') or []) if cur.get('use_decisions') else n1))
    return cur, best, log


def notes_of(l):
    """The results a run noted: (what, how many times before) -> result."""
    d, n = {}, {}
    for x in l or []:
        k, v = x.split(' -> ', 1)
        n[k] = n.get(k, 0) + 1
        d[(k, n[k])] = v
    return d


def notes_differ(a, b):
    """The first result both runs noted that is not the same."""
    a, b = notes_of(a), notes_of(b)
    for k in a:
        if k in b and a[k] != b[k]:
            i = next((i for i in range(min(len(a[k]), len(b[k]))) if a[k][i] != b[k][i]), 0)
            return '%s: in a fresh process …%s, after other runs …%s' % (k[0], a[k][max(0, i - 80):i + 200], b[k][max(0, i - 80):i + 200])
    return None


def history_report(work, prop, seed, tier, i, orders):
    """A run whose results depend on what its process did before."""
    case = case_of(work, prop, seed, 100, i)
    t0 = time.time()

    def differs(seqs):
        # every sequence in a process of its own, and the run alone in another
        rs = evaluate(work, [case] + [dict(case, proc=1, session={'seed': seed, 'worker': 100, 'from': i, 'upto': i, 'tier': tier, 'runs': s}) for s in seqs],
                      'h', nproc=len(seqs) + 1, timeout=400, extra=['-notes'])
        if not rs[0]:
            die('run %d of worker 100 does not end alone' % i)
        return [notes_differ(rs[0].get('notes'), (r or {}).get('notes')) for r in rs[1:]], rs
    ds, _ = differs(orders)
    bad = [k for k, d in enumerate(ds) if d]
    if not bad:
        die('run %d of worker 100 differs between two processes, but not from a fresh process' % i)
    before, msg = orders[bad[0]][:-1], ds[bad[0]]
    size = max(1, len(before) // 2)
    while before and time.time() - t0 < 60:
        cands = [before[:s] + before[s + size:] for s in range(0, len(before), size)][:NW]
        if len(before) > 1:
            cands += [[x] for x in before[-3:]]
        ds, _ = differs([c + [i] for c in cands])
        ok = [k for k, d in enumerate(ds) if d]
        if ok:
            k = min(ok, key=lambda k: len(cands[k]))
            before, msg = cands[k], ds[k]
            size = max(1, min(size, len(before) // 2))
        elif size == 1:
            break
        else:
            size = max(1, size // 2)
    runs = before + [i]
    ds, rs = differs([runs])
    if not ds[0]:
        die('the minimised sequence of runs does not reproduce')
    v = {'class': 'process-history', 'key': '', 'msg': ('the result of a call depends on what other tokenizers in the process did before: ' if before else 'the result of a call depends on the process: ') + ds[0]}
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    final = dict(case, proc=1, session={'seed': seed, 'worker': 100, 'from': i, 'upto': i, 'tier': tier, 'runs': runs})
    body = {'property': prop, 'violations': [v], 'class': 'process-history', 'case': final, 'fresh': case, 'reproduces': 'after runs %s of the session' % before,
            'minimised': ['runs before: %d -> %d' % (len(orders[bad[0]]) - 1, len(before))], 'workload': rs[1].get('desc'), 'fresh_notes': rs[0].get('notes'), 'notes': rs[1].get('notes')}
    h = hashlib.sha256(json.dumps(final, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    print('  [process-history] %s' % v['msg'][:1500])
    print('  minimised: %s' % body['minimised'][0])
    return path, [v]


class Irreproducible(Exception):
    pass


def report(work, prop, case, res, session, known, build_info):
    """Confirms, minimises and writes the replay file; returns its path."""
    vs, _ = split_known(prop, res.get('violations') or [], known)
    v = vs[0]
    print('candidate violation: class %s: %s' % (v['class'], v['msg'][:600]), flush=True)
    hang = 45 if v['class'] == 'stall' else 0
    r1, = evaluate(work, [case], 'c', hang=hang)
    how = 'alone'
    log = []
    if hang:
        if v['class'] not in classes(r1, prop, known):
            die('a worker stalled in a run that ends in another process')
        final, fres = case, r1
    elif v['class'] in classes(r1, prop, known):
        final, fres, log = minimise(work, prop, case, r1, v['class'], known, time.time() + 60)
        if final is not case and v['class'] not in classes(evaluate(work, [final], 'c', timeout=400)[0], prop, known):
            # it fails after other candidates in one process only
            final, fres, log = minimise(work, prop, case, r1, v['class'], known, time.time() + 90, apart=True)
            if v['class'] not in classes(evaluate(work, [final], 'c', timeout=400)[0], prop, known):
                final, fres, log = case, r1, ['not minimised: smaller cases fail only after others']
    else:
        final = dict(case, session=session)
        fres, = evaluate(work, [final], 'c', timeout=400)
        how = 'as run %d of its session' % session['upto']
        if v['class'] not in classes(fres, prop, known):
            raise Irreproducible('a violation was seen once but neither its seed nor its session reproduces it: %s' % json.dumps(v)[:2000])
    fres2 = fres if hang else evaluate(work, [final], 'c', timeout=400)[0]
    same = v['class'] in classes(fres2, prop, known)
    if not same:
        raise Irreproducible('the minimised case does not reproduce')
    fres = fres2
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    nv, _ = split_known(prop, fres['violations'], known)
    body = {'property': prop, 'violations': nv, 'class': v['class'], 'case': final, 'reproduces': how, 'minimised': log,
            'workload': fres.get('desc'), 'faults': fres.get('faults'), 'schedule': (fres.get('decisions') or [])[:2000],
            'schedule_complete': bool(fres.get('dec_full')), 'steps': (fres.get('Stats') or {}).get('Steps'), 'stats': fres.get('Stats'),
            'race_report': fres.get('race_text', '')}
    h = hashlib.sha256(json.dumps(body['case'], sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    for x in nv[:3]:
        print('  [%s] %s' % (x['class'], x['msg'][:1500]))
    for x in (fres.get('desc') or [])[:20]:
        print('  | ' + x[:400])
    for x in log:
        print('  minimised: ' + x)
    return path, nv


def do_check(prop, tier, seed, secs):
    t0 = time.time()
    import checkinfo
    if prop not in checkinfo.INFO:
        die('unknown property ' + prop)
    info = checkinfo.INFO[prop]
    known = load_known()
    work, binfo = build()
    procs = {}
    stop, lone = [], None
    try:
        t1 = time.time()
        secs = secs or EXPLORE[tier]
        end = t1 + secs
        state = [dict(next=0, frm=0, restarts=0) for _ in range(NW)]
        sums = []
        found, more, until = None, [], None
        kn = {}
        infra = []
        partial = 0

        def start(w):
            st = state[w]
            st['frm'] = st['next']
            left = end - time.time()
            if left < 0.3 or st['restarts'] > 20000:
                procs.pop(w, None)
                return
            procs[w] = Proc(work, 'w%d' % w, ['-check', prop, '-tier', tier, '-seed', str(seed), '-worker', str(w), '-from', str(st['frm']), '-secs', '%.2f' % left])
        for w in range(NW):
            start(w)
        # the same runs twice, in two more processes: every event must agree; in a third
        # in reverse order: every result must agree
        dig = {}
        for k in ('a', 'b', 'c'):
            dig[k] = Proc(work, 'd' + k, ['-check', prop, '-tier', tier, '-seed', str(seed), '-worker', '100', '-max', str(DIGEST[tier]), '-secs', '%.1f' % min(20.0 if tier == 'quick' else 200.0, secs * 0.7), '-digest', '-notes']
                          + (['-rev'] if k == 'c' else []), 1 if k == 'c' else None)
        digs = {'a': {}, 'b': {}, 'c': {}}
        order = {'a': [], 'b': [], 'c': []}
        notes = {'a': {}, 'c': {}}
        nnotes = 0
        hist = None
        fresh = {}

        def alone():
            # runs of the two orders once more, each in a process of its own
            l = sorted(set(digs['a']) & set(digs['c']))
            random.Random(seed).shuffle(l)
            while l and time.time() < end - 2 and not stop:
                part, l = l[:4], l[4:]
                rs = evaluate(work, [{'check': prop, 'session': {'seed': seed, 'worker': 100, 'from': i, 'upto': i, 'tier': tier, 'runs': [i]}} for i in part], 'f', nproc=4, timeout=60, extra=['-notes'])
                for i, x in zip(part, rs):
                    if x and not x.get('died'):
                        fresh[i] = x.get('notes')
        seen = set()
        while procs or dig:
            idle = True
            if lone is None and not dig and nnotes:
                lone = threading.Thread(target=alone)
                lone.start()
            for i in set(fresh) - seen:
                seen.add(i)
                if hist is None and any(notes_differ(fresh[i], notes[k][i]) for k in 'ac'):
                    hist = i
            for k in list(dig):
                lines, done = dig[k].poll()
                for l in lines:
                    if l['t'] == 'G':
                        digs[k][l['i']] = l['r']['case_hash']
                        order[k].append(l['i'])
                        if k in notes:
                            notes[k][l['i']] = l['r'].get('notes')
                            o = notes['c' if k == 'a' else 'a']
                            if l['i'] in o:
                                nnotes += len(l['r'].get('notes') or [])
                                if hist is None and notes_differ(notes[k][l['i']], o[l['i']]):
                                    hist = l['i']
                if done and not lines:
                    dig[k].kill()
                    del dig[k]
            for w in list(procs):
                p = procs[w]
                lines, done = p.poll()
                for l in lines:
                    idle = False
                    if l['t'] == 'V':
                        new, old = split_known(prop, l['r']['violations'], known)
                        for m in old:
                            kn[m['key']] = kn.get(m['key'], 0) + 1
                        if new and found is None:
                            found = (w, l)
                        elif new and len(more) < 8 and all(x[0] != w or x[1]['r']['violations'][0]['class'] != l['r']['violations'][0]['class'] for x in more + [found]):
                            more.append((w, l))
                    elif l['t'] == 'S':
                        sums.append(l['sum'])
                        state[w]['next'] = l['sum']['next']
                if found:
                    continue
                if done and not lines:
                    rc = p.p.returncode
                    err = p.stderr()
                    p.kill()
                    if rc != 0:
                        why = death(err, rc)
                        i = p.begun if p.begun is not None else state[w]['frm']
                        if why and rc == 2:
                            found = (w, {'i': i, 'r': {'violations': [{'class': 'crash', 'key': '', 'msg': 'the process died: %s\n%s' % (why, err[:3000])}]}, 'case': None})
                            break
                        infra.append('worker %d ended with %s: %s' % (w, rc, err[-1500:]))
                        if len(infra) > 3:
                            die('\n'.join(infra))
                        state[w]['next'] = i + 1
                    state[w]['restarts'] += 1
                    start(w)
                elif time.time() - p.last > STALL:
                    # no statement of the library is reached any more
                    i = p.begun
                    p.kill()
                    if i is None:
                        die('worker %d makes no progress (%s)' % (w, p.stderr()[-500:]))
                    found = (w, {'i': i, 'r': {'violations': [{'class': 'stall', 'key': '', 'msg': STALLMSG}]}, 'case': None})
                    break
            if found and found[1]['case'] is not None and hist is None:
                # a moment for candidates of other workers, should this one not be reproducible
                until = until or time.time() + 2
                if time.time() < until:
                    time.sleep(0.05)
                    continue
            if found or hist is not None:
                break
            if idle:
                time.sleep(0.02)
        explored = time.time() - t1
        stop.append(1)
        if lone:
            lone.join()
        path = None
        nv = []
        if hist is not None and not found:
            for p in list(procs.values()) + list(dig.values()):
                p.kill()
            procs, dig = {}, {}
            path, nv = history_report(work, prop, seed, tier, hist, [order[k][:order[k].index(hist) + 1] for k in 'ac' if hist in order[k]])
        elif found:
            # keep what the other workers covered so far out of it: they are stopped without a summary
            for w, p in procs.items():
                p.poll()
                if p.begun is not None and p.begun >= state[w]['next']:
                    partial += p.begun - state[w]['next']
                p.kill()
            for p in dig.values():
                p.kill()
            procs, dig = {}, {}
            lost = []
            for w, l in [found] + more:
                case = l['case']
                if case is None:
                    case = case_of(work, prop, seed, w, l['i'])
                session = {'seed': seed, 'worker': w, 'from': state[w]['frm'], 'upto': l['i'], 'tier': tier}
                try:
                    path, nv = report(work, prop, case, l['r'], session, known, binfo)
                    break
                except Irreproducible as e:
                    lost.append(str(e))
                    print('  not reproducible', flush=True)
            if not path:
                die('\n'.join(lost))
        else:
            both = set(digs['a']) & set(digs['b'])
            diff = [i for i in both if digs['a'][i] != digs['b'][i]]
            if diff:
                die('runs %s of worker 100 differ between two processes: the simulation is not deterministic' % diff[:10])
        write_evidence(prop, info, tier, seed, sums, explored, time.time() - t0, kn, nv, path, binfo, len(set(digs['a']) & set(digs['b'])), (len(set(digs['a']) & set(digs['c'])), nnotes, len(seen)), infra, len(siteslist(work)), partial)
        for k in known:
            if k['property'] == prop and kn.get(k['key']):
                print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (prop, k['what'], kn[k['key']]))
        runs = sum(s['runs'] for s in sums) + partial
        print('%s: %d simulated runs in %.0f s (build %.0f s), %d skipped' % (prop, runs, explored, binfo['build_s'], sum(s['skipped'] for s in sums)))
        if path:
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            return 1
        if runs == 0:
            die('no run completed')
        return 0
    finally:
        stop.append(1)
        for p in list(procs.values()):
            p.kill()
        if lone:
            lone.join()
        shutil.rmtree(work, ignore_errors=True)


def siteslist(work):
    return json.load(open(os.path.join(work, 'sites.json')))


def case_of(work, prop, seed, worker, i):
    """Asks the simulator for the case of a run that killed it."""
    p = subprocess.run([os.path.join(work, 'simh'), '-mode', 'case', '-check', prop, '-seed', str(seed), '-worker', str(worker), '-from', str(i),
                        '-scratch', os.path.join(work, 's.case'), '-out', os.path.join(work, 'out.case')], capture_output=True, text=True)
    for l in open(os.path.join(work, 'out.case')):
        x = json.loads(l)
        if x.get('case'):
            return x['case']
    die('cannot reconstruct run %d of worker %d: %s' % (i, worker, p.stderr))


def write_evidence(prop, info, tier, seed, sums, explored, wall, kn, nv, path, binfo, det, rev, infra, nsites, partial):
    def add(key):
        d = {}
        for s in sums:
            for k, v in (s.get(key) or {}).items():
                d[k] = d.get(k, 0) + v
        return dict(sorted(d.items()))
    hashes = set()
    sites = set()
    for s in sums:
        hashes |= set(s.get('hashes') or [])
        sites |= set(s.get('sites') or [])
    runs = sum(s['runs'] for s in sums) + partial
    samples = [x for s in sums for x in (s.get('samples') or [])][:6]
    if path:
        samples = samples or ['violating run, see ' + path]
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(hashes),
        'rule': info['rule'] + ' A run is one seed: workload, faults and schedule all follow from it. Non-trivial: not skipped, and at least one preemption, blocked hand-over between goroutines or injected fault; distinct: by hash of the drawn choices and of the sequence of scheduling decisions.',
        'samples': samples or ['none completed'],
        'runs_per_hour': int(runs / max(explored, 0.1) * 3600),
        'seeds_per_hour': int(runs / max(explored, 0.1) * 3600),
        'skipped_runs': sum(s['skipped'] for s in sums),
        'skip_reasons': add('skip_why'),
        'simulated_seconds': round(sum(s['sim_ns'] for s in sums) / 1e9, 3),
        'steps': sum(s['steps'] for s in sums),
        'scheduling_decision_points': sum(s['decisions'] for s in sums),
        'context_switches': sum(s['switches'] for s in sums),
        'faults_injected': add('faults'),
        'conditions_reached': add('probes'),
        'strategies': add('strategy'),
        'preemption_sites': {'instrumented': nsites, 'preempted_at_least_once': len(sites)},
        'determinism': '%d runs executed in two further processes agreed in every event' % det,
        'process_history': '%d runs executed in reverse order in another process with other process-wide randomness, %d results compared; %d of them once more, each in a process of its own' % rev,
        'known_findings_seen': kn,
        'real_components': info['real'],
        'stub_components': info['stub'],
        'workers': NW,
        'build': binfo,
        'infrastructure_incidents': infra,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': info['level'], 'coverage': cov, 'assumptions': info['assumptions'],
          'wall_s': round(wall, 1), 'violations': len(nv)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def do_replay(path):
    body = json.load(open(path))
    prop = body['property']
    known = load_known()
    work, _ = build()
    try:
        if body.get('class') == 'process-history':
            a, b = evaluate(work, [body['fresh'], body['case']], 'r', nproc=2, timeout=600, extra=['-notes'])
            d = notes_differ((a or {}).get('notes'), (b or {}).get('notes'))
            for x in (b or {}).get('desc') or []:
                print('  | ' + x)
            if d:
                print('  [process-history] ' + d)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                return 1
            print('the recorded violation does not occur on this tree')
            return 0
        r, = evaluate(work, [body['case']], 'r', timeout=600, hang=60 if body.get('class') == 'stall' else 0)
        if r is None:
            die('the replay did not finish')
        new, _ = split_known(prop, r.get('violations') or [], known)
        for x in r.get('desc') or []:
            print('  | ' + x)
        for d in r.get('decisions') or []:
            if body['case'].get('use_decisions'):
                print('  switch %s -> %s at %s' % (d.get('from'), d.get('to'), d.get('at', 'blocked')))
        for v in new:
            print('  [%s] %s' % (v['class'], v['msg']))
        if r.get('race_text'):
            print(r['race_text'])
        st = r.get('Stats')
        if st and body.get('stats') and st['Hash'] == body['stats']['Hash']:
            print('every scheduling event agrees with the recorded run')
        if new:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('the recorded violation does not occur on this tree')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_determinism(props, runs, workers):
    """Many seeds, twice each, in many processes; compares a digest of every run."""
    work, _ = build()
    bad = 0
    try:
        for prop in props:
            jobs = [(w, k) for w in range(workers) for k in 'ab']
            out = {}

            def one(j):
                w, k = j
                # the second time the runs start in the middle: no run may depend on the ones before it
                p = Proc(work, 'x%s%d' % (k, w), ['-check', prop, '-seed', str(1000 + w), '-worker', str(w), '-max', str(runs), '-secs', '600', '-digest', '-from', '0' if k == 'a' else str(runs // 3)])
                d = {}
                while True:
                    lines, done = p.poll()
                    for l in lines:
                        if l['t'] == 'G':
                            d[l['i']] = (l['r']['case_hash'], json.dumps(l['r']['Stats']))
                    if done and not lines:
                        break
                    time.sleep(0.02)
                p.kill()
                out[j] = d
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(one, jobs))
            n = diff = 0
            for w in range(workers):
                for i in set(out[(w, 'a')]) & set(out[(w, 'b')]):
                    n += 1
                    if out[(w, 'a')][i] != out[(w, 'b')][i]:
                        diff += 1
                        print('  %s: seed %d worker %d run %d differs\n    %s\n    %s' % (prop, 1000 + w, w, i, out[(w, 'a')][i][1], out[(w, 'b')][i][1]))
            print('%s: %d runs compared, %d differ' % (prop, n, diff), flush=True)
            bad += diff
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--secs', type=float, default=0)
    ap.add_argument('--runs', type=int, default=60)
    ap.add_argument('--workers', type=int, default=16)
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    if a.what == 'build':
        work, b = build()
        shutil.rmtree(work, ignore_errors=True)
        print(b)
        return 0
    if a.what == 'replay':
        return do_replay(a.rest[0])
    if a.what == 'determinism':
        import checkinfo
        return do_determinism(a.rest or sorted(checkinfo.INFO), a.runs, a.workers)
    return do_check(a.what, a.tier, a.seed, a.secs)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
