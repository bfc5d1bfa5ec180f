"""Scenario -> plan -> simulated run(s); batches over seeds; gating, minimising and replaying of violations."""
import copy, hashlib, json, multiprocessing, os, random, re, select, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JS_REPO', '/repo')


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ building
def build(variant=''):
    """Builds jsim around /repo's current working tree; cached by the content of every source that goes into it."""
    if os.environ.get('JSIM_EXE'):      # tools/mutate.py
        return os.environ['JSIM_EXE']
    h = hashlib.sha256()
    for d in (REPO + '/src', REPO + '/include', VERIF + '/sim'):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.isfile(p):
                h.update(n.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    base = VERIF + '/.work'
    out = base + '/build-' + h.hexdigest()[:20] + variant
    exe = out + '/jsim'
    if os.path.exists(out + '/ok') and os.path.exists(exe):
        return exe
    os.makedirs(base, exist_ok=True)
    olds = sorted((os.path.join(base, d) for d in os.listdir(base) if d.startswith('build-') and '.tmp' not in d), key=os.path.getmtime)
    for o in olds[:-8]:
        subprocess.run(['rm', '-rf', o])
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(['bash', VERIF + '/sim/build.sh', tmp, REPO, variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.buffer.write(r.stdout[-4000:])
        raise HarnessError('build failed')
    for f in os.listdir(tmp):
        if f.endswith('.o'):
            os.unlink(os.path.join(tmp, f))
    open(tmp + '/ok', 'w').close()
    if os.path.exists(out):
        subprocess.run(['rm', '-rf', tmp])
    else:
        try:
            os.rename(tmp, out)
        except OSError:
            exe = tmp + '/jsim'
    return exe


# ------------------------------------------------------------------ scenario -> plan
def esc(s):
    if s == '':
        return '-'
    if s == '-':
        return '\\x2d'
    return ''.join(c if 32 < ord(c) < 127 and c != '\\' else '\\x%02x' % ord(c) for c in s)


_un = re.compile(r'\\x([0-9a-f]{2})')


def unesc(s):
    if s == '-':
        return ''
    return _un.sub(lambda m: chr(int(m.group(1), 16)), s) if '\\' in s else s


def blank(**kw):
    """An empty scenario. All strings are latin-1 views of bytes."""
    s = {'procs': [], 'env': {}, 'files': [], 'rules': [], 'rscripts': [], 'wscripts': [], 'cmds': [], 'heap': [1, 0, 0], 'stack': 0, 'build': '',
         'term': ['xterm-256color', 24, 80], 'notty': 0, 'ttydelay': 0, 'limits': {}, 'nosnaps': 1, 'sched': [], 'acts': [], 'meta': {}}
    s.update(kw)
    return s


def proc(args, stdin=('null', '', 0), stdout='pipe'):
    return {'args': list(args), 'stdin': list(stdin), 'stdout': stdout}


def literal(s, pat):
    """the name of a file is not a pattern, whatever its characters"""
    return re.sub(r'([*?\[\]\\])', r'\\\1', pat) if any(f[0] == pat for f in s['files']) else pat


def render(s):
    o = []
    if s.get('build'):
        o.append('build ' + s['build'])
    for i, p in enumerate(s['procs']):
        if i:
            o.append('proc')
        o.append('arg jsonstroll ' + ' '.join(esc(a) for a in p['args']))
        k, d, hold = p['stdin']
        o.append('stdin %s %s%s' % (k, esc(d), ' hold' if hold else ''))
        o.append('stdout ' + p['stdout'])
    for k, v in s['env'].items():
        o.append('env %s %s' % (esc(k), esc(v)))
    for p, k, d in s['files']:
        o.append('file %s %s %s' % (esc(p), k, esc(d)))
    for r in s['rules']:
        o.append('rule %s %s %d %d %d' % (r[0], esc(literal(s, r[1])), r[2], r[3], r[4]))
    for w in ('rscripts', 'wscripts'):
        for pat, ch in s[w]:
            o.append('%s %s %s' % (w[:-1], esc(literal(s, pat)), ' '.join('%d %d' % tuple(c) for c in ch)))
    for c in s['cmds']:
        o.append('cmd ' + ' '.join(str(q) for q in c))
    o.append('heap %d %d %d' % tuple(s['heap']))
    if s.get('stack'):
        o.append('stack %d' % s['stack'])
    o.append('term %s %d %d' % (esc(s['term'][0]), s['term'][1], s['term'][2]))
    if s['notty']:
        o.append('notty')
    if s['ttydelay']:
        o.append('ttydelay %d' % s['ttydelay'])
    for k, v in s['limits'].items():
        o.append('limit %s %d' % (k, v))
    if s['nosnaps']:
        o.append('nosnaps')
    for g, p in s['sched']:
        o.append('sched %d %d' % (g, p))
    for a in s['acts']:
        h = 'act %d %d %s' % (a['gap'], a.get('edge', -1), a['k'])
        k = a['k']
        if k == 'key':
            h += ' %s %d' % (esc(a['b']), a.get('inter', 0))
        elif k == 'sig':
            h += ' %d' % a['n']
        elif k == 'resize':
            h += ' %d %d %d' % (a['r'], a['c'], a.get('g', 0))
        elif k == 'stop':
            h += ' %d' % a.get('n', 0)
        elif k == 'fscreate':
            h += ' %s %s %s' % (esc(a['p']), esc(a['d']), a.get('kind', 'f'))
        elif k == 'fsunlink':
            h += ' %s' % esc(a['p'])
        o.append(h)
    return '\n'.join(o) + '\n'


# ------------------------------------------------------------------ results
class Screen:
    """A dump of the terminal: text rows and (start, end, attr, fg, bg) runs."""
    __slots__ = ('rows', 'cols', 'cy', 'cx', 'alt', 'cursor', 'text', 'runs')

    def __init__(self, w):
        self.rows, self.cols, self.cy, self.cx, self.alt, self.cursor = (int(x) for x in w[:6])
        self.text, self.runs = [], []
        for r in unesc(w[6]).split('\x02')[:self.rows]:
            t, _, a = r.partition('\x01')
            self.text.append(t)
            self.runs.append([tuple(int(v) for v in q.split(',')) for q in a.split(';') if q])

    def attr(self, row, col):
        for x, e, a, fg, bg in self.runs[row]:
            if x <= col < e:
                return a, fg, bg
        return 0, -1, -1


class Snap:
    __slots__ = ('t', 'acts', 'quiet', 'why', '_w', '_s')

    def __init__(self, w):
        self.t, self.acts, self.quiet, self.why = int(w[1]), int(w[2]), int(w[3]), w[4]
        self._w, self._s = w[5:], None

    @property
    def scr(self):
        if self._s is None:
            self._s = Screen(self._w)
        return self._s


class Run:
    def __init__(self, body):
        self.events, self.snaps, self.ends, self.vfs, self.faults = [], [], {}, {}, {}
        self.asan, self.final, self.cov = '', None, ''
        for l in body.split('\n'):
            if not l:
                continue
            w = l.split(' ')
            c = w[0]
            if c == 'R':
                d = dict(x.split('=', 1) for x in w[1:])
                self.hash, self.ilv, self.now, self.gsys, self.verdict, self.full = d['hash'], d['ilv'], int(d['now']), int(d['gsys']), d['verdict'], int(d['full'])
            elif c == 'X':
                self.faults[w[1]] = int(w[2])
            elif c == 'C':
                self.cov = w[1]
            elif c == 'V':
                self.vfs[unesc(w[1])] = (w[2], int(w[3]), unesc(w[4]))
            elif c == 'E':
                self.events.append((int(w[1]), int(w[2]), w[3], w[4:]))
            elif c == 'S':
                self.snaps.append(Snap(w))
            elif c == 'F':
                self.final = w[1:]
            elif c == 'A':
                self.asan = unesc(w[1])
            elif c == 'END':
                d = dict(x.split('=', 1) for x in w[4:] if '=' in x)
                d['kind'], d['code'] = w[2], int(w[3])
                self.ends[int(w[1])] = d

    def out(self, n, p=0):
        return ''.join(unesc(w[1]) for t, pr, k, w in self.events if k == 'out' and pr == p and w[0] == str(n))

    def screen(self):
        return Screen(self.final)

    def end(self, p=0):
        return self.ends.get(p, {'kind': 'none', 'code': 0, 'info': '-'})

    def crashed(self):
        """A description when the program itself went wrong (memory error, uncaught exception, endless loop)."""
        if self.verdict in ('crash', 'terminate', 'hang', 'execself'):
            return self.verdict
        for p, e in self.ends.items():
            if e['kind'] in ('crash', 'terminate', 'hang'):
                return e['kind']
        return None


class Server:
    def __init__(self, exe, hashseed=None):
        self.exe = exe
        self.p = None
        self.other = None

    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'ASAN_OPTIONS': 'symbolize=0:detect_leaks=0'}
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/', bufsize=0)
        self.buf = b''

    def stop(self):
        if self.other:
            self.other.stop()
            self.other = None
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def _need(self, f, deadline):
        while not f():
            t = deadline - time.time()
            if t <= 0 or not select.select([self.p.stdout], [], [], t)[0]:
                self.stop()
                raise HarnessError('simulator does not answer')
            d = self.p.stdout.read(1 << 20)
            if not d:
                self.stop()
                raise HarnessError('simulator died')
            self.buf += d

    def run(self, plan):
        if plan.startswith('build '):
            variant, _, plan = plan[6:].partition('\n')
            if self.other is None:
                self.other = Server(build(variant))
            return self.other.run(plan)
        if self.p is None:
            self.start()
        try:
            data = (plan + 'run\n').encode('latin-1')
            o = 0
            while o < len(data):
                o += self.p.stdin.write(data[o:o + 65536])
        except BrokenPipeError:
            self.stop()
            raise HarnessError('simulator died')
        dl = time.time() + 60
        self._need(lambda: b'\n' in self.buf, dl)
        h, _, self.buf = self.buf.partition(b'\n')
        if not h.startswith(b'RESULT '):
            self.stop()
            raise HarnessError('plan refused: ' + h.decode('latin-1')[:200])
        n = int(h[7:])
        self._need(lambda: len(self.buf) >= n, dl)
        body, self.buf = self.buf[:n], self.buf[n:]
        r = Run(body.decode('latin-1'))
        if r.verdict == 'harness-sig14':
            raise Violation('stuck', 'the program computes for more than 40 s')
        if r.verdict.startswith('harness'):
            raise HarnessError('run ended with ' + r.verdict + ' ' + r.asan[:500])
        if r.full and not r.crashed():
            raise Violation('flood', 'the program writes without end')
        return r


class Violation(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg
        Exception.__init__(self, cls + ': ' + msg)


class Skip(Exception):
    """The scenario is outside of the domain of the property (only while minimising, or rejected by construction)."""


class Ctx:
    """What a judge uses to execute scenarios; accounts for everything that ran."""

    def __init__(self, server):
        self.server = server
        self.runs = 0
        self.simtime = 0
        self.faults = {}
        self.probes = {}
        self.ilv = set()
        self.hashes = set()
        self.nontrivial_hashes = set()
        self.cov = 0
        self.cur = []
        self.skips = 0

    def run(self, scn):
        plan = render(scn)
        r = self.server.run(plan)
        self.runs += 1
        self.simtime += r.now
        for k, v in r.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.ilv.add(r.ilv)
        self.hashes.add(r.hash)
        if r.cov:
            self.cov |= int(r.cov, 16)
        self.cur.append((plan, r.hash))
        self.last = r
        return r

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def nontrivial(self, r=None):
        self.nontrivial_hashes.add((r or self.last).hash)


def crash_check(r, what='the program'):
    c = r.crashed()
    if c:
        e = r.end()
        msg = '%s ended with %s' % (what, c)
        if e.get('info', '-') != '-':
            msg += ' (' + unesc(e['info']) + ')'
        if r.asan:
            m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)|runtime error: ([^\n]*)', r.asan)
            msg += ' ' + (m.group(0) if m else r.asan[:300])
        raise Violation('crash-' + c, msg)


def judge(prop, ctx, scn):
    try:
        prop.judge(ctx, scn)
    except Violation as v:
        return v
    return None


# ------------------------------------------------------------------ batches
def _worker(exe, prop, seed, wid, nw, n, deadline, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    ctx = Ctx(Server(exe))
    samples, err, viol, recheck, done = [], None, None, [], 0
    try:
        i = wid
        while i < n and time.time() < deadline and not stop.value:
            rng = random.Random('%s:%s:%d' % (prop.ID, seed, i))
            scn = prop.gen(rng, i)
            if scn is None:
                i += nw
                continue
            ctx.cur = []
            try:
                v = judge(prop, ctx, scn)
            except Skip:
                ctx.skips += 1
                i += nw
                continue
            except HarnessError as e:
                raise HarnessError('%s (index %d)' % (e, i))
            done += 1
            if len(samples) < 2 and ctx.cur:
                samples.append({'index': i, 'plan': ctx.cur[0][0][:1500], 'hash': ctx.cur[0][1]})
            if len(recheck) < 40 and rng.random() < 0.15:
                recheck += ctx.cur[:2]
            if v:
                viol = (i, scn, v.cls, v.msg)
                if prop.known(scn, v):
                    viol = None
                    ctx.probe('known-finding')
                else:
                    stop.value = 1
                    break
            i += nw
    except HarnessError as e:
        err = str(e)
    except Exception:
        import traceback
        err = traceback.format_exc()
    ctx.server.stop()
    q.put({'wid': wid, 'done': done, 'runs': ctx.runs, 'simtime': ctx.simtime, 'faults': ctx.faults, 'probes': ctx.probes, 'ilv': ctx.ilv, 'hashes': ctx.hashes,
           'nt': ctx.nontrivial_hashes, 'cov': ctx.cov, 'samples': samples, 'err': err, 'viol': viol, 'recheck': recheck, 'skips': ctx.skips})


def batch(exe, prop, seed, n, wall, nw=None):
    nw = nw or int(os.environ.get('VERIF_NW', 0)) or min(8, os.cpu_count() or 4)
    q = multiprocessing.Queue()
    stop = multiprocessing.Value('i', 0)
    dl = time.time() + wall
    ps = [multiprocessing.Process(target=_worker, args=(exe, prop, seed, w, nw, n, dl, q, stop), daemon=True) for w in range(nw)]
    for p in ps:
        p.start()
    res = []
    hard = dl + 150
    while len(res) < nw:
        try:
            res.append(q.get(timeout=2))
        except Exception:
            if time.time() > hard or not any(p.is_alive() for p in ps) and q.empty():
                raise HarnessError('workers lost')
    for p in ps:
        p.join(5)
    return res


# ------------------------------------------------------------------ minimising
def _without(l, i, n=1):
    return l[:i] + l[i + n:]


def candidates(scn):
    """Generic simplifications, biggest first."""
    def mk(**kw):
        s = copy.deepcopy(scn)
        s.update(kw)
        return s
    n = len(scn['acts'])
    step = n // 2
    while step >= 1:
        for i in range(0, n, step):
            yield mk(acts=_without(scn['acts'], i, step))
        step //= 2
    for f in ('rscripts', 'wscripts', 'rules', 'sched'):
        if len(scn[f]) > 1:
            yield mk(**{f: []})
        for i in range(len(scn[f])):
            yield mk(**{f: _without(scn[f], i)})
    for f in ('rscripts', 'wscripts'):
        for i, (pat, ch) in enumerate(scn[f]):
            if len(ch) > 1:
                for c2 in (ch[:len(ch) // 2], ch[len(ch) // 2:], ch[:-1]):
                    l = copy.deepcopy(scn[f])
                    l[i][1] = c2
                    yield mk(**{f: l})
    if scn['heap'] != [1, 0, 0]:
        yield mk(heap=[1, 0, 0])
    if scn['ttydelay']:
        yield mk(ttydelay=0)
    if scn['env']:
        yield mk(env={})
    for pi, p in enumerate(scn['procs']):
        for ai in range(len(p['args'])):
            s = copy.deepcopy(scn)
            del s['procs'][pi]['args'][ai]
            yield s
    if len(scn['procs']) > 1:
        yield mk(procs=scn['procs'][:1], sched=[])
    if scn['cmds']:
        yield mk(cmds=[])
    for i, a in enumerate(scn['acts']):
        for key, v in (('inter', 0), ('edge', -1), ('gap', 200)):
            if a.get(key, v) != v and not (key == 'gap' and a[key] < 200):
                l = copy.deepcopy(scn['acts'])
                l[i][key] = v
                yield mk(acts=l)
        if a['k'] == 'key' and len(a['b']) > 3:
            pass
    for i in range(len(scn['files'])):
        yield mk(files=_without(scn['files'], i))
    from jsonmodel import shrink_text
    for i, (p, k, d) in enumerate(scn['files']):
        if k == 'f' and d:
            for d2 in shrink_text(d):
                l = copy.deepcopy(scn['files'])
                l[i][2] = d2
                yield mk(files=l)
    for i, p in enumerate(scn['procs']):
        if p['stdin'][1]:
            for d2 in shrink_text(p['stdin'][1]):
                l = copy.deepcopy(scn['procs'])
                l[i]['stdin'][1] = d2
                yield mk(procs=l)


def minimise(prop, exe, scn, cls, budget):
    srv = Server(exe)
    ctx = Ctx(srv)
    end = time.time() + budget
    tried = 0
    seen = set()

    def still(s):
        nonlocal tried
        h = json.dumps(s, sort_keys=True)
        if h in seen:
            return False
        seen.add(h)
        tried += 1
        try:
            v = judge(prop, ctx, s)
        except (Skip, HarnessError):
            return False
        except Exception:
            return False
        return v is not None and v.cls == cls
    changed = True
    while changed and time.time() < end:
        changed = False
        for c in list(getattr(prop, 'shrink', lambda s: [])(scn)):
            if time.time() > end:
                break
            if still(c):
                scn, changed = c, True
                break
        if changed:
            continue
        for c in candidates(scn):
            if time.time() > end:
                break
            if still(c):
                scn, changed = c, True
                break
    srv.stop()
    return scn, tried


# ------------------------------------------------------------------ known findings
def findings(pid):
    """Entries of known-findings.json for this property: open ones carry a scenario which shows them."""
    try:
        l = json.load(open(VERIF + '/known-findings.json'))
    except FileNotFoundError:
        return []
    return [f for f in l['findings'] if f['property'] == pid]


# ------------------------------------------------------------------ the check itself
REAL_COMPONENTS = ['all of /repo/src (main, params, parser, printer, external diff, viewers, search) compiled unmodified', 'libstdc++ streams, glibc stdio, ncurses/terminfo']
STUB_COMPONENTS = ['kernel: files, pipes, terminal line discipline, signals, processes, clock (sim/sim.cc)', 'terminal emulator (sim/term.cc)', 'heap (sim/alloc.cc)', 'command of --diff-cmd (actor reading the files it is given)']


def run_check(prop, seed, tier):
    t0 = time.time()
    exe = build()
    if getattr(prop, 'VARIANT', ''):
        build(prop.VARIANT)
    tb = time.time() - t0
    n, wall = (prop.QUICK, 420) if tier != 'thorough' else (prop.THOROUGH, 3300)
    if os.environ.get('VERIF_RUNS'):
        n = int(os.environ['VERIF_RUNS'])
    kf = []
    srv = Server(exe)
    for f in findings(prop.ID):
        v = judge(prop, Ctx(srv), f['scenario'])
        if v and v.cls == f['class']:
            kf.append(f)
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, f['what']))
    srv.stop()
    res = []
    viol = err = None
    # corpus first: scenarios kept because they once needed luck to reach
    t1 = time.time()
    res = batch(exe, prop, seed, n, wall)
    dt = time.time() - t1
    for r in sorted(res, key=lambda r: r['wid']):
        if r['viol'] and (viol is None or r['viol'][0] < viol[0]):
            viol = r['viol']
        err = err or r['err']
    if err and not viol:
        raise HarnessError(err)
    # determinism gate: a sample of the runs again, in another process, must give the same history
    rechecked = 0
    srv = Server(exe)
    rl = [x for r in res for x in r['recheck']]
    random.Random(seed).shuffle(rl)
    for plan, h in rl[:60 if tier != 'thorough' else 300]:
        r2 = srv.run(plan)
        rechecked += 1
        if r2.hash != h:
            raise HarnessError('not deterministic:\n' + plan)
    srv.stop()
    agg = {}
    for k in ('faults', 'probes'):
        agg[k] = {}
        for r in res:
            for a, b in r[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
    ilv, nt, hs, cov = set(), set(), set(), 0
    for r in res:
        ilv |= r['ilv']
        nt |= r['nt']
        hs |= r['hashes']
        cov |= r['cov']
    runs = sum(r['runs'] for r in res)
    ev = {'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': runs, 'scenarios': sum(r['done'] for r in res), 'distinct_nontrivial': len(nt), 'rule': prop.RULE,
                       'samples': [s for r in res for s in r['samples']][:3],
                       'distinct_executions': len(hs), 'distinct_interleavings': len(ilv),
                       'interleaving_measure': 'hash of the sequence of (system call, process, action delivered between which calls)',
                       'code_edges_reached': bin(cov).count('1'), 'simulated_seconds': round(sum(r['simtime'] for r in res) / 1000.0, 1),
                       'runs_per_hour': int(runs / max(dt, 0.001) * 3600), 'seeds_per_hour': int(sum(r['done'] for r in res) / max(dt, 0.001) * 3600), 'faults_injected': agg['faults'], 'probes': agg['probes'],
                       'out_of_domain': sum(r['skips'] for r in res),
                       'determinism_rechecks': rechecked, 'components_real': REAL_COMPONENTS, 'components_stub': STUB_COMPONENTS,
                       'known_findings_seen': len(kf), 'build_s': round(tb, 1)},
          'assumptions': getattr(prop, 'ASSUME', []), 'wall_s': 0, 'violations': 0}
    code = 0
    if viol and os.environ.get('JSIM_EXE'):
        print('KILLED by %s class=%s %s' % (prop.ID, viol[2], viol[3][:300]))
        return 1
    if viol:
        idx, scn, cls, msg = viol
        srv = Server(exe)
        c1 = Ctx(srv)
        v1 = judge(prop, c1, scn)
        srv.stop()
        srv = Server(exe)
        c2 = Ctx(srv)
        v2 = judge(prop, c2, scn)
        srv.stop()
        if not v1 or not v2 or v1.cls != cls or c1.cur != c2.cur:
            raise HarnessError('violation does not reproduce: index %d %s: %s' % (idx, cls, msg))
        small, tried = minimise(prop, exe, scn, cls, 60 if tier != 'thorough' else 300)
        srv = Server(exe)
        c3 = Ctx(srv)
        v3 = judge(prop, c3, small)
        srv.stop()
        if not v3:
            small, v3, c3 = scn, v1, c1
        os.makedirs(VERIF + '/replays', exist_ok=True)
        path = VERIF + '/replays/%s-%s-%d.json' % (prop.ID, seed, idx)
        json.dump({'property': prop.ID, 'seed': seed, 'index': idx, 'class': v3.cls, 'message': v3.msg, 'scenario': small, 'original': scn,
                   'plans': [p for p, h in c3.cur], 'hashes': [h for p, h in c3.cur], 'minimiser_tried': tried}, open(path, 'w'), indent=1)
        print('%s seed=%s index=%d class=%s' % (prop.ID, seed, idx, v3.cls))
        print(v3.msg)
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        ev['violations'] = 1
        code = 1
    if os.environ.get('JSIM_EXE'):
        return 0
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop.ID, 'w'), indent=1)
    c = ev['coverage']
    print('%s: %d scenarios, %d runs (%d/h), %d distinct non-trivial, %d interleavings, %.0f simulated s, %d code edges, %.1f s' % (
        prop.ID, c['scenarios'], runs, c['runs_per_hour'], len(nt), len(ilv), c['simulated_seconds'], c['code_edges_reached'], ev['wall_s']))
    print('  faults: ' + ' '.join('%s=%d' % kv for kv in sorted(agg['faults'].items())))
    print('  probes: ' + ' '.join('%s=%d' % kv for kv in sorted(agg['probes'].items())))
    return code


def replay(props, path):
    d = json.load(open(path))
    prop = props[d['property']]
    srv = Server(build())
    ctx = Ctx(srv)
    v = judge(prop, ctx, d['scenario'])
    srv.stop()
    same = [h for p, h in ctx.cur] == d['hashes']
    print('history %s' % ('identical to the recorded one' if same else 'differs from the recorded one'))
    if v:
        print(v.cls + ': ' + v.msg)
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    print('no violation')
    return 0
