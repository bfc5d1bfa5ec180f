"""Properties of --diff-cmd: what the command is given, when it runs, what is left behind."""
import copy, re
import jsonmodel as J
from engine import blank, proc, Violation, Skip, crash_check, unesc
from textprops import Text, cli, inputs, norm, plain_doc, chunks, heap, show, mutate, opts, NAMES, pick, EIO, ENOSPC, EACCES, EMFILE, ENOENT, ENOMEM

EAGAIN = 11
RD = ['short_read', 'slow_read']


def cmdline(r):
    a = [r.choice(['vimdiff', 'diff', '/usr/bin/meld', 'cat'])]
    for _ in range(r.choice([0, 0, 1, 2, 2, 3, 12 if r.random() < .2 else 3])):
        a.append(r.choice(['-u', '--brief', 'x', 'a b', '{', '{}x', '', '-', '--', ';x', 'x;', ';;', ' ;', '; ', '{}{}', '}{', ' {}', '{} ', '{ }', '-W', '--compress', '--diff-cmd', '--diff', '-h', '\\;', '$x', '*', "it's", '"', '\n', 'y' * 300, '%s']))
    for _ in range(r.choice([1, 1, 1, 2])):
        a.insert(r.randrange(1, len(a) + 1), '{}')
    if r.random() < .05:
        a = [x for x in a if x != '{}'] or ['cat']
    return a


def build(r, scn, docs, o, stdin_ok=True):
    cmd = ['--diff-cmd'] + cmdline(r) + [';']
    if len(docs) == 1 and stdin_ok and r.random() < .4:
        scn['procs'].append(proc(o + cmd, ('pipe', docs[0], 0)))
        ch = chunks(r, len(docs[0]))
        if ch:
            scn['rscripts'].append(['<stdin>', ch])
        return
    names = pick(r, len(docs), .25)
    lit = None
    if r.random() < .12 and '\0' not in docs[-1]:
        lit = docs[-1]
        names = names[:-1]
    args = o + names
    k = r.randrange(len(args) + 1)
    args = args[:k] + cmd + args[k:]
    if lit is not None:
        args += ['--', lit]
    scn['procs'].append(proc(args))
    for n, d in zip(names, docs):
        scn['files'].append([norm(n), 'f', d])
        ch = chunks(r, len(d))
        if ch:
            scn['rscripts'].append([norm(n), ch])


class Log:
    """What one instance did, out of the events of a run"""

    def __init__(self, run, nproc, inst=0):
        self.run = run
        slots = {i: i for i in range(nproc)}      # slot -> instance
        nxt = nproc
        self.forks, self.forkfail, self.execs, self.reads, self.reads2, self.cmdend, self.unlinks = [], 0, [], [], [], [], []
        self.err = ''
        for t, p, k, w in run.events:
            if k == 'fork' and int(w[1]) > 0:
                slots[nxt] = slots.get(p, p)
                nxt += 1
            if slots.get(p, p) != inst:
                continue
            if k == 'out' and w[0] == '2':
                self.err += unesc(w[1])
            elif k == 'fork':
                if int(w[1]) > 0:
                    self.forks.append(t)
                else:
                    self.forkfail += 1
            elif k == 'exec':
                self.execs.append((t, [unesc(x) for x in w[1:-2]], int(w[-1])))
            elif k == 'cmdread':
                self.reads.append((t, int(w[0]), unesc(w[1]), unesc(w[3]) if w[2] == 'data' else None))
            elif k == 'cmdread2':
                self.reads2.append((t, int(w[0]), unesc(w[1]), unesc(w[3]) if w[2] == 'data' else None))
            elif k == 'cmdend':
                self.cmdend.append(t)
            elif k == 'unlink':
                self.unlinks.append(unesc(w[0]))


def expected_docs(x, scn, pi=0):
    """what the redirected output shows for each input of the instance, one run per input"""
    c, ins = inputs(scn, pi)
    if not c.cmd:
        raise Skip()
    a = scn['procs'][pi]['args']
    k = a.index('--') if '--' in a[:] and a.index('--') > (a.index(';') if ';' in a else -1) else len(a)
    o = []
    if c.W:
        o.append('-W')
    if c.ascii:
        o.append('--ascii')
    if c.compress:
        o.append('--compress')
    if c.keep:
        o.append('--keep-order')
    res = []
    for name, text, path in ins:
        s = blank(files=copy.deepcopy(scn['files']))
        p = scn['procs'][pi]
        if path is None:
            s['procs'] = [proc(o + ['--', text])]
        elif path == '<stdin>':
            s['procs'] = [proc(o, ('pipe', text, 0))]
        else:
            s['procs'] = [proc(o + [name])]
        r = x.run(s)
        crash_check(r)
        res.append((name, r.out(1)))
    return c, res


def check_given(l, c, exp):
    """the command got the right command line and complete files"""
    if len(l.execs) != 1 or len(l.forks) != 1:
        raise Violation('runs', 'the command was started %d times' % len(l.execs))
    argv = l.execs[0][1]
    want = []
    n = len(exp)
    slots = {}
    for a in c.cmd:
        if a == '{}':
            for k in range(n):
                slots[len(want)] = k
                want.append(None)
        else:
            want.append(a)
    if len(argv) != len(want) or any(w is not None and a != w for a, w in zip(argv, want)):
        raise Violation('argv', 'the command %s with %d inputs was run as %s' % (c.cmd, n, argv))
    paths = {}
    for i, k in slots.items():
        if paths.setdefault(k, argv[i]) != argv[i]:
            raise Violation('argv', 'two names for one input: %s' % argv)
    if len(set(paths.values())) != len(paths):
        raise Violation('shared', 'two inputs share one file: %s' % argv)
    for when, reads in (('at its start', l.reads), ('before its end', l.reads2)):
        got = {i: d for t, i, p, d in reads}
        for i, k in slots.items():
            if i not in got:
                continue            # the command was stopped by a signal before
            if got[i] is None:
                raise Violation('missing', 'the file of %s does not exist any more for the command, %s' % (exp[k][0], when))
            if got[i] != exp[k][1]:
                raise Violation('content', 'the command reads %s for %s (%s), the redirected output is %s' % (show(got[i]), exp[k][0], when, show(exp[k][1])))
    return paths


def check_left(x, scn, r, allow=()):
    """nothing left behind, nothing of others touched"""
    pre = {f[0]: f[2] for f in scn['files'] if f[1] in 'fr'}
    for a in scn['acts']:
        if a['k'] == 'fscreate':
            pre[a['p']] = a['d']
    for p, (k, creator, data) in r.vfs.items():
        if k in 'dx':
            continue
        if p not in pre:
            if p not in allow:
                raise Violation('left', 'file %s (%s) is left behind' % (p, show(data)))
        elif k in 'fr' and data != pre[p]:
            raise Violation('overwritten', 'file %s of somebody else was changed to %s' % (p, show(data)))
    gone = set(pre) - set(r.vfs) - {a['p'] for a in scn['acts'] if a['k'] == 'fsunlink'}
    if gone:
        raise Violation('removed', 'files of somebody else were removed: %s' % sorted(gone))


def valid_ins(scn, pi=0):
    c, ins = inputs(scn, pi)
    if not c.cmd or c.diff:
        raise Skip()
    for n, t, p in ins:
        try:
            root, rd = J.read(t, c.W, c.ascii)
        except (J.Bad, J.Skip2, RecursionError):
            raise Skip()
        if t[rd.i:].strip(J.WS) or root.kind == 'num':
            pass
    return c, ins


class C10(Text):
    ID = 'C10'
    QUICK, THOROUGH = 4000, 200000
    RULE = 'one to five inputs (files, stdin, literal), random command lines with {} at any place and number of times, random delivery and short writes, random command speed; non-trivial: the command ran on at least one file'

    def gen(self, r, i):
        scn = blank()
        docs = [plain_doc(r, maxdepth=r.choice([0, 1, 3])) for _ in range(r.choice([1, 2, 2, 2, 3, 5]))]
        build(r, scn, docs, opts(r))
        if r.random() < .5:
            scn['wscripts'].append(['/tmp/*', [[r.choice([0, 5]), r.choice([1, 7, 100, 4000])] for _ in range(r.randrange(1, 20))]])
        scn['cmds'] = [[r.choice([0, 1, 5000]), r.choice([0, 50, 100000]), r.choice('eek'), 0, 0, 0]]
        c = scn['cmds'][0]
        c[3] = r.choice([0, 0, 1, 2, 255]) if c[2] == 'e' else r.choice([9, 15, 11])
        if r.random() < .1:
            c.append(r.choice([20, 19, 21]))
        scn['heap'] = heap(r)
        return scn

    def judge(self, x, scn):
        c, ins = valid_ins(scn)
        c, exp = expected_docs(x, scn)
        if any(not e[1] for e in exp) or scn['rules'] or any(q[4] or q[5] for q in scn['cmds']):
            raise Skip()
        r = x.run(scn)
        crash_check(r)
        l = Log(r, 1)
        paths = check_given(l, c, exp)
        if paths:
            x.nontrivial(r)
        if r.out(1):
            raise Violation('stdout', 'something was printed: ' + show(r.out(1)))


class C11(Text):
    ID = 'C11'
    QUICK, THOROUGH = 3000, 150000
    RULE = 'commands that succeed, fail, are killed, stopped and continued, remove their files or cannot be started, inputs cut or malformed, temporary files that cannot be opened, written, closed or removed, files of others already there under the names a first run used (or appearing while it runs); non-trivial: a temporary file was created or a foreign file was in the way'

    def gen(self, r, i):
        scn = blank()
        docs = [plain_doc(r, maxdepth=r.choice([0, 1, 2]), breadth=3) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        if r.random() < .3:
            k = r.randrange(len(docs))
            docs[k] = docs[k][:r.randrange(len(docs[k]) + 1)] if r.random() < .5 else mutate(r, docs[k]) or '{'
        build(r, scn, docs, opts(r))
        faults(r, scn)
        q = r.random()
        if q < .08:
            c = scn['cmds'][0]
            c += [0] * (7 - len(c)) + [r.choice([1, 1, 2, 3])]       # the command removes one of its files
        elif q < .16:
            scn['rules'].append(['unlinkfail', '/tmp/*', 0, r.choice([EACCES, 1, EIO, 30]), r.choice([1, 1, 2])])
        scn['heap'] = heap(r)
        scn['meta'] = {'busy': r.choice([0, 0, 1, 2, 3]), 'kind': r.choice('ffrd'), 'when': r.choice([-1, -1, r.randrange(0, 3000)])}
        return scn

    def judge(self, x, scn):
        m = scn['meta']
        c = cli(scn['procs'][0]['args'])
        if not c.cmd or c.diff or c.error:
            raise Skip()
        s1 = copy.deepcopy(scn)
        r = x.run(s1)
        crash_check(r)
        made = [unesc(w[0]) for t, p, k, w in r.events if k == 'open' and w[-2] == '=' and int(w[-1]) >= 0 and int(w[1]) & 3 and unesc(w[0]) not in ('/dev/tty', '/dev/null')]
        if made:
            x.nontrivial(r)
        check_left(x, s1, r, self.stuck(r))
        self.running(scn, r)
        names = list(dict.fromkeys(made))[:m.get('busy', 0)]
        if not names:
            return
        # the same again, the names being taken by somebody else
        s2 = copy.deepcopy(scn)
        for k, n in enumerate(names):
            if m['when'] >= 0:
                s2['acts'].append({'k': 'fscreate', 'p': n, 'd': 'precious %d' % k, 'gap': 0, 'edge': m['when'] if k == 0 else 1, 'kind': 'f'})
            else:
                s2['files'].append([n, m['kind'] if m['kind'] != 'd' else 'f', 'precious %d' % k])
        if m['when'] >= 0:
            # somebody creating a file over ours is their doing: only names not ours at that moment count
            r2 = x.run(s2)
            crash_check(r2)
            ours = set()
            for t, p, k, w in r2.events:
                if k == 'open' and int(w[1]) & 3 and int(w[-1]) >= 0:
                    ours.add(unesc(w[0]))
                elif k == 'fscreate' and unesc(w[0]) in ours:
                    x.probe('race_lost')
                    return
            x.probe('race')
        else:
            r2 = x.run(s2)
            crash_check(r2)
            x.probe('busy')
        fired = {unesc(w[0]) for t, p, k, w in r2.events if k == 'fscreate'}
        s2['acts'] = [a for a in s2['acts'] if a['p'] in fired]
        x.nontrivial(r2)
        check_left(x, s2, r2, self.stuck(r2))
        self.running(s2, r2)
        l1, l2 = Log(r, 1), Log(r2, 1)
        if len(l1.execs) == 1 and len(l2.execs) != 1 and not scn['rules']:
            raise Violation('given-up', 'the command is not run when %s exist already; stderr %s' % (names, show(r2.out(2))))

    def stuck(self, r):
        """files that could not be removed"""
        return {unesc(w[0]) for t, p, k, w in r.events if k == 'unlink' and int(w[-1])}

    def running(self, scn, r):
        l = Log(r, 1)
        rm = {unesc(w[0]) for t, p, k, w in r.events if k == 'cmdrm'}
        end = {(i, p): d for t, i, p, d in l.reads2}
        for t, i, p, d in l.reads:
            if d is not None and p not in rm and p not in {f[0] for f in scn['files']} and end.get((i, p), d) != d:
                raise Violation('early', 'file %s is gone or changed while the command is still running' % p)


def faults(r, scn):
    cmd = [r.choice([0, 1, 300]), r.choice([0, 50, 3600000]), r.choice('eeek'), 0, 0, 0]
    cmd[3] = r.choice([0, 0, 1, 255]) if cmd[2] == 'e' else r.choice([9, 15, 11, 6])
    q = r.random()
    if q < .12:
        cmd[4] = r.choice([EAGAIN, ENOMEM])
    elif q < .24:
        cmd[5] = r.choice([ENOENT, EACCES, ENOMEM, 8])
    if r.random() < .15:
        cmd.append(r.choice([20, 19, 21, 22]))       # the command is stopped and continued from the shell
    scn['cmds'] = [cmd]
    q = r.random()
    if q < .12:
        scn['rules'].append(['openfail_w', '/tmp/*', r.randrange(0, 4), r.choice([EACCES, EMFILE, ENOSPC, 30, 5]), r.choice([-1, 1, 2])])
    elif q < .24:
        scn['rules'].append(['disk', '/tmp/*', r.randrange(0, 200), ENOSPC, -1])
    elif q < .34:
        scn['rules'].append(['writeerr', '/tmp/*', r.randrange(0, 60), r.choice([EIO, ENOSPC, 122]), r.choice([-1, 1])])
    elif q < .42:
        scn['rules'].append(['closeerr', '/tmp/*', 0, r.choice([EIO, ENOSPC]), r.choice([-1, 1])])
    elif q < .5:
        f = [f[0] for f in scn['files']] or ['<stdin>']
        scn['rules'].append(['readerr', r.choice(f), r.randrange(0, 100), EIO, -1])


class C12(Text):
    ID = 'C12'
    QUICK, THOROUGH = 4000, 200000
    RULE = 'as for C11, without foreign files: every step from reading the inputs to waiting for the command may fail; non-trivial: a fault fired'

    def gen(self, r, i):
        scn = blank()
        docs = [plain_doc(r, maxdepth=r.choice([0, 1, 2]), breadth=3) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        if r.random() < .25:
            k = r.randrange(len(docs))
            docs[k] = docs[k][:r.randrange(len(docs[k]) + 1)] if r.random() < .5 else mutate(r, docs[k]) or '{'
        build(r, scn, docs, opts(r))
        faults(r, scn)
        if r.random() < .1:
            # the terminal is resized or the job is suspended while the command runs
            scn['acts'].append({'k': r.choice(['sig', 'stop']), 'gap': r.choice([0, 5, 100]), 'n': 0})
            if scn['acts'][0]['k'] == 'sig':
                scn['acts'][0]['n'] = 28
            else:
                scn['acts'].append({'k': 'cont', 'gap': 50})
        scn['heap'] = heap(r)
        return scn

    def judge(self, x, scn):
        c, ins = inputs(scn)
        if not c.cmd or c.diff or not c.cmd[0]:
            raise Skip()
        c, exp = expected_docs(x, scn)
        r = x.run(scn)
        crash_check(r)
        l = Log(r, 1)
        err = l.err
        e = r.end()
        if e['kind'] in ('waiting', 'stopped', 'none') or r.verdict in ('waiting', 'blocked', 'stopped'):
            raise Violation('stuck', 'the program never ends (%s)' % r.verdict)
        bad = [n for n, o in exp if not o]
        trouble = {k: v for k, v in r.faults.items() if k in ('open_fail', 'write_error', 'disk_full', 'close_error', 'fork_fail', 'exec_fail', 'read_error')}
        if r.faults.get('open_fail') and not any(q[0] == 'openfail_w' for q in scn['rules']):
            trouble.pop('open_fail')
        for k in list(trouble) + (['bad_input'] if bad else []):
            x.probe(k)
        if trouble or bad:
            x.nontrivial(r)
        if len(l.execs) > 1 or len(l.forks) > 1:
            raise Violation('twice', 'the command was run %d times' % len(l.execs))
        ran = any(q[2] == 0 for q in l.execs)
        if ran:
            if bad:
                raise Violation('bad-input', 'the command was run although %s cannot be read' % bad)
            check_given(l, c, exp)
            if e['kind'] == 'exit' and int(e['t']) < max(l.cmdend or [0]):
                raise Violation('early', 'the program ended before its command')
            if not l.cmdend:
                raise Violation('early', 'the program ended while its command was running')
        else:
            if not trouble and not bad:
                raise Violation('not-run', 'nothing is wrong and the command was not run; stderr %s' % show(err))
            if not err:
                raise Violation('silent', 'the command could not be run (%s), there is no diagnostic' % (sorted(trouble) or bad))
            if bad and not trouble and bad[0] not in err:
                raise Violation('silent', 'input %s is bad, no diagnostic names it: %s' % (bad[0], show(err)))
        if r.out(1):
            raise Violation('stdout', 'something was printed: ' + show(r.out(1)))


class C13(Text):
    ID = 'C13'
    QUICK, THOROUGH = 1500, 60000
    RULE = 'two or three (sometimes up to 24) instances of the program at the same time on inputs of the same names, preempted at random system calls; non-trivial: at least one switch between two instances'

    def gen(self, r, i):
        scn = blank()
        n = r.choice([2, 2, 2, 3]) if r.random() < .95 else r.choice([5, 9, 12, 17, 24])
        same = r.random() < .6
        pool = pick(r, 3, .3)
        for k in range(n):
            cmd = ['--diff-cmd'] + cmdline(r) + [';']
            o = opts(r)
            if same:
                scn['procs'].append(proc(o + cmd, ('pipe', '{"who":%d,"x":[%s]}' % (k, ','.join('%d' % r.randrange(9) for _ in range(r.randrange(0, 40)))), 0)))
            else:
                fs = r.sample(pool, r.choice([1, 2, 2]))
                scn['procs'].append(proc(o + cmd + fs))
        for nm, q in zip(pool, 'abc'):
            scn['files'].append([norm(nm), 'f', '["%s",{"k":"%s"}]' % (q, q * r.randrange(1, 200))])
        scn['cmds'] = [[r.choice([0, 1, 10, 200]), r.choice([0, 1, 50, 1000] if n < 5 else [50, 1000]), 'e', 0, 0, 0] for _ in range(n)]
        g = 0
        for _ in range(r.choice([1, 2, 4, 8, 20])):
            g += r.choice([1, 1, 2, 3, 5, 10])
            scn['sched'].append([g, r.randrange(n)])
        if r.random() < .4:
            scn['wscripts'].append(['/tmp/*', [[r.choice([0, 1, 5]), r.choice([1, 10, 50])] for _ in range(r.randrange(1, 8))]])
        if r.random() < .2:
            scn['cmds'][r.randrange(n)][r.choice([4, 5])] = EAGAIN
        scn['heap'] = heap(r)
        return scn

    def judge(self, x, scn):
        n = len(scn['procs'])
        if n < 2:
            raise Skip()
        r = x.run(scn)
        crash_check(r)
        if r.faults.get('preemption'):
            x.nontrivial(r)
        for k in range(n):
            c, ins = valid_ins(scn, k)
            c, exp = expected_docs(x, scn, k)
            l = Log(r, n, k)
            e = r.end(k)
            if e['kind'] != 'exit':
                raise Violation('stuck', 'instance %d ended with %s' % (k, e['kind']))
            if l.forkfail or any(q[2] for q in l.execs):
                if not l.err:
                    raise Violation('silent', 'instance %d could not run its command, no diagnostic' % k)
                continue
            try:
                check_given(l, c, exp)
            except Violation as v:
                raise Violation(v.cls, 'instance %d of %d: %s' % (k, n, v.msg))
        check_left(x, scn, r)


PROPS = [C10, C11, C12, C13]
