"""Properties of the interactive viewer, decided on what the simulated terminal shows after each key."""
import copy
import jsonmodel as J
import viewmodel as V
from engine import blank, proc, Violation, Skip, crash_check
from textprops import LENIENT, Text, cli, inputs, norm, chunks, heap, show, pick

TERMS = ['xterm-256color', 'xterm-256color', 'xterm', 'screen', 'linux', 'vt100', 'tmux-256color']
COLOURED = {'xterm-256color', 'xterm', 'screen', 'linux', 'tmux-256color', 'screen-256color'}
GAP = 400


def vdoc(r, big=0.5, huge=.05, **kw):
    """a document the model can show"""
    if huge and r.random() < huge:
        return vhuge(r)
    for _ in range(20):
        p = J.Profile(r, ascii=True, strings=r.choice(['plain', 'plain', 'plain', 'escapes']), keys=r.choice(['short', 'short', 'long']), surrogates=False, **kw)
        p.maxdepth = r.choice([2, 3, 4, 6])
        if r.random() < big:
            p.breadth = r.choice([5, 9, 14])
        if r.random() < .1:
            p.strlen = r.choice([200, 600])
        d = J.gen_doc(r, p)
        if len(d) > 6000:
            continue
        try:
            x = V.Doc(d)
        except (J.Bad, J.Skip2):
            continue
        if x.ok and len(x.nodes) < 150 and (len(x.nodes) > 3 or r.random() < .05):
            return d
    return '{"a":[1,2,{"b":"c"}],"d":"e"}'


def vhuge(r):
    """a document past the usual bounds: many items, lines or matches, deep nesting, long texts"""
    k = r.choice(['many', 'many', 'same', 'object', 'deep', 'deep', 'long', 'lines', 'key'])
    n = r.choice([70, 130, 257, 260, 300, 520])
    if k == 'many':
        d = '[' + ','.join(r.choice(['%d', '"s%d"', '[%d]', '{"k":%d}', 'true', 'null']).replace('%d', str(i)) for i in range(n)) + ']'
    elif k == 'same':
        d = '[' + ','.join(r.choice(['"ab"', '"ab"', '"ba"', '{"ab":1}']) for i in range(n)) + ']'
    elif k == 'object':
        d = '{' + ','.join('"k%d":%s' % (i * 7 % 1000, r.choice(['1', '[]', '{}', '"v"', '[1]'])) for i in range(n)) + '}'
    elif k == 'deep':
        n = r.choice([10, 17, 20, 33, 40, 65, 130, 260, 300])
        o, c = '', ''
        for i in range(n):
            if r.random() < .5:
                o += '['
                if r.random() < .1:
                    o += '%d,' % i
                c = (',"x%d"]' % i if r.random() < .1 else ']') + c
            else:
                o += '{"%s":' % r.choice(['a', 'b', 'k%d' % i])
                c = (',"z":%d}' % i if r.random() < .1 else '}') + c
        d = o + '1' + c
    elif k == 'long':
        d = '{"a":"%s","b":[1,"%s"],"c":2}' % (''.join(r.choice('abcdefgh ') for _ in range(r.choice([255, 256, 257, 1000, 4096, 5000, 33000, 65600, 70000]))), 'x' * r.choice([1, 255, 256, 300, 1000]))
    elif k == 'key':
        d = '{"%s":1,"b":{"%s":[1,2]},"c":2}' % (''.join(r.choice('abcdefgh') for _ in range(r.choice([255, 256, 257, 1000, 3000]))), 'x' * r.choice([20, 255, 256, 300, 1000]))
    else:
        d = '[' + ',\n'.join('{"a":%d,"b":[%d,\n%d]}' % (i, i, i + 1) for i in range(n // 4)) + ']'
    try:
        if V.Doc(d).ok:
            return d
    except (J.Bad, J.Skip2):
        pass
    return vdoc(r, huge=0)


def vlong(r):
    """a list or an object of hundreds of items, alone or within others"""
    n = r.choice([66, 129, 130, 150, 257, 260, 300, 520])
    if r.random() < .6:
        d = '[' + ','.join(r.choice(['%d', '%d', '%d', '"s%d"', '[%d]', '{"k":%d}', '[]', 'true']).replace('%d', str(i)) for i in range(n)) + ']'
    else:
        d = '{' + ','.join('"k%d":%s' % (i * 7 % 1000, r.choice(['1', '2', '3', '[]', '{}', '"v"', '[1]'])) for i in range(n)) + '}'
    return r.choice(['%s', '%s', '[1,%s,2]', '{"a":[2],"b":%s,"c":0}', '[[%s]]']) % d


def wide(r):
    """a terminal past the usual bounds"""
    return r.choice([[24, 255], [24, 256], [24, 257], [30, 300], [255, 80], [256, 80], [257, 80], [300, 80], [300, 300], [60, 520], [10, 1000], [24, 80]])


def geometry(r):
    if r.random() < .03:
        return [r.choice(TERMS)] + wide(r)
    return [r.choice(TERMS), r.choice([5, 8, 10, 12, 16, 24, 24, 40]), r.choice([24, 30, 40, 60, 80, 80, 120])]


def session(r, docs, o, term=None):
    s = blank(nosnaps=0)
    names = pick(r, len(docs))
    s['procs'].append(proc(o + names, ('tty', '', 0), 'tty'))
    for n, d in zip(names, docs):
        s['files'].append([norm(n), 'f', d])
    s['term'] = term or geometry(r)
    s['heap'] = heap(r)
    if sum(map(len, docs)) > 400:
        s['limits'] = {'edges': 600000000}
    if r.random() < .15:
        s['ttydelay'] = r.choice([1, 5, 30])
    return s


def vopts(r):
    o = []
    if r.random() < .25:
        o.append('--keep-order')
    if r.random() < .15:
        o.append(r.choice(['--color=never', '--color=always', '--color']))
    if r.random() < .1:
        o.append('--ascii')
    return o


def local(s):
    """key codes of the terminal of the scenario"""
    t = s['term'][0]
    for a in s['acts']:
        if a['k'] == 'key':
            if t == 'linux':
                a['b'] = a['b'].replace('\x1bO', '\x1b[')
            elif t == 'vt100' and a['b'].startswith('\x1b['):
                a['b'] = 'j'
    return s


def key(b, gap=GAP, inter=0):
    return {'gap': gap, 'k': 'key', 'b': b, 'inter': inter}


def keyacts(r, ks, inter=0.25):
    """acts for a list of key strings, each settled before the next one; escape sequences may arrive byte by byte"""
    o = []
    for k in ks:
        if len(k) > 1 and r.random() < inter:
            d = r.choice([1, 5, 20, 20, 150, 400, 900])
            o.append(key(k, GAP, d))
            o.append({'gap': d * len(k) + GAP, 'k': 'nop'})
        else:
            o.append(key(k))
    return o


MOVE = ['j', 'j', 'j', 'j', 'J', 'k', 'K', V.RSEQ['DOWN'], V.RSEQ['DOWN'], V.RSEQ['UP'], V.RSEQ['PPAGE'], V.RSEQ['NPAGE'], V.RSEQ['NPAGE']]
FOLD = ['h', 'l', 'H', 'L', V.RSEQ['LEFT'], V.RSEQ['RIGHT'], 'h', 'l', 'j', 'k']
OTHER = ['x', ' ', '\t', '\x01', '1', '?', 'w', '\x0cj', '\x17j', '\x17l', '\x17w', V.RSEQ['DC'], V.RSEQ['IC'], V.RSEQ['F12'], V.RSEQ['F6'], '\xe9', '\xff', '\xc3\xa9', 'B', '[', 'O', '~']


def nav(r, n, w=(5, 3, 1)):
    o = []
    while len(o) < n:
        x = r.choices(['m', 'f', 'o'], w)[0]
        k = r.choice({'m': MOVE, 'f': FOLD, 'o': OTHER}[x])
        o += [k] * (r.choice([1, 1, 2, 5, 9]) if x == 'm' else 1)
    return o[:n]


def tracker(scn):
    c, ins = inputs(scn)
    docs = []
    for n, t, p in ins:
        try:
            d = V.Doc(t, c.keep, c.ascii, c.W)
        except (J.Bad, J.Skip2, RecursionError):
            raise Skip()
        if not d.ok:
            raise Skip()
        docs.append(d)
    colour = c.color and scn['term'][0] in COLOURED
    return c, V.Tracker(docs, [n for n, t, p in ins], colour, c.ascii, scn['term'][0]), docs


def split(r):
    """two documents side by side: scenario and keys"""
    import diffprops as D
    o = vopts(r)
    return D.session(r, *D.pair(r, o, r.choice([0, 1, 2, 5, 12]), huge=0), o), lambda n: D.dkeys(r, n)


def anytracker(scn):
    """of one document at a time or of two side by side"""
    if '--diff' in scn['procs'][0]['args']:
        import diffprops as D
        return D.dtracker(scn)
    return tracker(scn)


def follow(x, scn, r, tr, every=True):
    """feed the keys of the scenario to the model and compare every settled screen"""
    acts = scn['acts']
    by = {}
    for s in r.snaps:
        if not (s.acts and acts[s.acts - 1].get('inter', 0) >= 100 and s.acts < len(acts)):     # half of a key may have come
            by[s.acts] = s
    e = r.end()
    done = int(e.get('acts', len(acts)))
    trail = []
    checked = 0
    for i in range(len(acts) + 1):
        if i > done:
            break
        s = by.get(i)
        lk = [a['b'] for a in acts[:i] if a['k'] == 'key'][-1:]
        esc = lk and lk[0].endswith('\x1b')      # a lone ESC is only told from a function key after a second
        if s is not None and s.quiet >= (1100 if esc else 160):
            bad = tr.check(s.scr)
            checked += 1
            if getattr(tr, 'lost', False):
                return checked
            if bad:
                raise Violation('screen', 'after %s: %s\nscreen:\n%s' % (' '.join(trail) or 'start', bad, '\n'.join('  |' + t for t in s.scr.text)))
        elif i == done and r.verdict == 'ok':
            if not any(st.exited for st in tr.states):
                raise Violation('ended', 'the viewer ended by itself after %s' % (' '.join(trail) or 'start'))
            return checked
        if i < len(acts):
            a = acts[i]
            if a['k'] == 'key':
                nx = [q for q in range(i + 1, len(acts) + 1) if q in by and by[q].quiet >= 160 or q == len(acts)][0]
                if any(q['k'] not in ('key', 'nop') for q in acts[i + 1:nx]):
                    tr.seen = {}        # what was on the screen when the key was handled is not known
                maybe = any(q['k'] == 'tstp' or q['k'] == 'stop' and not q['n'] for q in acts[i + 1:nx])
                if maybe and a['inter']:
                    raise Skip()
                old = []
                for k in V.keys(a['b']):
                    old += tr.states
                    tr.key(k)
                if maybe:
                    tr.either(old)      # stopping from the keyboard throws away what was typed and not read yet
                trail.append(repr(a['b']))
            elif a['k'] != 'nop':
                tr.other()
                trail.append('%s(%s)' % (a['k'], ','.join(str(a[f]) for f in ('r', 'c', 'n') if f in a)))
    return checked


class View(Text):
    QUICK, THOROUGH = 4000, 200000

    def judge(self, x, scn):
        c, tr, docs = tracker(scn)
        r = x.run(scn)
        crash_check(r)
        n = follow(x, scn, r, tr)
        if n >= 2 and sum(len(d.nodes) for d in docs) >= 4:
            x.nontrivial(r)
        x.probe('screens', n)
        self.after(x, scn, r, tr)

    def after(self, x, scn, r, tr):
        pass


class C14(View):
    ID = 'C14'
    RULE = 'seeded documents x terminal kinds and sizes x options x short key sequences; every settled screen compared with the reference rendering, cell by cell; non-trivial: at least 4 values and 2 screens'

    def gen(self, r, i):
        s = session(r, [vdoc(r)], vopts(r))
        s['acts'] = keyacts(r, nav(r, r.randrange(0, 14)))
        return local(s)


class C15(View):
    ID = 'C15'
    RULE = 'seeded documents x terminal sizes x sequences of up to 60 moves (some folding, some meaningless keys); after every key the screen must be explained by a state of the reference model; non-trivial: at least 4 values and 2 screens'

    def gen(self, r, i):
        far = r.random() < .08
        s = session(r, [vlong(r) if far else vdoc(r)], vopts(r))
        ks = nav(r, r.randrange(5, 60), (8, 1, 1))
        if far:
            # to the items past the first hundreds, and moves from there
            ks = [V.RSEQ['NPAGE']] * r.choice([5, 10, 20, 40]) + nav(r, r.randrange(10, 40), (10, 1, 0)) + ['J'] * r.randrange(12) + ['K'] * r.randrange(12) + [V.RSEQ['PPAGE']] * r.randrange(5) + [V.RSEQ['NPAGE']] * r.randrange(5)
        s['acts'] = keyacts(r, ks, .25 if not far else .05)
        return local(s)


class C16(View):
    ID = 'C16'
    RULE = 'as C15 with mostly folding and unfolding keys'

    def gen(self, r, i):
        s = session(r, [vdoc(r)], vopts(r))
        s['acts'] = keyacts(r, nav(r, r.randrange(5, 40), (3, 6, 0.3)))
        return local(s)


def pieces(doc, r):
    n = r.choice(doc.nodes)
    t = n.key if n.key is not None and r.random() < .5 else n.text
    if not t:
        return r.choice(['a', 'e', '1', 'tr'])
    a = r.randrange(len(t))
    return t[a:a + r.choice([1, 1, 2, 3, 20])]


RXS = ['^a', 'b$', 'a.c', '[0-9]+', '(a|b)', '^.$', '.', '[a-c]x*', '^$', '[', '(', '*', 'a{2', '\\d', '\\D', '\\W', '[A-Z]', '\\bA', 'A\\B', '(a)\\1', '[^A-M]$', '^(?:T|f)']


def flags(r, must):
    """flags of a search, in any order"""
    f = list(must) + r.sample('iifbnsoz' if not must else 'iibnsofz', r.choice([0, 1, 1, 1, 2, 2, 3]))
    r.shuffle(f)
    return ''.join(f)


def search(r, doc):
    x = r.random()
    if x < .12:
        p = r.choice(RXS).replace('/', '') + '/' + flags(r, 'e')
    elif x < .2:
        p = r.choice(['zzz', 'nothing here', 'x' * 30])
    else:
        p = pieces(doc, r)
        if r.random() < .1:
            p = r.choice(['\\u0041', 'a\\u0062', '\\u006'])
        p = p.replace('\\', '\\\\') if r.random() < .1 else p
        p = p.replace('/', '\\/')
        if r.random() < .4:
            p += '/' + flags(r, '')
            if 'i' in p[p.rindex('/'):] and r.random() < .5:
                p = p[:p.rindex('/')].swapcase() + p[p.rindex('/'):] if '\\' not in p else p
    if r.random() < .1:
        p = r.choice([' ', '\t', '  ']) + p
    return p


def typed(r, p):
    """keys that type a pattern, perhaps with corrections, then confirm or give up"""
    o = '/'
    for c in p:
        if r.random() < .06:
            o += r.choice('abz') + '\x7f'
        if r.random() < .02:
            o += V.RSEQ[r.choice(['UP', 'DOWN', 'LEFT', 'RIGHT'])]
        o += c
    return o + (r.choice(['\n', '\r']) if r.random() < .95 else '\x1b')


class C17(View):
    ID = 'C17'
    RULE = 'seeded documents x search patterns (pieces of the document, flags, regular expressions, absent texts) x n, moves and folds in between; hits, their highlighting, the selection, the unfolding and the messages compared with the model after every key'

    def gen(self, r, i):
        d = vdoc(r)
        o = vopts(r)
        s = session(r, [d], o)
        doc = V.Doc(d, '--keep-order' in o, '--ascii' in o)
        acts = []
        for _ in range(r.randrange(1, 5)):
            acts += keyacts(r, nav(r, r.randrange(0, 6), (3, 4, 0.2)))
            t = typed(r, search(r, doc))
            if r.random() < .08:
                # a character of several bytes, taken back
                k = r.randrange(1, len(t))
                t = t[:k] + r.choice(['\xc3\xa9', '\xe2\x82\xac', '\xf0\x9f\x98\x80', 'a\xc3\xa9\x7f']) + '\x7f' + t[k:] if '\x1b' not in t else t
                acts.append(key(t))
            elif r.random() < .3:
                for k in V.keys(t):
                    acts.append(key(V.RSEQ.get(k, k), GAP if k != '\x1b' else 1500))
                if t[-1] == '\x1b':
                    acts.append({'gap': 1500, 'k': 'nop'})
            else:
                acts.append(key(t))
                if '\x1b' in t:
                    acts.append({'gap': 1500, 'k': 'nop'})
            acts += keyacts(r, [r.choice(['n', 'n', 'n', 'N', 'j', 'h', 'k']) for _ in range(r.randrange(0, 8))])
        s['acts'] = acts
        return local(s)

    def after(self, x, scn, r, tr):
        for st in tr.states[:1]:
            x.probe('hits' if st.hits else 'no_hits')



# ------------------------------------------------------------------ C18
def margins(scn, r):
    """ncurses sets scrolling margins for the size it knows when it starts and does not follow a change in between"""
    for t, p, k, w in r.events:
        if k == 'resize':
            at = w[2].split('=')[1]
            if at not in ('poll', 'run') and (scn['term'][0] == 'vt100' or not r.snaps or t <= r.snaps[0].t):
                raise Skip()


def edge(r):
    """somewhere while the program works, or -1: when it waits"""
    return r.choice([-1, -1, r.randrange(0, 50), r.randrange(0, 2000), r.randrange(0, 20000)])


def resize(r, gap=GAP):
    big = r.random() < .6
    if r.random() < .02:
        h, w = wide(r)
        return {'gap': gap, 'edge': edge(r), 'k': 'resize', 'r': h, 'c': w, 'g': r.randrange(2)}
    return {'gap': gap, 'edge': edge(r), 'k': 'resize', 'r': r.choice([8, 12, 24, 40, 50] if big else [2, 3, 4, 5, 6, 7]), 'c': r.choice([20, 40, 60, 80, 100, 132] if big else [2, 5, 10, 17, 25]), 'g': r.randrange(2)}


class C18(View):
    ID = 'C18'
    RULE = 'seeded documents x key sequences x changes of the terminal size (2x2 to 50x132, several at once, at any point of the execution, with or without the terminal losing its contents); settled screens compared with the model for the size of the moment; the side by side viewer too; non-trivial: at least one change of size and 4 values'

    def gen(self, r, i):
        s, ks = split(r) if r.random() < .15 else (session(r, [vdoc(r)], vopts(r)), lambda n: nav(r, n))
        acts = []
        for _ in range(r.randrange(1, 7)):
            acts += keyacts(r, ks(r.randrange(0, 8)))
            if r.random() < .2:
                acts.append(key('/' + pieces(V.Doc(s['files'][0][2], '--keep-order' in s['procs'][0]['args'], '--ascii' in s['procs'][0]['args']), r).replace('/', '')))
                acts.append(resize(r, r.choice([0, 10, 200])))
                acts.append(key(r.choice(['\n', 'a\n'])))
            for _ in range(r.choice([1, 1, 2, 4])):
                acts.append(resize(r, r.choice([GAP, 0, 1, 50])))
            acts.append({'gap': GAP, 'k': 'nop'})
        s['acts'] = acts
        return local(s)

    def judge(self, x, scn):
        c, tr, docs = anytracker(scn)
        for a in scn['acts']:
            if a['k'] not in ('key', 'resize', 'nop'):
                raise Skip()
        r = x.run(scn)
        crash_check(r)
        margins(scn, r)
        x.probe('screens', follow(x, scn, r, tr))
        if len(docs[0].nodes) >= 4 and r.faults.get('resize'):
            x.nontrivial(r)


# ------------------------------------------------------------------ C19
def restored(e, what):
    bad = [w for f, v, w in (('tty', 'sane', 'the line is not back in its mode'), ('alt', '0', 'the alternate screen is still shown'), ('cur', '1', 'the cursor is still hidden'), ('keypad', '0', 'the keypad is still in application mode')) if e.get(f) != v]
    if bad:
        raise Violation('terminal', '%s, but %s' % (what, ' and '.join(bad)))


class C19(View):
    ID = 'C19'
    RULE = 'seeded documents (one to three inputs, files or a slow pipe) x keys, resizes and slow terminals, then q, ^C, SIGINT or SIGTERM at any point of the execution (start, loading, drawing, prompt, between inputs); non-trivial: the end came after the first screen'

    def gen(self, r, i):
        n = r.choice([1, 1, 2, 3])
        docs = [vdoc(r, .2) for _ in range(n)]
        s = session(r, docs, vopts(r))
        if n == 1 and r.random() < .3:
            s['procs'][0]['args'] = vopts(r)
            s['procs'][0]['stdin'] = ['pipe', docs[0], r.choice([0, 0, 0, 1])]
            s['files'] = []
        if r.random() < .4:
            s['rscripts'].append(['*', [[r.choice([0, 50, 400]), r.choice([1, 5, 100])] for _ in range(r.randrange(1, 12))]])
        acts = keyacts(r, nav(r, r.randrange(0, 8)))
        for _ in range(r.choice([0, 0, 1, 2])):
            acts.append(resize(r))
        if r.random() < .3:
            acts.append(key(r.choice(['/', '/a', '/ab\x7f', '/a\n', '\x17', '\t'])))
        if r.random() < .3 and n > 1:
            acts.append(key('q'))
        m = r.randrange(4)
        g = r.choice([0, 1, 20, 149, 150, 151, GAP, GAP, 1000])
        if m == 0:
            acts += [key('q', g)] * n if r.random() < .5 else [key('q' * n, g)]
        elif m == 1:
            acts.append(key('\x03', g))
        else:
            acts.append({'gap': g, 'edge': edge(r), 'k': 'sig', 'n': r.choice([2, 15])})
            if r.random() < .2:
                acts.append({'gap': r.choice([0, 1, 30]), 'edge': edge(r), 'k': 'sig', 'n': r.choice([2, 15, 28])})
        s['acts'] = acts
        return local(s)

    def judge(self, x, scn):
        r = x.run(scn)
        self.ended(x, scn, r)

    def ended(self, x, scn, r):
        crash_check(r)
        acts = scn['acts']
        must = any(a['k'] == 'sig' and a['n'] in (2, 15) or a['k'] == 'key' and '\x03' in a['b'] for a in acts)
        if not must:
            # keys only: the model tells whether they end the last viewer
            if scn['procs'][0]['stdin'][0] == 'pipe' and scn['procs'][0]['stdin'][2]:
                raise Skip()
            must = self.quits(scn)
        e = r.end()
        if must and e['kind'] not in ('exit', 'signal'):
            raise Violation('alive', 'the program is still there (%s) long after it was told to stop' % r.verdict)
        if e['kind'] == 'signal' and e['code'] not in (2, 15):
            raise Violation('alive', 'ended by signal %d' % e['code'])
        if e['kind'] in ('exit', 'signal'):
            last = [t for t, p, k, w in r.events if k in ('sig', 'key', 'resize')]
            restored(e, 'the program ended with %s %d' % (e['kind'], e['code']))
            if must and last and int(e['t']) - last[-1] > 3000 + int(e['sys']) * scn['ttydelay'] and not scn['rscripts']:
                raise Violation('late', 'ended %d ms after it was told to stop' % (int(e['t']) - last[-1]))
            x.probe('by_' + e['kind'])
        if r.snaps or e.get('tbytes', '0') != '0':
            x.nontrivial(r)

    def quits(self, scn):
        c, tr, docs = tracker(scn)
        for a in scn['acts']:
            if a['k'] == 'key':
                for k in V.keys(a['b']):
                    tr.key(k)
        return all(s.exited for s in tr.states)


# ------------------------------------------------------------------ C20
class C20(View):
    ID = 'C20'
    RULE = 'seeded documents x key sequences with ^Z, SIGTSTP or SIGSTOP at any point, the terminal used by others and its size changed meanwhile, then SIGCONT; the terminal has to be usable while stopped and the settled screen explained by the model afterwards; the side by side viewer too; non-trivial: stopped at least once'

    def gen(self, r, i):
        s, ks = split(r) if r.random() < .25 else (session(r, [vdoc(r)], vopts(r)), lambda n: nav(r, n))
        s['ttydelay'] = r.choice([0, 0, 0, 2])
        acts = [{'gap': GAP, 'k': 'nop'}] if r.random() < .8 else []
        for _ in range(r.randrange(1, 4)):
            acts += keyacts(r, ks(r.randrange(0, 8)))
            if r.random() < .2:
                acts.append(key('/' + search(r, V.Doc(s['files'][0][2], '--keep-order' in s['procs'][0]['args'], '--ascii' in s['procs'][0]['args'])).replace('\t', '') + '\n'))
            m = r.randrange(4)
            g = r.choice([GAP, GAP, 0, 1, 100, 151])
            if m == 0 and s['term'][0] not in ('linux', 'vt100'):
                acts.append({'gap': g, 'edge': edge(r), 'k': 'stop', 'n': 1})
            elif m == 1:
                acts.append({'gap': g, 'edge': edge(r), 'k': 'stop', 'n': 0})
            else:
                acts.append(key('\x1a', g))
            for _ in range(r.choice([0, 0, 1, 2])):
                q = resize(r)
                q['edge'] = -1
                acts.append(q)
            acts.append({'gap': r.choice([0, 10, 5000]), 'k': 'cont'})
            acts.append({'gap': 600, 'k': 'nop'})
        s['acts'] = acts
        return local(s)

    def judge(self, x, scn):
        c, tr, docs = anytracker(scn)
        st = False
        for a in scn['acts']:
            stop = a['k'] == 'stop' or a['k'] == 'key' and a['b'] == '\x1a'
            if a['k'] == 'stop' and a['n'] and scn['term'][0] in ('linux', 'vt100'):
                raise Skip()
            if a['k'] == 'key' and st or a['k'] == 'cont' and not st or stop and st:
                raise Skip()
            st = st or stop
            if a['k'] == 'cont':
                st = False
        if st:
            raise Skip()
        r = x.run(scn)
        crash_check(r)
        started = False
        n = 0
        at = ''
        for t, p, k, w in r.events:
            if k == 'stop' or k == 'key' and w[0] == '\\x1a':
                at = w[1]
                hard = k == 'stop' and w[0] == '1'
                if at == 'at=write' and any('/' in q['b'] for q in scn['acts'] if q['k'] == 'key'):
                    tr.civis = False        # stopped while it shows or hides the cursor, ncurses takes one for the other from then on
            if k == 'stopped':
                n += 1
                f = dict(z.split('=') for z in w)
                if not hard:
                    f['keypad'] = '0'
                    if at == 'at=write' or not tr.civis:
                        f['cur'] = '1'      # ncurses only notes that the cursor is hidden once this is written
                    restored(f, 'the program was stopped from the keyboard')
        s2 = copy.deepcopy(scn)
        for a in s2['acts']:
            if a['k'] == 'key' and a['b'] == '\x1a':
                a['k'] = 'tstp'
        margins(scn, r)
        x.probe('screens', follow(x, s2, r, tr))
        if n:
            x.nontrivial(r)


# ------------------------------------------------------------------ C21
class C21(View):
    ID = 'C21'
    RULE = 'seeded documents x key sequences, executed once with pauses after each key and once in bursts, split on slow lines (function keys too), typed ahead while the input is still loading, with a slow terminal and another heap; the two final screens (or ends) must be the same; the side by side viewer too; non-trivial: at least 5 keys and typed ahead'

    def gen(self, r, i):
        n = r.choice([1, 1, 2])
        s, nk = (session(r, [vdoc(r, .3) for _ in range(n)], vopts(r)), lambda m: nav(r, m, (5, 3, .2))) if r.random() < .8 else split(r)
        ks = [k for k in nk(r.randrange(4, 40)) if ord(k[0]) >= 32 or len(k) > 1]
        for _ in range(r.choice([0, 1, 2])):
            j = r.randrange(len(ks) + 1)
            d = V.Doc(s['files'][0][2], '--keep-order' in s['procs'][0]['args'], '--ascii' in s['procs'][0]['args'])
            ks[j:j] = list('/' + search(r, d).replace('\t', '') + '\n') + [r.choice(['n', 'n', 'j'])] * r.randrange(4)
        if n == 2:
            ks.insert(r.randrange(len(ks) + 1), 'q')
        s['acts'] = [key(k) for k in ks]
        local(s)
        alt = []
        j = 0
        ks = [a['b'] for a in s['acts']]
        while j < len(ks):
            m = r.choice([1, 1, 2, 5, 20])
            b = ''.join(ks[j:j + m])
            j += m
            alt.append(key(b, r.choice([0, 0, 1, 7, 149, 150, 151, 300]), r.choice([0, 0, 1, 10, 10, 160, 600, 950])))
            if alt[-1]['inter']:
                alt.append({'gap': alt[-1]['inter'] * len(b) + 1, 'k': 'nop'})
        s['meta']['alt'] = dict(acts=alt, rscripts=[['*', [[r.choice([0, 100, 900]), r.choice([1, 10, 100])] for _ in range(r.randrange(0, 6))]]], ttydelay=r.choice([0, 0, 3]), heap=heap(r))
        return s

    def judge(self, x, scn):
        c, tr, docs = anytracker(scn)
        if any(a['k'] != 'key' for a in scn['acts']):
            raise Skip()
        alt = scn['meta']['alt']
        if ''.join(a.get('b', '') for a in alt['acts']) != ''.join(a['b'] for a in scn['acts']):
            raise Skip()
        r = x.run(scn)
        crash_check(r)
        s2 = copy.deepcopy(scn)
        s2.update(alt)
        s2['rscripts'] = [e for e in alt['rscripts'] if e[1]]
        r2 = x.run(s2)
        crash_check(r2)
        a, b = r.screen(), r2.screen()
        ends = [(q.verdict, q.end()['kind'], q.end()['code'], q.out(2)) for q in (r, r2)]
        if ends[0] != ends[1]:
            raise Violation('ends', 'ends as %s when keys are typed slowly, as %s when they come fast' % tuple(show(str(e)) for e in ends))
        if r.verdict != 'ok' and (a.text, a.runs) != (b.text, b.runs):
            k = [i for i in range(len(a.text)) if (a.text[i], a.runs[i]) != (b.text[i], b.runs[i])][0]
            raise Violation('timing', 'row %d is %r %s after slow keys, %r %s after the same keys in bursts' % (k, a.text[k], a.runs[k], b.text[k], b.runs[k]))
        if len(scn['acts']) >= 5 and r2.faults.get('typeahead'):
            x.nontrivial(r2)

    def shrink(self, scn):
        for i in range(len(scn['acts'])):
            s = copy.deepcopy(scn)
            del s['acts'][i]
            s['meta']['alt']['acts'] = [key(''.join(a['b'] for a in s['acts']), 0)]
            yield s


# ------------------------------------------------------------------ C28
class C28(View):
    ID = 'C28'
    RULE = 'sequences of one to four inputs (files, pipe with the keyboard on the terminal, arguments), some malformed, truncated, tolerated by -W or failing to be read, shown one after the other with q in between; or a terminal that cannot be used; non-trivial: two inputs or a failure'

    def gen(self, r, i):
        n = r.choice([1, 2, 2, 3, 4])
        docs = [vdoc(r, .2) for _ in range(n)]
        o = vopts(r)
        s = session(r, docs, o)
        bad = r.random()
        if bad < .35:
            from textprops import mutate
            k = r.randrange(n)
            d = s['files'][k][2]
            if r.random() < .5:
                s['files'][k][2] = d[:r.randrange(0, max(1, len(d.rstrip()) - 1))]
            else:
                s['files'][k][2] = d[:-1] + '~' if r.random() < .3 else '{"a":1 "b"}'
            s['meta']['bad'] = 1
        elif bad < .5:
            s['procs'][0]['args'].insert(0, '-W')
            k0 = r.randrange(n)
            for k in range(n):
                if k == k0 or r.random() < .5:
                    s['files'][k][2] = r.choice(['{"a":1,"a":2,"b":TRUE}', '[Null,"\\q"]', '{"x":{"k":1,"k":[]}}', '[1,\n"\\s",\nFalse]', 'TRUE'])
        elif bad < .62:
            m = r.randrange(3)
            if m == 0:
                s['procs'][0] = proc(o, ('pipe', docs[0], 0), 'tty')
                s['files'] = []
                s['notty'] = 1
            elif m == 1:
                s['term'][0] = r.choice(['nosuchterm', 'foo', ''])
            else:
                s['term'][0] = 'nosuchterm'
                s['procs'][0] = proc(o, ('pipe', docs[0], 0), 'tty')
                s['files'] = []
            s['meta']['unusable'] = 1
        elif bad < .75:
            s['procs'][0] = proc(o, ('pipe', docs[0], 0), 'tty')
            s['files'] = []
        elif bad < .85 and n == 1:
            s['procs'][0] = proc(o + ['--'] + docs[0].split(' '), ('tty', '', 0), 'tty')
            s['files'] = []
        s['rscripts'] = [['*', chunks(r, 200)]] if r.random() < .4 else []
        s['rscripts'] = [e for e in s['rscripts'] if e[1]]
        acts = []
        for _ in range(n):
            acts += keyacts(r, nav(r, r.randrange(0, 4), (3, 2, 0)))
            acts.append(key('q', 2000))
        if r.random() < .2:
            acts.pop()
        s['acts'] = acts
        return local(s)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        if scn['meta'].get('unusable'):
            if not (scn['notty'] and scn['procs'][0]['stdin'][0] == 'pipe' or scn['term'][0] in ('nosuchterm', 'foo', '')):
                raise Skip()
            r = x.run(scn)
            crash_check(r)
            e = r.end()
            if e['kind'] != 'exit':
                raise Violation('unusable', 'the terminal cannot be used, but the program goes on (%s)' % r.verdict)
            if not r.out(2) and not r.out(1):
                raise Violation('silent', 'nothing is said about the terminal that cannot be used')
            if e['code'] == 0:
                raise Violation('unusable', 'exit status 0 although nothing could be displayed')
            x.nontrivial(r)
            x.probe('unusable')
            return
        docs, names, bad, relaxed = [], [], None, []
        for n, t, p in ins:
            try:
                d = V.Doc(t, c.keep, c.ascii, c.W)
                root, rd = J.read(t, c.W, c.ascii)
                if t[rd.i:].strip(J.WS):
                    raise Skip()
            except J.Skip2:
                raise Skip()
            except RecursionError:
                raise Skip()
            except J.Bad as b:
                if b.kind == 'syntax' and b.tok and LENIENT.match(t[b.tok[0]:b.tok[1] + 1]):
                    raise Skip()        # numbers with leading zeros and the like are outside of the property
                bad = n
                break
            if not d.ok:
                raise Skip()
            if rd.relaxed:
                relaxed.append((n, t, rd.relaxed))
            docs.append(d)
            names.append(n)
        r = x.run(scn)
        crash_check(r)
        e = r.end()
        err = r.out(2)
        if docs:
            tr = V.Tracker(docs, names, c.color and scn['term'][0] in COLOURED, c.ascii, scn['term'][0])
            x.probe('screens', follow(x, scn, r, tr))
            gone = any(s.exited for s in tr.states)
        else:
            gone = True
        if gone:
            if e['kind'] != 'exit':
                raise Violation('alive', 'the last input was left or refused, but the program goes on (%s)' % r.verdict)
            restored(e, 'the program ended')
            if bad and bad not in err:
                raise Violation('silent', 'input %r is malformed, but the diagnostic does not name it: %s' % (bad, show(err)))
            if relaxed and e['kind'] == 'exit':
                from textprops import C06
                C06.warned(None, relaxed, err)
            if not bad and not relaxed and err:
                raise Violation('stderr', 'diagnostic although all inputs are valid: ' + show(err))
        elif e['kind'] == 'exit':
            raise Violation('ended', 'the program ended before the last input was left; ' + show(err))
        if len(ins) > 1 or bad:
            x.nontrivial(r)
        x.probe('bad' if bad else 'relaxed' if relaxed else 'fine')


PROPS = [C14, C15, C16, C17, C18, C19, C20, C21, C28]
