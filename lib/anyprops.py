"""Properties of the program as a whole: it depends on its input only, and no input makes it crash, hang or stay silent."""
import copy
import jsonmodel as J
import viewmodel as V
import viewprops as P
import diffprops as D
import textprops as T
import cmdprops as CP
from engine import blank, proc, Violation, Skip, crash_check
from textprops import Text, inputs, norm, chunks, heap, show, NAMES, cli
from viewprops import key, keyacts, nav, vopts, vdoc, local, GAP


# ------------------------------------------------------------------ C26
class C26(Text):
    ID = 'C26'
    VARIANT = 'pattern'
    QUICK, THOROUGH = 3000, 150000
    RULE = 'scenarios of all the other properties (redirected output, good and malformed inputs, viewer, sequences of inputs, side by side viewer, external command), each executed under three layouts and initial contents of the memory; everything observable must be the same; non-trivial: the program allocated memory and wrote something'
    BASE = [(T.C01, 3), (T.C03, 1), (T.C04, 1), (T.C05, 2), (T.C06, 1), (T.C07, 1), (P.C14, 2), (P.C16, 2), (P.C17, 2), (P.C28, 2), (D.C22, 1), (D.C23, 1), (D.C24, 2), (CP.C10, 1)]

    def gen(self, r, i):
        c = r.choices([b for b, w in self.BASE], [w for b, w in self.BASE])[0]
        s = c().gen(r, i)
        if s is None:
            return None
        for a in s['acts']:
            # a point of the execution is a number of code edges, which may depend on addresses (a search in a table)
            a['edge'] = -1
        s['meta'] = {'base': c.ID, 'heaps': [heap(r) for _ in range(2)]}
        s['heap'] = heap(r)
        if r.random() < .7:
            s['stack'] = r.choice([128, 512, 1536])
        s['meta']['builds'] = [r.choice(['', '', 'pattern']) for _ in range(2)]
        return s

    def judge(self, x, scn):
        ref = None
        for h, b in zip([scn['heap']] + scn['meta']['heaps'], [''] + scn['meta']['builds']):
            s = copy.deepcopy(scn)
            s['heap'] = h
            s['build'] = b
            r = x.run(s)
            crash_check(r)
            o = self.seen(r)
            if ref is None:
                ref, r0 = o, r
                continue
            for (w, a), (w2, b) in zip(ref, o):
                if a != b:
                    raise Violation('depends', 'two executions which differ in the layout of the memory only: %s is %s / %s' % (w, show(str(a), 600), show(str(b), 600)))
        x.probe(scn['meta']['base'])
        if r0.out(1) or r0.out(2) or r0.snaps:
            x.nontrivial(r0)

    def seen(self, r):
        e = r.end()
        o = [('the end', (r.verdict, e['kind'], e['code'], e.get('tty'), e.get('alt'), e.get('cur'))), ('stdout', r.out(1)), ('stderr', r.out(2))]
        o.append(('the list of files', sorted(r.vfs.items())))
        ss = [s for s in r.snaps if s.quiet >= 160]
        o.append(('the number of screens', [(s.acts, s.t) for s in ss]))
        for s in ss:
            o.append(('the screen after %d actions' % s.acts, (s.scr.text, s.scr.runs, s.scr.cy, s.scr.cx)))
        f = r.screen() if r.final else None
        if f and r.verdict != 'ok':
            o.append(('the last screen', (f.text, f.runs)))
        return o

    def shrink(self, scn):
        for h in scn['meta']['heaps']:
            if len(scn['meta']['heaps']) > 1:
                s = copy.deepcopy(scn)
                i = scn['meta']['heaps'].index(h)
                s['meta']['heaps'] = [h]
                s['meta']['builds'] = [scn['meta']['builds'][i]]
                yield s
        if scn['meta']['base'] in ('C22', 'C23', 'C24'):
            for s in D.Diff().shrink(scn):
                yield s


# ------------------------------------------------------------------ C27
PIECES = ['{', '}', '[', ']', ',', ':', '"', '\\', '"a"', '"\\', '\\u', '\\ud800', '\\udc00\\ud800', '1', '-', '.', 'e', '+', 'E+9999', '-0', 'true', 'false', 'null', 't', 'nul', '\0', '\n', '\r', '\t', ' ', '\x7f', '\x1b[2J', '\xff', '\xfe', '\xc3', '\xc3\xa9', '\xe2\x82', '\xf0\x9f\x98\x80', '\xef\xbb\xbf', '/', '//', '#', '99999999999999999999', '1e400', '-1e-400', '0.1', '\x00\x00', '\x80']


def soup(r, n):
    return ''.join(r.choice(PIECES) if r.random() < .8 else chr(r.randrange(256)) for _ in range(n))


def corrupt(r, d):
    """bytes of a document changed, removed, repeated, moved"""
    d = list(d)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not d:
            break
        i = r.randrange(len(d))
        m = r.randrange(6)
        if m == 0:
            del d[i]
        elif m == 1:
            d[i] = chr(r.randrange(256))
        elif m == 2:
            d[i] = chr(ord(d[i]) ^ (1 << r.randrange(8)))
        elif m == 3:
            d[i:i] = list(r.choice(PIECES))
        elif m == 4:
            j = r.randrange(i, min(len(d), i + 12) + 1)
            d[i:i] = d[i:j] * r.choice([1, 2, 30])
        else:
            del d[i:]
    return ''.join(d)


def deep(r, hi):
    """nested beyond what the program accepts, or just below, closed or not"""
    n = r.choice([200, 500, 1000, 2046, 2047, 2048, 2049, 2050, 5000, 20000, 60000])
    n = min(n, hi)
    o = r.choice(['[', '{"a":', '[1,', '{"a":1,"b":', '[[],'])
    m = len(o) - len(o.lstrip('[{')) if o != '[[],' else 1
    c = {'[': ']', '{': '}'}[o[0]]
    k = r.choice([n, n, n, 0, n - 1, n + 1])
    return o * n + r.choice(['1', '', '"x"', '[]', '{}', '@']) + c * k


def anything(r, hi=60000, size=400):
    m = r.randrange(10)
    if m < 2:
        return soup(r, r.choice([0, 1, 2, 3, 5, 10, 30, 100]))
    if m < 6:
        return corrupt(r, T.plain_doc(r, maxdepth=r.choice([1, 2, 4])) if r.random() < .5 else vdoc(r, .3))
    if m == 6:
        return deep(r, hi)
    if m == 7:
        q = r.choice(['"%s"', '["%s"]', '{"%s":1}', '{"k":"%s"}', '%s', '[%s]', '-%s', '1.%s', '1e%s', '{"a":1,"%s":{"b":[2]}}'])
        return q % (r.choice(['x', '9', '0', '\\\\', '\\"', '\\u00e9', '\xe9', '\x01', ' ', '\xe2\x82\xac', '-', 'a b ', '\\']) * r.choice([100, 254, 255, 256, 257, 1023, 1024, 4096, 5000, 20000]))
    if m == 8:
        return T.plain_doc(r, dup=.2, caps=.1, badesc=.1)
    return r.choice(['', ' ', '\n', '\0', '[', '{', '"', '-', ']', '}', ',', ':', '[]]', '{}}', '[1', '{"', '{"a', '{"a"', '{"a":', '{"a":1', '{"a":1,', '[,', '[1,', 't', 'tru', '\xef\xbb\xbf[1]', '[1]\0', '\x1b', '"\\', '"\\u', '"\\u1', '"\\u12', '"\\u123', '"\\u1234', '[1]\n[2]', '1 2', '[' * 3000])


class C27(Text):
    ID = 'C27'
    VARIANT = 'pattern'
    QUICK, THOROUGH = 4000, 200000
    RULE = 'arbitrary bytes (token soup, corrupted documents, nesting around and far beyond the limit, very long strings, numbers and keys) x all sources x options x redirected, viewer and side by side viewer with arbitrary keys, sizes and searches; the program must end by itself or when told to, without crash, and an input it does not print is reported; non-trivial: at least 3 bytes'

    def gen(self, r, i):
        m = r.randrange(10)
        s = self.text(r) if m < 6 else self.viewer(r) if m < 9 else self.diff(r)
        if r.random() < .3:
            s['stack'] = r.choice([128, 512, 1536])
        if r.random() < .3:
            s['build'] = 'pattern'
        return s

    def text(self, r):
        s = blank()
        docs = [anything(r) for _ in range(r.choice([1, 1, 1, 2]))]
        o = T.opts(r, W=.4, compress=.4)
        if any(len(d) > 3000 for d in docs) and '--compress' not in o:
            o.append('--compress')      # the size of indented text is quadratic in the nesting
        T.source(r, s, docs, o)
        s['procs'][0]['stdout'] = 'pipe'
        s['meta']['how'] = 'text'
        return T.finish(s, r, 200)

    def keys(self, r, s):
        acts = []
        for _ in range(r.choice([0, 1, 2, 4])):
            m = r.randrange(5)
            if m == 0:
                acts.append(key(''.join(chr(r.choice([r.randrange(256), r.randrange(32, 127), 0x1b])) for _ in range(r.randrange(1, 30))).replace('\x03', '').replace('\x1a', '').replace('\x1c', '').replace('q', ''), GAP))
            elif m == 1:
                acts += keyacts(r, nav(r, r.randrange(1, 30)))
            elif m == 2:
                q = P.resize(r)
                if r.random() < .4:
                    q['r'], q['c'] = r.randrange(1, 6), r.randrange(1, 12)
                acts.append(q)
            elif m == 3:
                acts.append(key('/' + r.choice(['a', '1', 'x/e', '.', 'e.', '[', '[a/e', '\\u00', '\\uzzzz', '\xc3\xa9', '/i', '\\', '\\\\/', 'x' * 300, '\x7f\x7f', '*/e', '(((/e', 'a{1,2}/e', '\\1/e', '\\d/e']) + r.choice(['\n', '\n', '\x1b']), GAP))
                acts.append({'gap': 1500, 'k': 'nop'})
                acts += keyacts(r, [r.choice(['n', 'n', 'j', 'h', 'l']) for _ in range(r.randrange(5))])
            else:
                acts.append(key(r.choice(['\x17', '\x01', '\t', '\x0c', '\x1b[', '\x1bO', '\x1b[A\x1b[B\x1b[C\x1b[D\x1b[5~\x1b[6~', '\x1b[1;5A', '\x1b[99~', '\x80', '\xff', '\0'])))
        if r.random() < .5:
            acts.append(key('\x03', r.choice([0, 100, GAP, 1500])))
        else:
            acts.append({'gap': r.choice([0, 1, 100, GAP]), 'edge': P.edge(r), 'k': 'sig', 'n': r.choice([2, 15])})
        s['acts'] = acts
        if r.random() < .2:
            s['term'][1:] = [r.randrange(1, 9), r.randrange(1, 16)]
        s['heap'] = heap(r)
        if r.random() < .2:
            s['rscripts'].append(['*', chunks(r, 200)])
        s['rscripts'] = [e for e in s['rscripts'] if e[1]]
        return local(s)

    def viewer(self, r):
        n = r.choice([1, 1, 1, 2])
        docs = [anything(r, 3000) if r.random() < .6 else T.plain_doc(r) for _ in range(n)]
        docs = [d if d.count(',') < 1500 else d[:2000] for d in docs]       # a search costs the square of the number of items
        o = T.opts(r, W=.4, compress=0)
        s = P.session(r, docs, o)
        if n == 1 and r.random() < .2:
            s['procs'][0]['args'] = o
            s['procs'][0]['stdin'] = ['pipe', docs[0], 0]
            s['files'] = []
        s['meta']['how'] = 'view'
        s['limits'] = {'edges': 300000000}
        return self.keys(r, s)

    def diff(self, r):
        a, b = D.pair(r, [], r.choice([0, 1, 4])) if r.random() < .4 else (T.plain_doc(r), T.plain_doc(r)) if r.random() < .3 else (anything(r, 100), anything(r, 100))
        if not D.cheap(a, b):
            a, b = a[:300], b[:300]
        a, b = (d if len(d) < 3000 else d[:1000] for d in (a, b))       # moving costs the square of the length of a text
        s = D.session(r, a, b, T.opts(r, W=.4, compress=0))
        s['meta']['how'] = 'diff'
        s['limits'] = {'edges': 600000000}
        return self.keys(r, s)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        p = scn['procs'][0]
        how = scn['meta']['how']
        if how == 'text':
            if p['stdout'] != 'pipe' or p['stdin'][2] or c.diff or c.cmd is not None:
                raise Skip()
            r = x.run(scn)
            crash_check(r)
            e = r.end()
            if e['kind'] != 'exit':
                raise Violation('end', 'ended with %s %s (%s) on its input' % (e['kind'], e['code'], r.verdict))
            if not r.out(1) and not r.out(2):
                raise Violation('silent', 'nothing printed and no diagnostic, status %d' % e['code'])
            x.probe('printed' if r.out(1) else 'refused')
        else:
            told = any(a['k'] == 'sig' and a['n'] in (2, 15) or a['k'] == 'key' and '\x03' in a['b'] for a in scn['acts'])
            if not told or p['stdin'][2]:
                raise Skip()
            r = x.run(scn)
            crash_check(r)
            e = r.end()
            if e['kind'] not in ('exit', 'signal'):
                raise Violation('end', 'the program is still there (%s) long after it was told to stop' % r.verdict)
            if e['kind'] == 'signal' and e['code'] not in (2, 15):
                raise Violation('end', 'ended by signal %d' % e['code'])
            P.restored(e, 'the program ended with %s %d' % (e['kind'], e['code']))
            x.probe('by_' + e['kind'])
        x.probe(how)
        if sum(len(t) for n, t, q in ins) >= 3:
            x.nontrivial(r)


PROPS = [C26, C27]
