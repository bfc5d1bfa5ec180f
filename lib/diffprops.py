"""Properties of the side by side viewer (--diff) and of the program as a whole on arbitrary inputs and heaps."""
import copy
import re
import jsonmodel as J
import viewmodel as V
import viewprops as P
from engine import blank, proc, Violation, Skip, crash_check
from textprops import Text, inputs, norm, chunks, heap, show, pick
from viewprops import key, keyacts, nav, vopts, vdoc, geometry, local, GAP, COLOURED


# ------------------------------------------------------------------ documents as trees, and edits of them
def tree(text):
    def conv(n):
        if n.kind == 'arr':
            return ['arr', [conv(c) for c in n.items]]
        if n.kind == 'obj':
            return ['obj', [[V.keyraw(text, c.start), conv(c)] for k, c in n.items]]
        return ['sc', text[n.start:n.end]]
    root, rd = J.read(text)
    return conv(root)


def ser(t, r=None, p=None):
    w = (lambda d=0: '') if p is None else (lambda d=0: J.wsp(r, p, depth=d))
    if t[0] == 'sc':
        return t[1]
    if t[0] == 'arr':
        return '[' + w() + (w() + ',' + w()).join(ser(c, r, p) for c in t[1]) + w() + ']'
    return '{' + w() + (w() + ',' + w()).join(k + w() + ':' + w() + ser(c, r, p) for k, c in t[1]) + w() + '}'


def conts(t, o=None):
    o = [] if o is None else o
    if t[0] != 'sc':
        o.append(t)
        for c in t[1]:
            conts(c[1] if t[0] == 'obj' else c, o)
    return o


def scalar(r):
    return ['sc', r.choice(['true', 'false', 'null', '0', '1', '2', '1234567', '1234568', '-1', '"a"', '"b"', '"1"', '"true"', '"null"', '"hello world"', '"hello worle"', '"x%d"' % r.randrange(100), '%d' % r.randrange(-50, 1000), '0.5', '"%s"' % ('long ' * r.randrange(1, 30))])]


def value(r):
    x = r.random()
    if x < .6:
        return scalar(r)
    if x < .7:
        return [r.choice(['arr', 'obj']), []]
    if x < .85:
        return ['arr', [value(r) for _ in range(r.randrange(1, 4))]]
    return ['obj', [['"%s"' % k, value(r)] for k in r.sample('abcdxyz', r.randrange(1, 4))]]


def newkey(r, c):
    used = {J.decode_tokens(k) for k, v in c[1]}
    for _ in range(30):
        k = '"%s"' % ''.join(r.choice('abcABC_1Z~') for _ in range(r.randrange(1, 4)))
        if J.decode_tokens(k) not in used:
            return k
    return None


def near(r, s):
    """the token of a value or key, nearly the same"""
    m = r.randrange(6)
    if s[0] == '"':
        at = [i for i in range(1, len(s) - 1) if s[i].isalnum() and '\\' not in s[max(0, i - 6):i]]
        if m == 0 and len(s) > 2:
            return s[1:-1] if s[1:-1] in ('true', 'false', 'null') or re.fullmatch(r'-?(0|[1-9]\d*)(\.\d+)?', s[1:-1]) else s
        if not at or m == 1:
            return s[:-1] + r.choice(['x', '_', '1', ':', '~']) + '"'
        i = r.choice([at[0], at[-1], r.choice(at)])
        if m <= 3:
            return s[:i] + s[i].swapcase() + s[i + 1:]
        if m == 4:
            return s[:i] + r.choice('aZ19') + s[i + 1:]
        return s[:i] + s[i] + s[i:]
    if m == 0:
        return '"%s"' % s
    if s in ('true', 'false', 'null'):
        return r.choice(['true', 'false', 'null'])
    if m == 1:
        return s[1:] if s[0] == '-' else '-' + s
    if m == 2 and s.lstrip('-').isdigit():
        return s + r.choice(['.5', '0', '1', '.25'])
    return s


def edit(r, t):
    """one change somewhere in the tree, in place; returns the new root"""
    cs = conts(t)
    if not cs or r.random() < .03:
        return value(r)
    c = r.choice(cs)
    l = c[1]
    x = r.randrange(10)
    i = r.randrange(len(l)) if l else 0
    if x == 0 and l:
        del l[i]
    elif x <= 2:
        if c[0] == 'arr':
            l.insert(r.randrange(len(l) + 1), value(r))
        else:
            k = newkey(r, c)
            if k:
                l.insert(r.randrange(len(l) + 1), [k, value(r)])
    elif x <= 4 and l:
        if c[0] == 'arr':
            l[i] = scalar(r) if r.random() < .7 else value(r)
        else:
            l[i][1] = scalar(r) if r.random() < .7 else value(r)
    elif x == 5 and len(l) > 1:
        j = r.randrange(len(l))
        l[i], l[j] = l[j], l[i]
    elif x == 6 and l and c[0] == 'obj':
        k = newkey(r, c)
        if k:
            l[i][0] = k
    elif x == 8 and l:
        v = l[i][1] if c[0] == 'obj' else l[i]
        if v[0] == 'sc':
            v[1] = near(r, v[1])
    elif x == 9 and l and c[0] == 'obj':
        k = near(r, l[i][0])
        if k[0] == '"' and J.decode_tokens(k) not in {J.decode_tokens(q) for q, v in l}:
            l[i][0] = k
    elif x == 7:
        if c[0] == 'arr':
            ks = r.sample(['"k%d"' % n for n in range(len(l) + 3)], len(l))
            c[0], c[1] = 'obj', [[k, v] for k, v in zip(ks, l)]
        else:
            c[0], c[1] = 'arr', [v for k, v in l]
    return t


def renumber(r, s):
    """the number written in another way, shown alike"""
    t = V.number(s)
    o = [t, t + '.0', t + 'e0', '%se%d' % (t, r.choice([-1, 1, 2])), '%.1f' % float(s), '%e' % float(s), '%.17g' % float(s), repr(float(s)).upper(), s + '0' if '.' in s and 'e' not in s.lower() else s]
    if re.fullmatch(r'-?[1-9][0-9]*', t):
        z = len(t) - len(t.rstrip('0'))
        o += [t[:len(t) - z] + 'e%d' % z, t + '0e-1', t[:-1] + '.' + t[-1] + 'E+1' if t[:-1].strip('-') else t]
    o = [x for x in o if re.fullmatch(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?', x) and J.num_value(x) is not None and V.number(x) == t]
    return r.choice(o) if o else s


def respell(r, t):
    """the same document, written otherwise"""
    if t[0] == 'sc':
        s = t[1]
        if s[0] == '"' and len(s) > 2 and r.random() < .2:
            i = r.randrange(1, len(s) - 1)
            if s[i] not in '"\\' and '\\' not in s[max(0, i - 6):i] and 33 <= ord(s[i]) < 127 and s[i] != '/':
                return ['sc', s[:i] + '\\u%04x' % ord(s[i]) + s[i + 1:]]
        elif (s[0] == '-' or s[0].isdigit()) and r.random() < .3:
            return ['sc', renumber(r, s)]
        return t
    if t[0] == 'arr':
        return ['arr', [respell(r, c) for c in t[1]]]
    return ['obj', [[k, respell(r, c)] for k, c in t[1]]]


def shuffle(r, t):
    if t[0] == 'obj':
        l = [[k, shuffle(r, c)] for k, c in t[1]]
        r.shuffle(l)
        return ['obj', l]
    if t[0] == 'arr':
        return ['arr', [shuffle(r, c) for c in t[1]]]
    return t


def good(text, o, nodes=120):
    """whether the model can tell the lines of the document from the gaps between them"""
    try:
        d = V.Doc(text, '--keep-order' in o, '--ascii' in o)
    except (J.Bad, J.Skip2, RecursionError):
        return False
    return d.ok and len(d.nodes) <= nodes and all(n.key is not None or n.cont() or n.text.strip(' ') for n in d.nodes)


def cheap(a, b):
    """comparing strings of one with those of the other takes a bounded time"""
    x, y = (sum(len(m) for m in d.split('"')) for d in (a, b))
    return x * y < 1500000


def large(r, o):
    """a document past the usual bounds whose comparison still takes a bounded time"""
    for _ in range(10):
        a = P.vhuge(r)
        if good(a, o, 330) and depth(a) < 140:
            return a


def depth(t):
    n = m = 0
    for c in t:
        n += (c in '[{') - (c in ']}')
        m = max(m, n)
    return m


def pair(r, o, edits, big=.4, huge=.04):
    x = r.random() < huge and large(r, o)
    for _ in range(30):
        a = x or vdoc(r, big, huge=0)
        if not x and not good(a, o):
            continue
        t = tree(a)
        for _ in range(edits):
            t = edit(r, t)
        b = ser(t, r, J.Profile(r) if r.random() < .3 else None)
        if good(b, o, 350 if x else 120) and cheap(a, b):
            return (a, b) if r.random() < .5 else (b, a)
    return '[1,2,3]', '[1,4,3]'


def almost(r):
    """two documents which differ in one character of a text, at its beginning or far from it"""
    n = r.choice([1, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 100, 127, 128, 129, 200, 255, 256, 257, 300, 520, 700, 1030])
    s = r.choice(['x' * n, ''.join(r.choice('abc ') for _ in range(n)), ''.join(r.choice('0123456789') for _ in range(n))])
    j = r.choice([0, n - 1, n - 1, n - 1, r.randrange(n)])
    t = r.choice([s[:j] + r.choice('yQ7') + s[j + 1:], s[:j] + r.choice('yQ7') + s[j + 1:], s[:j] + s[j + 1:], s + r.choice('y ')])
    f = r.choice(['{"%s":1}', '{"k%s":[1,2]}', '{"a":2,"b%s":{},"c":3}', '["q%s"]', '[1,"%s",2]', '{"k":"%s"}', '{"a":1,"k":"v%s","z":[]}', '[[["w%s"]],{"l":1}]', '{"k%s":{"x":1},"l":2}'])
    return f % s, f % t


def alike(r):
    """two documents one of which has a text where the other one has the number or the word it shows"""
    v = lambda: r.choice(['true', 'false', 'null', '1.5', '-0.25', '1e+20', '0.001', '-7', '0', '42', '4294967296', '100', '12.125', '1.5e+300'])
    t = value(r)
    t = ['arr', [t, ['sc', v()], value(r), ['obj', [['"k"', ['sc', v()]], ['"l"', value(r)], ['"m"', ['arr', [['sc', v()]]]]]]]]
    a = ser(t)
    sc = []

    def walk(n):
        for c in n[1]:
            c = c[1] if n[0] == 'obj' else c
            if c[0] == 'sc':
                sc.append(c)
            else:
                walk(c)
    walk(t)
    sc = [c for c in sc if c[1][0] != '"']
    for c in r.sample(sc, r.choice([1, 1, 2, len(sc)])if len(sc) > 1 else 1):
        c[1] = '"%s"' % c[1]
    b = ser(t)
    return (a, b) if r.random() < .5 else (b, a)


def edges(a, b):
    """enough steps for what the viewer does with two documents: a text of n characters takes n*n/w of them on w columns"""
    return 600000000 if len(a) + len(b) < 10000 else 8000000000


def session(r, a, b, o, term=None):
    s = blank(nosnaps=0)
    names = pick(r, 2)
    args = o + ['--diff'] + names
    if r.random() < .3:
        args = ['--diff'] + o + names
    s['procs'].append(proc(args, ('tty', '', 0), 'tty'))
    for n, d in zip(names, (a, b)):
        s['files'].append([norm(n), 'f', d])
    s['term'] = term or dgeometry(r)
    if len(a) + len(b) > 400:
        s['limits'] = {'edges': edges(a, b)}
    s['heap'] = heap(r)
    if r.random() < .1:
        s['ttydelay'] = r.choice([1, 5, 30])
    return s


def dgeometry(r):
    if r.random() < .01:
        return [r.choice(P.TERMS)] + r.choice([[24, 255], [24, 257], [24, 512], [30, 300], [60, 520], [10, 1000], [257, 80]])
    return [r.choice(P.TERMS), r.choice([6, 8, 10, 16, 24, 24, 40, 60]), r.choice([30, 40, 60, 80, 80, 120, 121, 200])]


# ------------------------------------------------------------------ what the screen shows
class Row:
    __slots__ = ('kind', 'line', 'k', 'mark')       # kind: l(ine) g(ap) b(lank)

    def __init__(self, kind, line=None, k=0, mark=None):
        self.kind, self.line, self.k, self.mark = kind, line, k, mark


def dlines(doc, folds):
    """lines of a document in a window: as in the simple viewer, brackets of entries not indented, room for the marker"""
    ls = V.lines(doc, folds, 0)
    for l in ls:
        l.x += 2
    return ls


MARKS = {'++': 2, '!!': 6, '--': 5}


class Pane:
    def __init__(self, scr, x, w, T):
        self.scr, self.x, self.w, self.T = scr, x, w, T
        self.text = [(t + ' ' * scr.cols)[x:x + w] for t in scr.text]

    def walk(self, ls, phys, top):
        """(all the ways the rows are explained by the lines from top on, first row which is not)"""
        far, todo, res = 0, [(0, top, 0, [])], []
        while todo and len(res) < 8:
            r, i, k, rows = todo.pop()
            far = max(far, r)
            if r == self.T:
                res.append((rows, (i, k)))
                continue
            t = self.text[2 + r]
            m = t[:2]
            if k == 0 and (m == '--' or m == '  ') and not t[2:].strip(' '):
                # a row of nothing, unless the indentation takes all of it
                todo.append((r + 1, i, 0, rows + [Row('g' if m == '--' else 'b')]))
                if m == '--':
                    continue
            if i >= len(ls):
                continue
            want = phys[i][k][0]
            if k == 0 and m not in MARKS and m != '  ':
                continue
            got = '  ' + t[2:] if k == 0 else t
            more = k + 1 < len(phys[i])
            if got.rstrip(' ') != want and not (r == self.T - 1 and more and got[:-1].rstrip(' ') == want[:self.w - 1].rstrip(' ')):
                continue
            todo.append((r + 1, i if more else i + 1, k + 1 if more else 0, rows + [Row('l', i, k, m if k == 0 else rows[-1].mark)]))
        return res, far

    def attrs(self, ls, phys, rows, hits, color):
        """(error, nodes whose text is there, selected nodes): the way everything is shown"""
        sel = {}
        for r, row in enumerate(rows):
            y = 2 + r
            if row.kind == 'g' or row.kind == 'l' and row.k == 0 and row.mark != '  ':
                want = MARKS['--' if row.kind == 'g' else row.mark]
                for x in (0, 1):
                    a, fg, bg = self.scr.attr(y, self.x + x)
                    if (a & 3) != 3 or color and V.norm(fg, bg) != (want, 0):
                        return 'marker of row %d has attributes %d and colours %d on %d' % (y, a, fg, bg), None, None
            if row.kind != 'l':
                continue
            nd = ls[row.line].node
            t, sp = phys[row.line][row.k]
            cut = self.w - 1 if r == self.T - 1 and row.k + 1 < len(phys[row.line]) else self.w
            for a, b, c in sp:
                hit = nd.idx in hits and c != 'C'
                want = (7, 4) if hit else V.COL[c]
                for x in range(a, min(b, cut)):
                    at, fg, bg = self.scr.attr(y, self.x + x)
                    ch = t[x] if x < len(t) else ' '
                    s = bool(at & 2)
                    if sel.setdefault(nd.idx, s) != s:
                        return 'row %d column %d (%r) is %sshown as selected, unlike the rest of the item' % (y, self.x + x, ch, '' if s else 'not '), None, None
                    if ch == ' ':
                        continue
                    if (at & 3) != (3 if s else 0) or at & 4:
                        return 'row %d column %d (%r) has attributes %d' % (y, self.x + x, ch, at), None, None
                    w = want if color else (7, 0)
                    if V.norm(fg, bg) != w:
                        return 'row %d column %d (%r) has colours %d on %d instead of %d on %d' % ((y, self.x + x, ch) + V.norm(fg, bg) + w), None, None
        return None, set(sel), {n for n in sel if sel[n]}


class PMatch:
    __slots__ = ('top', 'rows', 'end', 'ls', 'sel', 'seen', 'vis')


def pane_matches(p, doc, folds, hits, color, why, only0):
    ls = dlines(doc, folds)
    phys = [V.physical(l, p.w) for l in ls]
    res, best = [], (-1, 0)
    for top in range(1 if only0 else len(ls)):
        found, far = p.walk(ls, phys, top)
        if not found:
            best = max(best, (far, top))
        for rows, end in found:
            if not any(q.kind == 'l' for q in rows):
                if top:
                    continue
            e, vis, sel = p.attrs(ls, phys, rows, hits, color)
            if e:
                why.append((60, e))
                continue
            m = PMatch()
            m.top, m.rows, m.end, m.ls = top, rows, end, ls
            m.seen = {ls[q.line].node.idx for q in rows if q.kind == 'l' and q.k == 0 and ls[q.line].first}
            m.vis, m.sel = vis, sel
            res.append(m)
    if not res and best[0] >= 0:
        why.append((10 + best[0], 'row %d of the window at column %d is %r, which no part of its document explains' % (best[0] + 2, p.x, p.text[best[0] + 2])))
    return res


def content(l):
    return l.x, tuple((t, c.lower()) for t, c in l.segs)


def aligned(a, b, d):
    """None, or why the rows of two windows do not belong together when row r of a is row r + d of b"""
    T = len(a.rows)
    enda = max([r for r in range(T) if a.rows[r].kind == 'l'] + [-1])
    endb = max([r for r in range(T) if b.rows[r].kind == 'l'] + [-1])
    fulla, fullb = a.end == (len(a.ls), 0), b.end == (len(b.ls), 0)
    for r in range(T):
        q = r + d
        if not 0 <= q < T:
            continue
        x, y = a.rows[r], b.rows[q]
        for u, v, n, m, p in ((x, y, r, q, a), (y, x, q, r, b)):
            if u.kind == 'g' and (v.kind != 'l' or v.k == 0 and v.mark == '  '):
                return 'row %d is a gap but nothing new is in front of it in row %d' % (n + 2, m + 2)
            if u.kind == 'l' and u.k == 0 and u.mark in ('  ', '!!') and not p.ls[u.line].inner:
                if v.kind != 'l' or v.k or v.mark != u.mark:
                    return 'row %d is shown as %s, but there is no such item in row %d of the other window' % (n + 2, 'equal' if u.mark == '  ' else 'changed', m + 2)
        if x.kind == 'l' and x.k == 0 and x.mark == '  ' and not a.ls[x.line].inner and not b.ls[y.line].inner and content(a.ls[x.line]) != content(b.ls[y.line]):
            return 'rows %d and %d differ, but nothing tells it' % (r + 2, q + 2)
        if x.kind == 'b' and y.kind == 'b' and not (r > enda and fulla and q > endb and fullb):
            return 'rows %d and %d are blank although the documents go on' % (r + 2, q + 2)
    return None


def apart(a, b):
    """whether all the rows of b may be above those of a: what both have is then below b in b, above a in a"""
    def inside(ms, ls):
        it = iter(ls)
        return all(any(content(l) == content(m) for l in it) for m in ms)

    def equal(m):
        return [m.ls[q.line] for q in m.rows if q.kind == 'l' and q.k == 0 and q.mark == '  ' and not m.ls[q.line].inner]
    return inside(equal(b), a.ls[:a.top]) and inside(equal(a), b.ls[b.end[0]:])


class DState:
    F = ('win', 'sel', 'last', 'folds', 'hits', 'msg', 'msgopt', 'prompt', 'prefix', 'exited', 'pairs')

    def __init__(self):
        self.win, self.sel, self.last, self.folds, self.hits = 0, (0, '?'), (0, '?'), (frozenset(), frozenset()), (frozenset(), frozenset())
        self.msg, self.msgopt, self.prompt, self.prefix, self.exited, self.pairs = None, False, None, '', False, ()

    def copy(self, **kw):
        s = DState()
        for f in DState.F:
            setattr(s, f, getattr(self, f))
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def id(self):
        return tuple(getattr(self, f) for f in DState.F)

    def __repr__(self):
        return 'window %d active, selections %s, folded %s and %s, hits %s and %s%s%s' % (self.win, self.sel, sorted(self.folds[0]), sorted(self.folds[1]), sorted(self.hits[0]), sorted(self.hits[1]), ', message %r' % self.msg if self.msg else '', ', prompt %r' % self.prompt if self.prompt is not None else '')


def put(t, i, v):
    return (v, t[1]) if i == 0 else (t[0], v)


class DTracker:
    """Follows a run of --diff screen by screen"""

    def __init__(self, docs, names, color, ascii_, term):
        self.docs, self.names, self.color, self.term = docs, names, color, term
        self.civis = term != 'vt100'    # it hides its cursor
        self.m = V.Model(docs, names, ascii_)
        self.m.bs = '\b' if term == 'vt100' else '\x7f'
        self.states = [DState()]
        self.first = True
        self.checked = self.marked = self.tight = 0
        self.shown = None
        self.lost = False

    # -------------------------------------------------------------- screens
    def check(self, scr):
        W, T = scr.cols // 2, scr.rows - 3
        w = W - 2
        if T < 1 or w < 8:
            self.tight += 1
            self.first = False
            for s in self.states:
                s.msgopt = True
            return None
        self.panes = [Pane(scr, i * (W - 1) + 1, w, T) for i in (0, 1)]
        why, ok, ids = [], [], set()
        cache = {}
        for s in self.states:
            e = self.frame(scr, s, W)
            if e:
                why.append((2, e))
                continue
            for t in self.fits(s, cache, why):
                if t.id() not in ids:
                    ids.add(t.id())
                    ok.append(t)
        self.first = False
        self.checked += 1
        if not ok:
            return '%s (expected: %s)' % (max(why)[1] if why else 'no reason', ' or '.join(repr(s) for s in self.states[:3]))
        self.states = ok
        self.lost = len(ok) > 200       # too many explanations: nothing more can be told
        return None

    def frame(self, scr, s, W):
        """the borders, the names of the inputs and the last row"""
        if s.exited:
            return 'the viewer should have ended'
        if self.civis and bool(scr.cursor) != (s.prompt is not None):
            return 'the cursor is %s' % ('shown' if scr.cursor else 'hidden')
        h = scr.rows
        for y in range(1, h - 1):
            t = scr.text[y] + ' ' * scr.cols
            for x in (0, W - 1, 2 * W - 2):
                if t[x] != '|':
                    return 'border missing in row %d column %d' % (y, x)
            if t[2 * W - 1:].strip(' '):
                return 'something right of the windows in row %d: %r' % (y, scr.text[y])
        edge = '+' + '-' * (W - 2) + '+' + '-' * (W - 2) + '+'
        if scr.text[0].rstrip(' ') != edge:
            return 'first row is %r' % scr.text[0]
        for i, p in enumerate(self.panes):
            n = self.names[i][:p.w]
            if p.text[1].rstrip(' ') != n.rstrip(' '):
                return 'name of input %d is shown as %r' % (i + 1, p.text[1])
            if self.color:
                for x in (0, p.w - 1):
                    if scr.attr(1, p.x + x)[2] != (2 if i == s.win else 7):
                        return 'window %d is %sshown as the active one' % (i, 'not ' if i == s.win else '')
        last = V.typed(s.prompt) if s.prompt is not None else s.msg
        got = scr.text[h - 1].rstrip(' ')
        if last is not None and got == last[:scr.cols].rstrip(' '):
            if self.color and last.strip() and scr.attr(h - 1, 0)[2] != (4 if s.prompt is not None else 1):
                return 'message %r is not highlighted' % last
            return None
        if (last is None or s.msgopt) and got == edge:
            return None
        return 'last row is %r instead of %r' % (got, last if last is not None else edge)

    def fits(self, s, cache, why):
        r = []
        ms = []
        for i in (0, 1):
            k = (i, s.folds[i], s.hits[i])
            if k not in cache:
                cache[k] = pane_matches(self.panes[i], self.docs[i], s.folds[i], s.hits[i], self.color, why, self.first)
            ms.append(cache[k])
            if not ms[i]:
                return []
        pairs = dict(s.pairs)
        good = [[], []]
        for i in (0, 1):
            for m in ms[i]:
                # what is selected in this window
                if s.sel[i] == '?':
                    if len(m.sel) > 1:
                        why.append((50, 'several items are selected in window %d' % i))
                        continue
                    sels = [next(iter(m.sel))] if m.sel else [None] + sorted(m.seen - m.vis)
                else:
                    sels = [s.sel[i]]
                for sel in sels:
                    if m.sel - {sel}:
                        why.append((50, 'item %s is selected in window %d instead of %s' % (sorted(m.sel), i, sel)))
                        continue
                    if sel is not None and sel not in m.sel and sel in m.vis:
                        why.append((51, 'item %s of window %d is not shown as selected' % (sel, i)))
                        continue
                    if sel is not None and sel not in m.seen:
                        why.append((52, 'the selected item of window %d is not on the screen' % i))
                        continue
                    good[i].append((m, sel))
            if not good[i]:
                return []
        o = 1 - s.win
        for a, sa in good[0]:
            for b, sb in good[1]:
                sel = (sa, sb)
                own, oth = sel[s.win], sel[o]
                # equivalents are always the same ones, both ways
                if own is not None:
                    k = (s.win, own)
                    if k in pairs and pairs[k] != oth:
                        why.append((55, 'item %s of window %d used to go with item %s of the other window, now with %s' % (own, s.win, pairs[k], oth)))
                        continue
                    if oth is not None and pairs.get((o, oth), own) != own:
                        why.append((55, 'item %s of window %d goes with two items of the other window' % (oth, o)))
                        continue
                e = None
                for d in ([0] if self.first else sorted(range(-len(a.rows) + 1, len(a.rows)), key=abs)):
                    e2 = aligned(a, b, d)
                    if e2 is None:
                        e = None
                        break
                    e = e or e2
                if e and (self.first or not apart(a, b) and not apart(b, a)):
                    why.append((70, e))
                    continue
                t = s.copy(sel=sel)
                if own is not None and oth is not None:
                    la = [q for q in (a, b)[s.win].rows if q.kind == 'l' and q.k == 0 and (a, b)[s.win].ls[q.line].node.idx == own]
                    lb = [q for q in (a, b)[o].rows if q.kind == 'l' and q.k == 0 and (a, b)[o].ls[q.line].node.idx == oth]
                    ca, cb = (content((a, b)[w].ls[l[0].line]) for w, l in ((s.win, la), (o, lb)))
                    if la[0].mark != lb[0].mark and '  ' in (la[0].mark, lb[0].mark) or la[0].mark == '  ' and ca != cb:
                        why.append((56, 'items %s and %s are selected together, but differ' % (own, oth)))
                        continue
                last = s.last
                if own is not None:
                    pairs2 = dict(pairs)
                    pairs2[(s.win, own)] = oth
                    if oth is not None:
                        pairs2[(o, oth)] = own
                    t.pairs = tuple(sorted(pairs2.items(), key=repr))
                    last = put(last, s.win, own)
                    if oth is not None:
                        last = put(last, o, oth)
                if last[o] == '?':
                    last = put(last, o, 0)          # nothing was selected there yet
                t.last = last
                for i, m in ((0, a), (1, b)):
                    if t.last[i] not in m.seen:
                        why.append((53, 'the last selection of window %d is not on the screen' % i))
                        break
                else:
                    self.marked += any(q.kind == 'g' or q.mark not in (None, '  ') for q in a.rows + b.rows)
                    self.shown = a, b
                    r.append(t)
        return r

    # -------------------------------------------------------------- keys
    def key(self, k):
        new = {}
        for s in self.states:
            for t in self.step(s, k):
                new[t.id()] = t
        self.states = list(new.values())

    def other(self):
        self.first = False
        new = {}
        for s in self.states:
            for t in [s.copy(msgopt=True)] + ([s.copy(msgopt=True, prefix='')] if s.prefix else []):
                new[t.id()] = t
        self.states = list(new.values())

    def either(self, old):
        self.states = list({s.id(): s for s in self.states + old}.values())

    def step(self, s, k):
        if s.exited:
            return [s]
        if s.prompt is None:
            ctl = len(k) == 1 and (ord(k) < 32 or ord(k) == 127) and k != self.m.bs
            if ctl:
                return [s.copy(prefix=s.prefix + k, msgopt=True)]
            if s.prefix:
                p = s.prefix
                s = s.copy(prefix='', msgopt=True)
                if p == '\x17':
                    u = k.upper()
                    if u == 'W':
                        return self.change(s, 1 - s.win)
                    if u in ('L', 'RIGHT') and s.win == 0:
                        return self.change(s, 1)
                    if u in ('H', 'LEFT') and s.win == 1:
                        return self.change(s, 0)
                return [s]
            if k.upper() == 'Q':
                return [s.copy(exited=True)]
        w, o = s.win, 1 - s.win
        if '?' in s.sel:
            raise Skip()            # keys before the screen was seen
        v = V.State()
        v.doc, v.sel, v.folds, v.hits, v.msg, v.msgopt, v.prompt = w, s.sel[w], s.folds[w], s.hits[w], s.msg, s.msgopt, s.prompt
        res = []
        for t in self.m.step(v, k, range(1 << 20), [0]):
            n = s.copy(sel=put(s.sel, w, t.sel), folds=put(s.folds, w, t.folds), hits=put(s.hits, w, t.hits), msg=t.msg, msgopt=t.msgopt, prompt=t.prompt)
            if s.prompt is not None and t.prompt is None and k in ('\n', '\r'):
                p = V.Pattern(s.prompt, self.m.ascii)
                n.hits = tuple(p.hits(d) if p.pat else frozenset() for d in self.docs)
            if t.sel != s.sel[w]:
                n.sel = put(n.sel, o, '?')
            ch = s.folds[w] ^ t.folds
            outs = [n]
            for f in sorted(ch):
                q = dict(s.pairs).get((w, f))
                if q is None:
                    continue
                outs += [u.copy(folds=put(u.folds, o, u.folds[o] ^ {q})) for u in outs if (q in u.folds[o]) == (f in s.folds[w]) and self.docs[o].nodes[q].cont()]
            res += outs
        return res

    def change(self, s, to):
        s = s.copy(win=to, msg=None, msgopt=False)
        if s.sel[to] == '?':
            raise Skip()
        if s.sel[to] is None:
            s.sel = put(put(s.sel, to, s.last[to]), 1 - to, '?')
        return [s]


# ------------------------------------------------------------------ properties
def dtracker(scn):
    c, ins = inputs(scn)
    if not c.diff or c.cmd is not None or len(ins) != 2 or c.compress or scn['procs'][0]['stdin'][0] != 'tty':
        raise Skip()
    o = scn['procs'][0]['args']
    docs = []
    for n, t, p in ins:
        if c.W or not good(t, o, 400):
            raise Skip()
        docs.append(V.Doc(t, c.keep, c.ascii))
    return c, DTracker(docs, [n for n, t, p in ins], c.color and scn['term'][0] in COLOURED, c.ascii, scn['term'][0]), docs


class Diff(Text):
    QUICK, THOROUGH = 3000, 150000

    def judge(self, x, scn):
        c, tr, docs = dtracker(scn)
        self.before(docs)
        r = x.run(scn)
        crash_check(r)
        P.margins(scn, r)
        n = P.follow(x, scn, r, tr)
        x.probe('screens', n)
        x.probe('screens_with_markers', tr.marked)
        x.probe('given_up', int(tr.lost))
        self.after(x, scn, r, tr, docs)

    def before(self, docs):
        pass

    def after(self, x, scn, r, tr, docs):
        if tr.checked and sum(len(d.nodes) for d in docs) >= 4:
            x.nontrivial(r)

    def shrink(self, scn):
        # the same simplification in both documents
        if len(scn['files']) == 2:
            try:
                a, b = (tree(f[2]) for f in scn['files'])
            except Exception:
                return
            ca, cb = conts(a), conts(b)
            for i in range(min(len(ca), len(cb))):
                for j in range(min(len(ca[i][1]), len(cb[i][1]))):
                    s = copy.deepcopy(scn)
                    a2, b2 = copy.deepcopy(a), copy.deepcopy(b)
                    del conts(a2)[i][1][j]
                    del conts(b2)[i][1][j]
                    s['files'][0][2], s['files'][1][2] = ser(a2), ser(b2)
                    yield s


def dkeys(r, n):
    """moves, folds and changes of window, each a key"""
    o = []
    for k in nav(r, n, (6, 3, .3)):
        o.append(k)
        if r.random() < .12:
            o.append(r.choice(['\x17w', '\x17w', '\x17W', '\x17l', '\x17h', '\x17' + V.RSEQ['RIGHT'], '\x17' + V.RSEQ['LEFT'], '\x17\x17w', '\x17x']))
    return o


class C22(Diff):
    ID = 'C22'
    RULE = 'a seeded document and the same one written otherwise (blanks, \\u escapes, numbers, order of the keys unless --keep-order) x keys, sizes and terminals; no marker and no gap may ever be shown, and both windows show the same; non-trivial: at least 4 values in all'

    def gen(self, r, i):
        o = vopts(r)
        for _ in range(30):
            a = vdoc(r, .5, huge=.04)
            if good(a, o, 330) and depth(a) < 140 and cheap(a, a):
                break
        else:
            a = '[1,{"a":[]}]'
        t = tree(a)
        if '--ascii' not in o:
            t = respell(r, t)
        if '--keep-order' not in o:
            t = shuffle(r, t)
        b = ser(t, r, J.Profile(r))
        if not good(b, o, 350):
            b = a
        s = session(r, a, b, o)
        s['acts'] = keyacts(r, dkeys(r, r.choice([0, 0, 5, 15])))
        return local(s)

    def before(self, docs):
        a, b = docs
        if [(n.key, n.kind, n.text, n.depth) for n in a.nodes] != [(n.key, n.kind, n.text, n.depth) for n in b.nodes]:
            raise Skip()

    def after(self, x, scn, r, tr, docs):
        if tr.marked:
            raise Violation('marked', 'the documents are equal, but differences are shown')
        Diff.after(self, x, scn, r, tr, docs)


def count(m):
    return [(r, m.rows[r].mark, m.ls[m.rows[r].line].node) for r in range(len(m.rows)) if m.rows[r].kind == 'l' and m.rows[r].k == 0 and m.rows[r].mark != '  ']


class C23(Diff):
    ID = 'C23'
    RULE = 'a seeded document and an edited copy (a value changed, an item added or removed, or up to 12 edits of all kinds) on terminals of all sizes; rows without marker must be the same in both windows, a single change must mark that item alone; non-trivial: a difference is on the screen'

    def gen(self, r, i):
        o = vopts(r)
        m = r.randrange(3)
        if m == 0:
            a, b = pair(r, o, r.choice([1, 2, 3, 5, 12])) if r.random() < .7 else almost(r) if r.random() < .7 else alike(r)
            s = session(r, a, b, o)
            s['acts'] = keyacts(r, ['j'] * r.choice([0, 0, 3, 30]))
            return local(s)
        # one change of one value, or one value more: all that is around must stay equal
        for _ in range(50):
            a = vdoc(r, .4)
            if not good(a, o, 50) or m == 2 and '--keep-order' not in o and False:
                continue
            t = tree(a)
            u = [0]

            def uniq(n):
                # values without anything in common
                if n[0] == 'sc':
                    u[0] += 1
                    n[1] = r.choice(['"%s"', '%s'])
                    d = str(u[0] % 10)
                    n[1] = n[1] % (str(1 + u[0] % 9) * (1 + u[0] // 9))
                else:
                    for c in n[1]:
                        uniq(c[1] if n[0] == 'obj' else c)
            uniq(t)
            cs = [c for c in conts(t) if len(c[1]) >= 2]
            if not cs:
                continue
            a = ser(t)
            c = r.choice(cs)
            n = r.choice(['"zz~~zz"', '"y?"', '-0.5', 'true', 'null', '[]', '{}'])
            j = r.randrange(len(c[1]))
            if m == 1:
                sc = [q for q in range(len(c[1])) if (c[1][q][1] if c[0] == 'obj' else c[1][q])[0] == 'sc']
                if not sc:
                    continue
                j = r.choice(sc)
                v = c[1][j][1] if c[0] == 'obj' else c[1][j]
                # sometimes nearly the same, or the same text with another type
                if r.random() < .5:
                    n = r.choice(['"%s"' % v[1] if v[1][0] != '"' else v[1][1:-1], v[1][:-1] + '%d"' % r.randrange(10) if v[1][0] == '"' else v[1] + '0', n])
                if n == v[1] or n[0] in '[{':
                    continue
                v[1] = n
            elif c[0] == 'arr':
                c[1].insert(j, ['sc', n] if n[0] not in '[{' else [{'[': 'arr', '{': 'obj'}[n[0]], []])
                if n[0] in '[{':
                    continue
            else:
                k = newkey(r, c)
                if not k or n[0] in '[{':
                    continue
                c[1].insert(j, [k, ['sc', n]])
            b = ser(t)
            if good(b, o, 50):
                break
        else:
            return None
        s = session(r, a, b, o, [r.choice(P.TERMS), 140, r.choice([121, 160, 240])])
        s['meta']['single'] = m
        if m == 2 and r.random() < .5:
            s['files'][0][2], s['files'][1][2] = b, a
        return local(s)

    def after(self, x, scn, r, tr, docs):
        if tr.marked:
            x.nontrivial(r)
        single = scn['meta'].get('single')
        A, B = ([(n.key, n.kind, n.text, n.depth) for n in d.nodes] for d in docs)
        if A != B and tr.checked and tr.shown and all(m.top == 0 and m.end == (len(m.ls), 0) for m in tr.shown) and not any(q.kind == 'g' or q.mark not in (None, '  ') for m in tr.shown for q in m.rows):
            raise Violation('hidden', 'the documents differ, but the screen shows no difference')
        if not single:
            return
        # the edit, found again in the documents: sizes, then the only place where they differ
        if not tr.shown or any(m.top or m.end != (len(m.ls), 0) for m in tr.shown):
            return
        if scn['acts']:
            raise Skip()
        d = len(A) - len(B)
        pre = 0
        while pre < min(len(A), len(B)) and A[pre] == B[pre]:
            pre += 1
        suf = 0
        while suf < min(len(A), len(B)) - pre and A[-1 - suf] == B[-1 - suf]:
            suf += 1
        if (len(A) - pre - suf, len(B) - pre - suf) not in ((1, 1), (1, 0), (0, 1)):
            raise Skip()
        for k, (m, L) in enumerate(zip(tr.shown, (A, B))):
            marks = count(m)
            gaps = sum(q.kind == 'g' for q in m.rows)
            n = len(L) - pre - suf
            if n and d == 0 and [(w, nd.idx) for _, w, nd in marks] not in ([('!!', pre)], [('++', pre)]) or n and d and [(w, nd.idx) for _, w, nd in marks] != [('++', pre)] or not n and marks:
                raise Violation('scattered', 'one value differs (number %d of %s), but window %d marks %s' % (pre, 'both' if d == 0 else 'one', k, [(w, nd.idx) for _, w, nd in marks]))
            if (gaps != 0) != (n == 0):
                raise Violation('scattered', '%d gaps in window %d' % (gaps, k))
        x.probe('single_change' if d == 0 else 'single_insertion')


class C24(Diff):
    ID = 'C24'
    RULE = 'seeded pairs of documents (up to 12 edits apart, or unrelated) x sequences of up to 40 moves, folds, searches, changes of window and of the size of the terminal; every settled screen must be explained by a state of the reference model of two windows; non-trivial: at least 4 values'

    def gen(self, r, i):
        o = vopts(r)
        if r.random() < .12:
            a, b = vdoc(r, .4), vdoc(r, .4)
            if not good(a, o) or not good(b, o) or not cheap(a, b):
                a, b = '{"a":1}', '[1]'
        else:
            a, b = pair(r, o, r.choice([0, 1, 2, 3, 5, 12]))
        s = session(r, a, b, o)
        acts = []
        docs = [V.Doc(d, '--keep-order' in o, '--ascii' in o) for d in (a, b)]
        for _ in range(r.choice([1, 1, 2, 3])):
            acts += keyacts(r, dkeys(r, r.randrange(2, 25)))
            if r.random() < .3:
                acts.append(key('/' + P.search(r, r.choice(docs)).replace('\t', '') + '\n'))
                acts += keyacts(r, [r.choice(['n', 'n', 'n', 'j', 'h', '\x17w']) for _ in range(r.randrange(0, 8))])
            if r.random() < .25:
                acts.append(P.resize(r))
        s['acts'] = acts
        return local(s)


class C25(Diff):
    ID = 'C25'
    RULE = 'seeded pairs of documents (equal, edited, unrelated, one malformed or cut, up to 700 items in a list) x raw key bytes, sizes from 1x1 to 60x200 at the start and at any point, slow terminals, then q, ^C, SIGINT or SIGTERM at any point; the viewer must end, restore the terminal and report the malformed input; non-trivial: the end came after the first screen'

    def gen(self, r, i):
        o = vopts(r)
        m = r.randrange(6)
        if m == 0:
            n = r.choice([20, 64, 120, 127, 128, 130, 130, 140, 260])
            v = lambda: r.choice(['1', '2', '"x"', 'null', str(r.randrange(1000))])
            a = [v() for _ in range(n)]
            b = [v() if r.random() < r.choice([0, .1, 1]) else q for q in a][:r.choice([n, n, n - 7, 3])] + [v() for _ in range(r.choice([0, 0, 1, 9]))]
            a, b = '[' + ','.join(a) + ']', '[' + ','.join(b) + ']'
            if r.random() < .3:
                a, b = '{"k":%s,"l":1}' % a, '{"k":%s,"l":2}' % b
        elif m == 1:
            t = ser(value(r))
            a, b = '[' * 30 + t + ']' * 30, '[' * r.choice([30, 29, 31]) + ser(value(r))
            b += ']' * b.count('[') if b.count('[') > 35 else ']' * (len(b) - len(b.lstrip('[')))
        else:
            a, b = pair(r, o, r.choice([0, 1, 4, 12]))
        if r.random() < .12:
            from textprops import mutate
            k = r.random() < .5
            z = mutate(r, a)
            z = (z[0] if isinstance(z, tuple) else z) or a[:-1]
            a, b = (z, b) if k else (b, z)
        if r.random() < .1:
            o.append('-W')
        s = session(r, a, b, o)
        if r.random() < .3:
            s['term'][1:] = [r.randrange(1, 9), r.randrange(1, 16)]
        acts = []
        s['limits'] = {'edges': edges(a, b)}
        for _ in range(r.choice([0, 1, 2, 4]) if len(a) < 1000 else r.randrange(2)):
            x = r.randrange(4)
            if x == 0:
                acts.append(key(''.join(chr(r.choice([r.randrange(256), r.randrange(32, 127), 0x17, 0x17, 0x1b, 9])) for _ in range(r.randrange(1, 30))).replace('\x03', '').replace('\x1a', '').replace('\x1c', ''), GAP))
            elif x == 1:
                acts += keyacts(r, dkeys(r, r.randrange(1, 20)))
            elif x == 2:
                q = P.resize(r)
                if r.random() < .5:
                    q['r'], q['c'] = r.randrange(1, 8), r.randrange(1, 16)
                acts.append(q)
            else:
                acts.append(key('/' + r.choice(['a', '1', 'x/e', '.*/e', '[', '\x7f\x7f', 'zzz']) + r.choice(['\n', '\n', '']) + 'n' * r.randrange(4)))
        if r.random() < .3:
            s['rscripts'].append(['*', [[r.choice([0, 50, 400]), r.choice([1, 5, 100])] for _ in range(r.randrange(1, 12))]])
        g = r.choice([0, 1, 20, 149, 151, GAP, 1000])
        m = r.randrange(4)
        if m == 0:
            acts.append(key('\x1b', 1500))
            acts.append(key('q', 2500))
            acts.append(key('q', 1500))
        elif m == 1:
            acts.append(key('\x03', g))
        else:
            acts.append({'gap': g, 'edge': P.edge(r), 'k': 'sig', 'n': r.choice([2, 15])})
        s['acts'] = acts
        return local(s)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        if not c.diff or c.cmd is not None or len(ins) != 2 or scn['procs'][0]['stdin'][0] != 'tty':
            raise Skip()
        must = any(a['k'] == 'sig' and a['n'] in (2, 15) or a['k'] == 'key' and '\x03' in a['b'] for a in scn['acts'])
        must = must or len(scn['acts']) >= 2 and [a.get('b') for a in scn['acts'][-2:]] == ['q', 'q'] and scn['acts'][-1]['gap'] >= 1500 and scn['acts'][-2]['gap'] >= 2500
        r = x.run(scn)
        crash_check(r)
        e = r.end()
        if e['kind'] == 'signal' and e['code'] not in (2, 15):
            raise Violation('alive', 'ended by signal %d' % e['code'])
        if must and e['kind'] not in ('exit', 'signal'):
            raise Violation('alive', 'the program is still there (%s) long after it was told to stop' % r.verdict)
        if e['kind'] in ('exit', 'signal'):
            last = [t for t, p, k, w in r.events if k in ('sig', 'key', 'resize')]
            P.restored(e, 'the program ended with %s %d' % (e['kind'], e['code']))
            if must and last and int(e['t']) - last[-1] > 3000 + int(e['sys']) * scn['ttydelay'] and not scn['rscripts']:
                raise Violation('late', 'ended %d ms after it was told to stop' % (int(e['t']) - last[-1]))
        if r.snaps or e.get('tbytes', '0') != '0':
            x.nontrivial(r)
            x.probe('by_' + e['kind'])

    def shrink(self, scn):
        return []


PROPS = [C22, C23, C24, C25]
