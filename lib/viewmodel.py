"""Reference model of the viewer: what may be on the screen for a document, a selection, a set of folded containers and a key history."""
import re
import jsonmodel as J


class Node:
    __slots__ = ('key', 'kind', 'text', 'kids', 'parent', 'idx', 'depth')

    def __init__(self, key, kind, text, parent):
        self.key, self.kind, self.text, self.kids, self.parent = key, kind, text, [], parent

    def cont(self):
        return self.kind in ('obj', 'arr')


VIS = re.compile(r'[ -~]*\Z')


def shown(raw, ascii_):
    """text shown for a string token (with its quotes); None outside of the domain"""
    o, i, n = [], 1, len(raw) - 1
    while i < n:
        c = raw[i]
        if c != '\\':
            o.append(c)
            i += 1
            continue
        e = raw[i + 1]
        i += 2
        if e in '"/':
            o.append(e)
        elif e in '\\bfnrt':
            o.append('\\' + e)
        elif e == 'u' and ascii_:
            o.append('\\u')
        elif e == 'u':
            u = int(raw[i:i + 4], 16)
            if not (32 <= u < 127 and u != 92):
                return None
            o.append(chr(u))
            i += 4
        else:
            o.append('\\' + e)
    s = ''.join(o)
    return s if VIS.match(s) else None


def number(raw):
    if re.fullmatch(r'-?[0-9]+', raw) and -2**63 <= int(raw) < 2**63:
        return str(int(raw))
    x = float(raw)
    for p in (15, 16, 17):
        s = '%.*g' % (p, x)
        if float(s) == x:
            break
    return s


class Doc:
    """all nodes in document order; entries are one node with their value"""

    def __init__(self, text, keep=False, ascii_=False, lenient=False):
        root, rd = J.read(text, lenient, ascii_)
        self.nodes = []
        self.ok = True

        def build(n, key, parent):
            if n.kind == 'str':
                t = shown(text[n.start:n.end], ascii_)
                if t is None:
                    self.ok = False
            elif n.kind == 'num':
                t = number(text[n.start:n.end])
            elif n.kind == 'lit':
                t = text[n.start:n.end].lower()
            else:
                t = ''
            m = Node(key, n.kind, t, parent)
            m.depth = parent.depth + 1 if parent else 0
            m.idx = len(self.nodes)
            self.nodes.append(m)
            if n.kind == 'arr':
                for c in n.items:
                    m.kids.append(build(c, None, m))
            elif n.kind == 'obj':
                it = []
                for k, c in n.items:
                    it.append((k, c))
                if not keep:
                    it.sort(key=lambda e: e[0].encode('latin-1'))
                for k, c in it:
                    m.kids.append(build(c, k, m))
            return m
        # keys as they are shown: taken from the text in front of the values
        def fix(n):
            if n.kind == 'obj':
                new = []
                for k, c in n.items:
                    fix(c)
                    raw = keyraw(text, c.start)
                    s = shown(raw, ascii_)
                    if s is None:
                        self.ok = False
                        s = '?'
                    new.append((s, c))
                n.items = new
            elif n.kind == 'arr':
                for c in n.items:
                    fix(c)
        fix(root)
        self.root = build(root, None, None)


def keyraw(text, vstart):
    """raw key token in front of a value"""
    i = vstart - 1
    while text[i] != ':':
        i -= 1
    i -= 1
    while text[i] != '"':
        i -= 1
    e = i
    i -= 1
    while True:
        if text[i] == '"':
            b = 0
            while text[i - 1 - b] == '\\':
                b += 1
            if b % 2 == 0:
                return text[i:e + 1]
        i -= 1


class Line:
    """one logical line: indentation and (text, class) pieces of a node"""
    __slots__ = ('x', 'segs', 'node', 'first', 'inner')

    def __init__(self, x, segs, node, first, inner=False):
        self.x, self.segs, self.node, self.first, self.inner = x, segs, node, first, inner      # inner: below its key


CLS = {'str': 's', 'num': 'n', 'lit': 'l', 'obj': 'c', 'arr': 'c'}
BR = {'obj': '{}', 'arr': '[]'}


def lines(doc, folds, ent=2):
    """ent: indentation of the brackets of an entry"""
    o = []

    def value(n, x, entry):
        b = BR[n.kind]
        if n.idx in folds:
            o.append(Line(x, [(b[0] + ' ... ' + b[1], 'c')], n, True))
            return
        o.append(Line(x, [(b[0], 'C' if entry else 'c')], n, not entry, entry))
        inside(n, x + 4)
        o.append(Line(x, [(b[1], 'C' if entry else 'c')], n, False))

    def inside(n, x):
        for c in n.kids:
            if c.key is not None:
                k = [(c.key, 'k'), (': ', 'c')]
                if not c.cont():
                    o.append(Line(x, k + [(c.text, CLS[c.kind])], c, True))
                elif c.idx in folds:
                    o.append(Line(x, k + [(BR[c.kind][0] + ' ... ' + BR[c.kind][1], 'c')], c, True))
                elif not c.kids:
                    o.append(Line(x, k + [(BR[c.kind][0] + ' ' + BR[c.kind][1], 'c')], c, True))
                else:
                    o.append(Line(x, k, c, True))
                    value(c, x + ent, True)
            elif c.cont():
                value(c, x, False)
            else:
                o.append(Line(x, [(c.text, CLS[c.kind])], c, True))
    r = doc.root
    if r.cont():
        value(r, 0, False)
    else:
        o.append(Line(0, [(r.text, CLS[r.kind])], r, True))
    return o


def physical(ln, w):
    """rows of a logical line: (text, [(start, end, class)])"""
    s = ' ' * ln.x
    spans = []
    for t, c in ln.segs:
        spans.append((len(s), len(s) + len(t), c))
        s += t
    n = max(1, -(-len(s) // w))
    rows = []
    for i in range(n):
        a, b = i * w, (i + 1) * w
        rows.append((s[a:b].rstrip(' '), [(max(p, a) - a, min(q, b) - a, c) for p, q, c in spans if p < b and q > a]))
    return rows


def visible(doc, folds):
    """nodes that can be reached with the selection, in order"""
    o = []

    def rec(n):
        o.append(n)
        if n.idx not in folds:
            for c in n.kids:
                rec(c)
    rec(doc.root)
    return o


COL = {'k': (6, 0), 's': (6, 0), 'n': (2, 0), 'l': (1, 0), 'c': (7, 0), 'C': (7, 0)}


class State:
    __slots__ = ('doc', 'sel', 'folds', 'hits', 'msg', 'msgopt', 'prompt', 'prefix', 'stay', 'exited')

    def __init__(self):
        self.doc, self.sel, self.folds, self.hits, self.msg, self.msgopt, self.prompt, self.prefix, self.stay, self.exited = 0, 0, frozenset(), frozenset(), None, False, None, False, 0, False

    def copy(self, **kw):
        s = State()
        for f in State.__slots__:
            setattr(s, f, getattr(self, f))
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def id(self):
        return tuple(getattr(self, f) for f in State.__slots__)

    def __repr__(self):
        return 'doc %d, selection #%d, folded %s, hits %s%s%s' % (self.doc, self.sel, sorted(self.folds), sorted(self.hits), ', message %r' % self.msg if self.msg else '', ', prompt %r' % self.prompt if self.prompt is not None else '')


def norm(fg, bg):
    return 7 if fg < 0 else fg, 0 if bg < 0 else bg


BOTTOM, NOTFOUND = 'Search hit BOTTOM, continuing at TOP', 'Pattern not found'


class Match:
    """what a state and a screen have in common: the first shown line, the nodes whose first row is on the screen"""

    def __init__(self, top, seen):
        self.top, self.seen = top, seen


def typed(p):
    """a pattern being typed, as the terminal library draws it"""
    return '/' + ''.join('^' + chr(ord(c) ^ 64) if (ord(c) < 32 or ord(c) == 127) and c != '\t' else c if c < '\x80' else '?' for c in p) if '\t' not in p else ('/' + p).expandtabs(8)


def lastrow_text(st):
    if st.prompt is not None:
        return typed(st.prompt)
    return st.msg


def matches(docs, names, st, scr, color, why=None, civis=True):
    """All the windows that explain the screen; why collects the reason of the best failing one."""
    def no(m, rank):
        if why is not None:
            why.append((rank, m))
        return []
    if st.exited:
        return no('the viewer should have ended', 0)
    w, h = scr.cols, scr.rows
    doc = docs[st.doc]
    if civis and bool(scr.cursor) != (st.prompt is not None):
        return no('cursor is %s' % ('shown' if scr.cursor else 'hidden'), 3)
    title = names[st.doc][:w]
    if scr.text[0] != title.rstrip(' '):
        return no('first row is %r, not the name of the input %r' % (scr.text[0], title), 2)
    if color and w > 1 and h > 1:
        for x in (0, len(title) - 1):
            a, fg, bg = scr.attr(0, x)
            if bg != 2:
                return no('name of the input is not highlighted', 2)
    body = scr.text[1:]
    last = lastrow_text(st)
    rng = h - 1
    opts = [(rng, False)]
    if last is not None:
        opts = [(rng - 1, True)] + (opts if st.msgopt else [])
    ls = lines(doc, st.folds)
    res = []
    phys = [physical(l, w) for l in ls]
    for n, withmsg in opts:
        if withmsg:
            if body[-1] != last[:w].rstrip(' '):
                no('last row is %r instead of the message %r' % (body[-1], last), 4)
                continue
            if color and last.strip() and scr.attr(h - 1, 0)[2] != (4 if st.prompt is not None else 1):
                no('message %r is not highlighted' % last, 4)
                continue
        best = -1
        for top in range(st.stay, len(ls)):
            r, i, ok = 0, top, True
            seen, selrow = set(), None
            while r < rng and i < len(ls):
                for k, (t, sp) in enumerate(phys[i]):
                    if r >= rng:
                        break
                    if k == 0 and ls[i].first:
                        seen.add(ls[i].node.idx)
                    if r < n:
                        if body[r] != t and not (r == rng - 1 and k + 1 < len(phys[i]) and body[r][:w - 1].rstrip(' ') == t[:w - 1].rstrip(' ')):
                            ok = False
                            break
                    r += 1
                if not ok:
                    break
                i += 1
            if ok:
                while r < n:
                    if body[r]:
                        ok = False
                        break
                    r += 1
            if not ok:
                if r > best:
                    best = r
                    bad = (r, top)
                continue
            if st.sel not in seen:
                no('the selected line is not on the screen', 50 + rng)
                continue
            # attributes
            e = attributes(ls, phys, top, n, st, scr, color)
            if e:
                no(e, 60 + rng)
                continue
            res.append(Match(top, seen))
        if not res and best >= 0:
            no('row %d is %r, which no window of the expected text explains' % (bad[0] + 1, body[bad[0]]), 10 + best)
    return res


def attributes(ls, phys, top, n, st, scr, color):
    r, i = 0, top
    while r < n and i < len(ls):
        l = ls[i]
        nd = l.node
        for k, (t, sp) in enumerate(phys[i]):
            if r >= n:
                break
            cut = scr.cols - 1 if r == scr.rows - 2 and k + 1 < len(phys[i]) else scr.cols
            for a, b, c in sp:
                sel = nd.idx == st.sel
                hit = nd.idx in st.hits and c != 'C'
                want = (7, 4) if hit else COL[c]
                for x in range(a, min(b, cut)):
                    at, fg, bg = scr.attr(r + 1, x)
                    ch = t[x] if x < len(t) else ' '
                    if ch == ' ':
                        if bool(at & 2) != sel:
                            return 'row %d column %d is %sshown as selected' % (r + 1, x, 'not ' if sel else '')
                        continue
                    if (at & 3) != (3 if sel else 0) or at & 4:
                        return 'row %d column %d (%r) is %sshown as selected' % (r + 1, x, ch, 'not ' if sel else '')
                    if color:
                        if norm(fg, bg) != want:
                            return 'row %d column %d (%r) has colours %d on %d instead of %d on %d' % ((r + 1, x, ch) + norm(fg, bg) + want)
                    elif norm(fg, bg) != (7, 0):
                        return 'row %d column %d (%r) has colours %d on %d without colours' % ((r + 1, x, ch) + norm(fg, bg))
            r += 1
        i += 1
    return None


# ------------------------------------------------------------------ keys
SEQ = {'\x1bOA': 'UP', '\x1bOB': 'DOWN', '\x1bOC': 'RIGHT', '\x1bOD': 'LEFT', '\x1b[5~': 'PPAGE', '\x1b[6~': 'NPAGE', '\x1b[3~': 'DC', '\x1b[2~': 'IC', '\x1b[24~': 'F12', '\x1b[17~': 'F6'}
RSEQ = {v: k for k, v in SEQ.items()}
SEQ.update({'\x1b[A': 'UP', '\x1b[B': 'DOWN', '\x1b[C': 'RIGHT', '\x1b[D': 'LEFT'})      # linux console


def keys(b):
    """byte string -> keys as the program reads them"""
    o, i = [], 0
    while i < len(b):
        for s, n in SEQ.items():
            if b.startswith(s, i):
                o.append(n)
                i += len(s)
                break
        else:
            o.append(b[i])
            i += 1
    return o


def unicode_(p):
    return re.sub(r'\\u([0-9a-fA-F]{4})', lambda m: chr(int(m.group(1), 16)), p)


class Pattern:
    def __init__(self, buf, ascii_):
        if not ascii_:
            buf = unicode_(buf)
        buf = buf.lstrip(' \t')
        o, i, self.flags = [], 0, ''
        while i < len(buf):
            c = buf[i]
            if c == '\\':
                i += 1
                if i < len(buf):
                    o.append('/' if buf[i] == '/' else '\\' + buf[i])
            elif c == '/':
                self.flags = buf[i + 1:]
                break
            else:
                o.append(c)
            i += 1
        self.pat = ''.join(o)
        self.type = None
        for c in self.flags:
            if c in 'bnso':
                self.type = c
        self.i, self.f, self.e = ('i' in self.flags), ('f' in self.flags), ('e' in self.flags)
        self.rx = None
        if self.e:
            try:
                self.rx = re.compile(self.pat, re.I if self.i else 0)
            except re.error:
                self.rx = None

    def match(self, s, t):
        if self.type and self.type != t:
            return False
        if self.e:
            return bool(self.rx and self.rx.search(s))
        p = self.pat
        if self.i:
            s, p = s.lower(), p.lower()
        return s == p if self.f else p in s

    def hits(self, doc):
        o = set()
        for n in doc.nodes:
            if n.key is not None and self.match(n.key, 'o'):
                o.add(n.idx)
            if not n.cont() and self.match(n.text, {'str': 's', 'num': 'n', 'lit': 'b' if n.text in ('true', 'false') else 'z'}[n.kind]):
                o.add(n.idx)
        return frozenset(o)


class Model:
    def __init__(self, docs, names, ascii_):
        self.docs, self.names, self.ascii = docs, names, ascii_

    def step(self, st, key, seen, tops):
        """states allowed after a key; seen: nodes that were on the screen (None: not known)"""
        if st.exited:
            return [st]
        doc = self.docs[st.doc]
        if st.prompt is not None:
            return self.prompt(st, key, doc)
        ctl = len(key) == 1 and (ord(key) < 32 or ord(key) == 127) and key != self.bs
        if st.prefix:
            if ctl:
                return [st.copy(msgopt=True)]
            return [st.copy(prefix=False, msgopt=True)]
        if ctl:
            return [st.copy(prefix=True, msgopt=True)]
        nop = [st.copy(msgopt=True)]
        go = lambda **kw: [st.copy(msg=None, stay=0, **kw)]
        k = key.upper()
        n = doc.nodes[st.sel]
        if k == 'Q':
            return self.quit(st)
        if k == '/':
            return [st.copy(prompt='', msg=None, stay=0)]
        vis = visible(doc, st.folds)
        at = [v.idx for v in vis].index(st.sel)
        if k in ('J', 'DOWN'):
            if at + 1 >= len(vis):
                # the end of the document may be scrolled further into the screen
                return nop + go()
            nx = vis[at + 1].idx
            moved = st.copy(msg=None, stay=0, sel=nx)
            if seen is None:
                return [moved, st.copy(msg=None, stay=0)]
            if nx not in seen:
                # the next one is not on the screen yet: the view may be scrolled first, but it has to move
                return [moved, st.copy(msg=None, stay=tops[0] + 1)]
            return [moved]
        if k in ('K', 'UP'):
            return go(sel=vis[at - 1].idx if at else st.sel)
        sib = n.parent.kids if n.parent else [n]
        pos = [s.idx for s in sib].index(n.idx)
        if k == 'PPAGE':
            if pos:
                return go(sel=sib[pos - 1].idx)
            return go(sel=n.parent.idx) if n.parent else nop
        if k == 'NPAGE':
            if pos + 1 < len(sib):
                return go(sel=sib[pos + 1].idx)
            r = list(nop)
            p = n.parent
            while p:
                s = p.parent.kids if p.parent else [p]
                q = [e.idx for e in s].index(p.idx)
                if q + 1 < len(s):
                    r += go(sel=s[q + 1].idx)
                    break
                p = p.parent
            return r
        if k in ('L', 'RIGHT'):
            if not n.cont():
                return nop
            if n.idx in st.folds:
                return go(folds=st.folds - {n.idx})
            if not n.kids:
                return nop
            return go(sel=n.kids[0].idx)
        if k in ('H', 'LEFT'):
            if n.parent and (not n.cont() or n.idx in st.folds or not n.kids):
                return go(sel=n.parent.idx)
            return go(folds=st.folds | {n.idx}) if n.cont() else [st.copy(msg=None)]
        if k == 'N':
            return self.nextHit(st, doc)
        return nop

    def quit(self, st):
        if st.doc + 1 < len(self.docs):
            s = State()
            s.doc = st.doc + 1
            return [s]
        return [st.copy(exited=True)]

    def prompt(self, st, key, doc):
        if key in ('\n', '\r'):
            p = Pattern(st.prompt, self.ascii)
            if not p.pat:
                return [st.copy(prompt=None, hits=frozenset())]
            return self.nextHit(st.copy(prompt=None, hits=p.hits(doc)), doc)
        if key in ('\b', '\x7f'):
            t = st.prompt.rstrip(''.join(map(chr, range(128, 192))))
            return [st.copy(prompt=t[:-1])]
        if key == '\x1b':
            return [st.copy(prompt=None)]
        if len(key) > 1:
            return [st]
        return [st.copy(prompt=st.prompt + key)]

    def nextHit(self, st, doc):
        if not st.hits:
            return [st.copy(msg=NOTFOUND, msgopt=False, stay=0)]
        l = sorted(st.hits)
        later = [i for i in l if i > st.sel]
        to = later[0] if later else l[0]
        p, f = doc.nodes[to].parent, set(st.folds)
        while p:
            f.discard(p.idx)
            p = p.parent
        return [st.copy(sel=to, folds=frozenset(f), msg=None if later else BOTTOM, msgopt=False, stay=0)]


class Tracker:
    """Follows a run screen by screen, keeping every state of the model that explains what was seen."""

    def __init__(self, docs, names, color, ascii_=False, term='xterm'):
        self.civis = term != 'vt100'
        self.m = Model(docs, names, ascii_)
        self.m.bs = '\b' if term == 'vt100' else '\x7f'      # the backspace key is a function key
        self.color = color
        self.states = [State()]
        self.seen = {}

    def check(self, scr):
        """None, or why no state explains the screen"""
        ok, why = [], []
        seen = {}
        for s in self.states:
            ms = matches(self.m.docs, self.m.names, s, scr, self.color, why, self.civis)
            if ms:
                s = s.copy(stay=0)
                ok.append(s)
                u = set(ms[0].seen)
                for m in ms[1:]:
                    u &= m.seen
                seen[s.id()] = u, [m.top for m in ms]
        if not ok:
            exp = self.states
            self.why = max(why)[1] if why else 'no reason'
            return '%s (expected: %s)' % (self.why, ' or '.join(repr(s) for s in exp[:3]))
        self.states, self.seen = ok, seen
        return None

    def key(self, k):
        new, ids = [], set()
        for s in self.states:
            seen, tops = self.seen.get(s.id(), (None, None))
            for t in self.m.step(s, k, seen, tops):
                if t.id() not in ids:
                    ids.add(t.id())
                    new.append(t)
        self.states = new
        self.seen = {}

    def either(self, old):
        self.states = list({s.id(): s for s in self.states + old}.values())
        self.seen = {}

    def other(self):
        """a signal or a change of the terminal: nothing changes but messages may be gone"""
        new = {}
        for s in self.states:
            for t in [s.copy(msgopt=True, stay=0)] + ([s.copy(msgopt=True, stay=0, prefix=False)] if s.prefix else []):
                new[t.id()] = t
        self.states = list(new.values())
        self.seen = {}
