"""JSON documents: generator, reference reader, reference layout. Everything works on latin-1 views of bytes."""
import json, math, re


# ------------------------------------------------------------------ reference reader
class N:
    """kind: obj arr str num lit; val: decoded text / number / literal; items: [(key, N)] or [N]"""
    __slots__ = ('kind', 'val', 'items', 'start', 'end', 'raw')

    def __init__(self, kind, val=None, items=None, start=0, end=0, raw=''):
        self.kind, self.val, self.items, self.start, self.end, self.raw = kind, val, items, start, end, raw


class Bad(Exception):
    """kind: eof (input ends before the value does) or syntax / dupkey / escape / case; tok: (start, end) of the offending token"""

    def __init__(self, kind, tok):
        self.kind, self.tok = kind, tok
        Exception.__init__(self, '%s at %s' % (kind, tok))


NUM = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?')
WS = ' \t\r\n'
NUMCH = '0123456789+-.eE'


class Reader:
    """Strict RFC 8259 reader plus the program's documented lenient mode; duplicated keys are errors unless lenient."""

    def __init__(self, text, lenient=False, ascii_=False):
        self.t, self.i, self.lenient, self.ascii = text, 0, lenient, ascii_
        self.relaxed = []           # what was tolerated because of the lenient mode: (kind, (start, end))

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in WS:
            self.i += 1

    def bad(self, kind, s, e=None):
        raise Bad(kind, (s, max(s + 1, e if e is not None else s + 1)))

    def eof(self):
        raise Bad('eof', (len(self.t), len(self.t)))

    def peek(self):
        self.ws()
        if self.i >= len(self.t):
            self.eof()
        return self.t[self.i]

    def skip_token(self):
        """end of the token starting here (used to place errors)"""
        c = self.t[self.i]
        s = self.i
        if c == '"':
            try:
                self.string()
            except Bad as b:
                if b.kind == 'eof':
                    raise
                raise
            return self.i
        if c in 'tTfFnN':
            j = s
            while j < len(self.t) and self.t[j].isalpha():
                j += 1
            return j
        if c in NUMCH:
            j = s
            while j < len(self.t) and self.t[j] in NUMCH:
                j += 1
            return j
        return s + 1

    def value(self):
        c = self.peek()
        s = self.i
        if c == '{':
            return self.obj()
        if c == '[':
            return self.arr()
        if c == '"':
            v = self.string()
            return N('str', v, start=s, end=self.i, raw=self.t[s:self.i])
        if c in 'tfnTFN':
            j = s
            while j < len(self.t) and self.t[j].isascii() and self.t[j].isalpha():
                j += 1
            w = self.t[s:j]
            full = {'t': 'true', 'f': 'false', 'n': 'null'}[c.lower()]
            if j >= len(self.t) and len(w) < len(full) and full.startswith(w.lower()):
                self.eof()
            if w == full:
                self.i = j
                return N('lit', w, start=s, end=j, raw=w)
            if w.lower() == full:
                if not self.lenient:
                    self.bad('case', s, j + 1)
                self.relaxed.append(('case', (s, j + 1)))
                self.i = j
                return N('lit', full, start=s, end=j, raw=w)
            self.bad('syntax', s, j + 1)
        if c in '-0123456789':
            j = s
            while j < len(self.t) and self.t[j] in NUMCH:
                j += 1
            w = self.t[s:j]
            m = NUM.fullmatch(w)
            if not m:
                self.bad('syntax', s, j + 1)
            self.i = j
            v = num_value(w)
            if v is None:
                self.bad('range', s, j + 1)
            return N('num', v, start=s, end=j, raw=w)
        self.bad('syntax', s)

    def string(self):
        s = self.i
        self.i += 1
        o = []
        t = self.t
        while True:
            if self.i >= len(t):
                self.eof()
            c = t[self.i]
            self.i += 1
            if c == '"':
                return ''.join(o)
            if c != '\\':
                o.append(c)
                continue
            if self.i >= len(t):
                self.eof()
            e = t[self.i]
            self.i += 1
            if e in '"\\/':
                o.append(e)
            elif e in 'bfnrt':
                o.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}[e])
            elif e == 'u':
                h = t[self.i:self.i + 4]
                if self.ascii:
                    if len(h) < 4 or not re.fullmatch('[0-9a-fA-F]{4}', h):
                        raise Skip2()
                    self.i += 4
                    o.append(chr(int(h, 16)))
                    continue
                if len(h) < 4:
                    self.eof()
                if not re.fullmatch('[0-9a-fA-F]{4}', h):
                    # from the first wrong digit to the end of the escape
                    self.bad('hex', self.i + len(re.match('[0-9a-fA-F]*', h)[0]), self.i + 4)
                self.i += 4
                o.append(chr(int(h, 16)))
            else:
                if not self.lenient:
                    self.bad('escape', s, self.i)
                self.relaxed.append(('escape', (s, self.i)))
                o.append('\\' + e)

    def obj(self):
        s = self.i
        self.i += 1
        items, keys = [], {}
        if self.peek() == '}':
            self.i += 1
            return N('obj', items=items, start=s, end=self.i)
        while True:
            c = self.peek()
            ks = self.i
            if c != '"':
                self.bad('syntax', ks, self.tok_end())
            self.string()
            k = decode_tokens(self.t[ks:self.i]) if not self.ascii else self.t[ks:self.i].replace('\\/', '/')
            if self.peek() != ':':
                self.bad('syntax', self.i, self.tok_end())
            self.i += 1
            ce = self.i
            if k in keys:
                if not self.lenient:
                    self.bad('dupkey', ks, ce)
                self.relaxed.append(('dupkey', (ks, ce)))
            v = self.value()
            if k in keys:
                items = [x for x in items if x[0] != k]
            keys[k] = 1
            items.append((k, v))
            c = self.peek()
            if c == ',':
                self.i += 1
                continue
            if c == '}':
                self.i += 1
                return N('obj', items=items, start=s, end=self.i)
            self.bad('syntax', self.i, self.tok_end())

    def arr(self):
        s = self.i
        self.i += 1
        items = []
        if self.peek() == ']':
            self.i += 1
            return N('arr', items=items, start=s, end=self.i)
        while True:
            items.append(self.value())
            c = self.peek()
            if c == ',':
                self.i += 1
                continue
            if c == ']':
                self.i += 1
                return N('arr', items=items, start=s, end=self.i)
            self.bad('syntax', self.i, self.tok_end())

    def tok_end(self):
        s = self.i
        c = self.t[s]
        if c == '"':
            save = self.i
            self.string()
            e = self.i
            self.i = save
            return e
        if c in 'tTfFnN':
            j = s
            while j < len(self.t) and self.t[j].isascii() and self.t[j].isalpha():
                j += 1
            return j + 1
        if c in NUMCH:
            j = s
            while j < len(self.t) and self.t[j] in NUMCH:
                j += 1
            return j + 1
        return s + 1


class Skip2(Exception):
    pass


def num_value(w):
    """exact int where it is one a 64 bits integer can hold, double otherwise; None when out of range"""
    if re.fullmatch(r'-?\d+', w):
        v = int(w)
        if -2**63 <= v < 2**63:
            return v
    f = float(w)
    return None if math.isinf(f) else f


def read(text, lenient=False, ascii_=False):
    """(root, reader) of the first value of text; raises Bad"""
    r = Reader(text, lenient, ascii_)
    return r.value(), r


def valid(text):
    """root when the whole text is exactly one JSON document, else None"""
    try:
        root, r = read(text)
        r.ws()
        return root if r.i == len(text) else None
    except (Bad, Skip2, RecursionError):
        return None


# ------------------------------------------------------------------ comparing values
def decode_tokens(raw):
    """decoded code points of a raw string token (with quotes); bytes as UTF-8 with lone bytes mapped to 0x110000+b"""
    out = []
    i, t = 1, raw
    pend = bytearray()

    def flush():
        nonlocal pend
        if not pend:
            return
        b = bytes(pend)
        pend = bytearray()
        k = 0
        while k < len(b):
            for ln in (1, 2, 3, 4):
                try:
                    ch = b[k:k + ln].decode('utf-8')
                    out.append(ord(ch))
                    k += ln
                    break
                except UnicodeDecodeError:
                    continue
            else:
                out.append(0x110000 + b[k])
                k += 1
    while i < len(t) - 1:
        c = t[i]
        if c != '\\':
            pend.append(ord(c))
            i += 1
            continue
        flush()
        e = t[i + 1]
        i += 2
        if e == 'u' and re.fullmatch('[0-9a-fA-F]{4}', t[i:i + 4]):
            out.append(int(t[i:i + 4], 16))
            i += 4
        elif e in '"\\/':
            out.append(ord(e))
        elif e in 'bfnrt':
            out.append(ord({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}[e]))
        else:
            out += [ord('\\'), ord(e)]
    flush()
    # surrogate pairs
    res = []
    for u in out:
        if 0xDC00 <= u < 0xE000 and res and 0xD800 <= res[-1] < 0xDC00:
            res[-1] = 0x10000 + ((res[-1] - 0xD800) << 10) + (u - 0xDC00)
        else:
            res.append(u)
    return tuple(res)


TOK = re.compile(r'\s+|"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[-+0-9.eE]+|[A-Za-z]+|.', re.S)


def val(text, lenient=False, raw_keys=False):
    """Decoded value of the first JSON value of text: ('obj', [(key, v)]) / ('arr', [...]) / ('str', cps) / ('num', x) / ('lit', w)."""
    toks = []
    for m in TOK.finditer(text):
        w = m.group(0)
        if w.isspace():
            continue
        toks.append(w)
    pos = 0

    def v():
        nonlocal pos
        w = toks[pos]
        pos += 1
        if w == '{':
            it = []
            if toks[pos] == '}':
                pos += 1
                return ('obj', it)
            while True:
                k = toks[pos]
                if k[0] != '"' or toks[pos + 1] != ':':
                    raise ValueError('key expected')
                pos += 2
                k = decode_tokens(k)
                x = v()
                if lenient:
                    it = [e for e in it if e[0] != k]
                it.append((k, x))
                w = toks[pos]
                pos += 1
                if w == '}':
                    return ('obj', it)
                if w != ',':
                    raise ValueError('comma expected')
        if w == '[':
            it = []
            if toks[pos] == ']':
                pos += 1
                return ('arr', it)
            while True:
                it.append(v())
                w = toks[pos]
                pos += 1
                if w == ']':
                    return ('arr', it)
                if w != ',':
                    raise ValueError('comma expected')
        if w[0] == '"' and len(w) > 1:
            return ('str', decode_tokens(w))
        if w[0] in '-0123456789':
            if not NUM.fullmatch(w):
                raise ValueError('number ' + w)
            return ('num', num_value(w))
        if w.lower() in ('true', 'false', 'null') and (lenient or w in ('true', 'false', 'null')):
            return ('lit', w.lower())
        raise ValueError('token ' + w)
    try:
        r = v()
    except IndexError:
        raise ValueError('end of text')
    rest = toks[pos:]
    return r, rest


def utf8key(k):
    """bytes of a decoded key, as the program stores it (only for keys without control characters)"""
    o = b''
    for u in k:
        o += bytes([u - 0x110000]) if u >= 0x110000 else chr(u).encode('utf-8', 'surrogatepass')
    return o


def same(a, b, ordered):
    """equal values; objects as ordered lists or as sets of entries"""
    if a[0] != b[0]:
        return False
    if a[0] == 'obj':
        if len(a[1]) != len(b[1]):
            return False
        if ordered:
            return all(x[0] == y[0] and same(x[1], y[1], True) for x, y in zip(a[1], b[1]))
        d = {}
        for k, x in b[1]:
            if k in d:
                return False
            d[k] = x
        return all(k in d and same(x, d[k], False) for k, x in a[1])
    if a[0] == 'arr':
        return len(a[1]) == len(b[1]) and all(same(x, y, ordered) for x, y in zip(a[1], b[1]))
    if a[0] == 'num':
        if isinstance(a[1], int) and isinstance(b[1], int):
            return a[1] == b[1]
        return a[1] is not None and b[1] is not None and float(a[1]) == float(b[1]) and (not isinstance(a[1], int) or abs(a[1]) <= 2**53 or a[1] == b[1])
    return a[1] == b[1]


# ------------------------------------------------------------------ reference layout
def tokens(text):
    return [m.group(0) for m in TOK.finditer(text) if not m.group(0).isspace()]


def layout(toks, compress):
    """text of one value given as tokens, laid out as the program documents it; returns (text, tokens used)"""
    out = []
    pos = 0

    def nl():
        if not compress:
            out.append('\n')

    def ind(n):
        return '' if compress else ' ' * (4 * n)

    def value(n, comma, key):
        nonlocal pos
        w = toks[pos]
        pos += 1
        if w in '{[':
            if key is not None:
                out.append(ind(n) + comma + key + ':')
                nl()
                out.append(ind(n) + w)
            else:
                out.append(ind(n) + comma + w)
            nl()
            first = True
            while toks[pos] not in '}]':
                if not first:
                    if toks[pos] != ',':
                        raise ValueError('comma expected')
                    pos += 1
                c = '' if first else ','
                first = False
                if w == '{':
                    k = toks[pos]
                    if toks[pos + 1] != ':':
                        raise ValueError('colon expected')
                    pos += 2
                    value(n + 1, c, k)
                else:
                    value(n + 1, c, None)
            out.append(ind(n) + toks[pos])
            pos += 1
            nl()
        else:
            out.append(ind(n) + comma + (key + ':' if key is not None else '') + w)
            nl()
    try:
        value(0, '', None)
    except IndexError:
        raise ValueError('end of text')
    return ''.join(out), pos


# ------------------------------------------------------------------ generator
class Profile:
    def __init__(self, rng, **kw):
        self.ascii = rng.random() < 0.5
        self.maxdepth = rng.choice([1, 2, 3, 4, 6])
        self.breadth = rng.choice([1, 2, 3, 5, 9])
        self.ws = rng.choice(['none', 'one', 'pretty', 'wild', 'crlf'])
        self.numbers = rng.choice(['small', 'ints', 'all'])
        self.strings = rng.choice(['plain', 'plain', 'escapes', 'all'])
        self.keys = rng.choice(['short', 'short', 'escapes', 'long'])
        self.strlen = rng.choice([3, 8, 8, 30, 120])
        self.rawctl = False
        self.surrogates = True
        self.biglits = 1.0
        self.dup = 0.0
        self.caps = 0.0
        self.badesc = 0.0
        self.__dict__.update(kw)


PLAIN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .-_#!?:,[]{}'
UNI = ['é', 'ß', '€', '中', '\U0001f600', 'ÿ', '\u07ff', '\u0800', '\x7f', '\x80', '\ufeff', '\uffff', '\U0010ffff']


def gen_string(r, p, kind, n):
    o = []
    for _ in range(n):
        x = r.random()
        if kind == 'plain' or x < 0.6:
            o.append(r.choice(PLAIN))
        elif x < 0.8:
            o.append('\\' + r.choice('"\\/bfnrt'))
        elif kind == 'escapes' or x < 0.87:
            q = r.random()
            if q < 0.35:
                u = r.choice([0x41, 0x61, 0x20, 0x7e, 0x30, 0x5a])
            elif q < 0.6:
                u = r.choice([0, 1, 8, 9, 10, 12, 13, 0x1f, 0x22, 0x2f, 0x5c, 0x7f])
            elif q < 0.9 or not p.surrogates:
                u = r.choice([0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0xd7ff, 0xe000])
            else:
                o.append(r.choice(['\\ud83d\\ude00', '\\uD834\\uDD1E', '\\udbff\\udfff']))
                continue
            h = '%04x' % u
            o.append('\\u' + (h if r.random() < 0.6 else h.upper()))
        elif not p.ascii:
            o.append(r.choice(UNI).encode('utf-8').decode('latin-1'))
        elif p.rawctl:
            o.append(r.choice('\t\n\x01\x1f'))
        else:
            o.append(r.choice(PLAIN))
    if p.badesc and r.random() < p.badesc:
        o.insert(r.randrange(len(o) + 1), '\\' + r.choice('aqxz0v\'B'))
    return '"' + ''.join(o) + '"'


def gen_number(r, p):
    if p.numbers == 'small':
        return str(r.randrange(0, 100))
    x = r.random()
    if p.numbers == 'ints' or x < 0.5:
        return r.choice([lambda: str(r.randrange(-1000, 1000)), lambda: str(r.choice([2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53 + 1, 2**63 - 1, -2**63, 0])),
                         lambda: str(r.randrange(-2**63, 2**63)), lambda: '-0' if r.random() < 0.2 else '0'])()
    return r.choice([lambda: '%d.%d' % (r.randrange(-100, 100), r.randrange(0, 1000)), lambda: repr(r.uniform(-1, 1)), lambda: repr(r.uniform(-1e18, 1e18)),
                     lambda: '%de%d' % (r.randrange(1, 99), r.randrange(-30, 30)), lambda: '%d.%dE+%d' % (r.randrange(0, 99), r.randrange(0, 99), r.randrange(0, 300)),
                     lambda: str(r.choice([2**63, 2**64, -2**63 - 1, 10**20, 10**30 + 7])), lambda: r.choice(['0.1', '1.0', '-0.0', '1e5', '1E-5', '123456789.125', '1.7976931348623157e308', '5e-324', '0.30000000000000004'])])()


def gen_lit(r, p):
    w = r.choice(['true', 'false', 'null'])
    if p.caps and r.random() < p.caps:
        w = r.choice([w.upper(), w.capitalize(), ''.join(c.upper() if r.random() < .5 else c for c in w)])
    return w


def wsp(r, p, nl='\n', depth=0):
    if p.ws == 'none':
        return ''
    if p.ws == 'one':
        return ' ' if r.random() < 0.5 else ''
    if p.ws == 'pretty':
        return '\n' + '  ' * depth if r.random() < 0.5 else ''
    if p.ws == 'crlf':
        return '\r\n' + '\t' * depth if r.random() < 0.5 else ''
    return ''.join(r.choice(' \t\n\r') for _ in range(r.randrange(0, 4)))


def gen_value(r, p, depth=0, top=False):
    x = r.random()
    if depth < p.maxdepth and (x < 0.5 or top and x < 0.9):
        n = r.randrange(0, p.breadth + 1)
        if top and n == 0 and r.random() < 0.8:
            n = p.breadth
        w = lambda d=1: wsp(r, p, depth=depth + d)
        if r.random() < 0.5:
            return '[' + w() + (w() + ',' + w()).join(gen_value(r, p, depth + 1) for _ in range(n)) + w(0) + ']'
        ks, seen = [], set()
        for _ in range(n):
            for _t in range(20):
                if p.keys == 'short':
                    k = '"' + ''.join(r.choice('abcABC_1Z~') for _ in range(r.randrange(1, 4))) + '"'
                elif p.keys == 'utf8':
                    k = '"' + ''.join(r.choice(['a', 'b', 'B', '~', ' '] + UNI).encode('utf-8').decode('latin-1') for _ in range(r.randrange(0, 4))) + '"'
                elif p.keys == 'long':
                    k = gen_string(r, p, 'plain', r.randrange(1, max(2, p.strlen)))
                else:
                    k = gen_string(r, p, p.strings, r.randrange(0, 6))
                d = decode_tokens(k) if not p.badesc else k
                if d not in seen or (p.dup and r.random() < p.dup):
                    seen.add(d)
                    ks.append(k)
                    break
            if p.dup and ks and r.random() < p.dup:
                ks.append(r.choice(ks))
        return '{' + w() + (w() + ',' + w()).join(k + w() + ':' + w() + gen_value(r, p, depth + 1) for k in ks) + w(0) + '}'
    x = r.random()
    if x < 0.4:
        return gen_string(r, p, p.strings, r.randrange(0, p.strlen + 1))
    if x < 0.75:
        return gen_number(r, p)
    return gen_lit(r, p)


def gen_doc(r, p):
    return wsp(r, p) + gen_value(r, p, 0, True) + wsp(r, p)


# ------------------------------------------------------------------ shrinking
def shrink_text(t):
    """smaller texts: structural when t is JSON, then by chunks"""
    try:
        root, rd = read(t, True)
        st = True
    except (Bad, Skip2, RecursionError):
        st = False
    if st:
        nodes = []

        def walk(n):
            nodes.append(n)
            for c in n.items or []:
                walk(c[1] if n.kind == 'obj' else c)
        walk(root)
        for n in nodes[1:40]:
            yield t[n.start:n.end]
        if t[root.start:root.end] != t and len(t) < 4000:
            yield t[root.start:root.end]
        for n in nodes[:60]:
            if n.kind in ('obj', 'arr') and n.items:
                parts = [(c[1] if n.kind == 'obj' else c) for c in n.items]
                # spans of the items from the end of the previous one
                for k in range(len(parts)):
                    if len(parts) == 1:
                        yield t[:n.start] + ('{}' if n.kind == 'obj' else '[]') + t[n.end:]
                    elif k == 0:
                        j = t.index(',', parts[0].end)
                        yield t[:n.start + 1] + t[j + 1:]
                    else:
                        yield t[:parts[k - 1].end] + t[parts[k].end:]
            elif n.kind == 'str' and n.end - n.start > 3:
                yield t[:n.start] + '"a"' + t[n.end:]
            elif n.kind in ('num', 'lit', 'str') and t[n.start:n.end] not in ('1', '"a"'):
                yield t[:n.start] + '1' + t[n.end:]
    n = len(t)
    if n > 3000:
        steps = [n // 2, n // 4, n // 8]
    else:
        steps = []
        s = n // 2
        while s >= 1:
            steps.append(s)
            s //= 2
    cnt = 0
    for s in steps:
        for i in range(0, n, s):
            cnt += 1
            if cnt > 400:
                return
            yield t[:i] + t[i + s:]
