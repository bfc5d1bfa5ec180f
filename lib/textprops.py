"""Properties of the redirected output: what is written, in which order and layout, and what happens on bad input or failing devices."""
import posixpath
import copy, re
import jsonmodel as J
from engine import blank, proc, Violation, Skip, crash_check, render

EIO, ENOSPC, EPIPE, EACCES, ENOENT, EMFILE, EISDIR, ENOMEM = 5, 28, 32, 13, 2, 24, 21, 12


# ------------------------------------------------------------------ command line, as documented
class Cli:
    pass


def cli(args):
    """The documented command line. error: None / 'usage error'; info: 'help' / 'version' when asked before any error."""
    c = Cli()
    c.W = c.ascii = c.compress = c.diff = c.keep = False
    c.color = True
    c.cmd, c.files, c.literal, c.info, c.error = None, [], None, None, None
    i = 0
    while i < len(args):
        a = args[i]
        if a == '--':
            c.literal = ' '.join(args[i + 1:])
            c.files.append(None)
            break
        elif a == '-W':
            c.W = True
        elif a == '--ascii':
            c.ascii = True
        elif a == '--color' or a == '--color=always':
            c.color = True
        elif a == '--color=never':
            c.color = False
        elif a == '--diff':
            c.diff = True
        elif a == '--compress':
            c.compress = True
        elif a == '--keep-order':
            c.keep = True
        elif a in ('-h', '--help'):
            c.info = 'help'
            break
        elif a in ('-v', '--version'):
            c.info = 'version'
            break
        elif a == '--diff-cmd':
            if c.cmd is not None:
                c.error = 'double'
                break
            c.cmd = []
            i += 1
            while i < len(args) and args[i] != ';':
                c.cmd.append(args[i])
                i += 1
        elif a.startswith('-'):
            c.error = 'option'
            break
        else:
            c.files.append(a)
        i += 1
    return c


def norm(p):
    return posixpath.normpath(p if p.startswith('/') else '/w/' + p)


def inputs(scn, pi=0):
    """[(name shown, text, path or <stdin> or None)] of one instance, in order; Skip when a file is missing"""
    p = scn['procs'][pi]
    c = cli(p['args'])
    if c.error or c.info:
        raise Skip()
    fs = {f[0]: f for f in scn['files']}
    res = []
    for f in c.files:
        if f is None:
            res.append(('ARGS', c.literal, None))
        else:
            q = norm(f)
            if q not in fs or fs[q][1] not in 'fr' or any(r[0] == f for r in res):
                raise Skip()
            res.append((f, fs[q][2], q))
    if not res:
        if p['stdin'][0] != 'pipe':
            raise Skip()
        res.append(('STDIN', p['stdin'][1], '<stdin>'))
    return c, res


# ------------------------------------------------------------------ scenario pieces
LENIENT = re.compile(r'-?0\d|\.\d|-?\d+\.($|[^0-9])|-\.')      # numbers which are not JSON, but read
NAMES = ['a.json', 'b.json', 'dir/c.json', '/data/d.json', 'x', 'name with space.json', 'UPPER.JSON', 'f.1']


# names which end alike, or have something else in common, or are unusual
ODD = [['aa.json', 'bA.json'], ['old/configuration.json', 'new/configuration.json', '/a/longer/path/configuration.json'], ['a.json', 'dir/a.json', '/data/a.json', 'A.json'],
       ['100%s%n%d.json', '%', '%%.json'], ['n' * 150 + '.json', 'd/' * 120 + 'x.json', 'N' * 200], ['{', ';', '{x}', 'a{}b'], ['\\n.json', "it's.json", 'a"b.json', '$HOME.json', '*.json']]


def pick(r, n, odd=.08):
    """names of n inputs"""
    if r.random() < odd:
        o = list(r.choice(ODD))
        r.shuffle(o)
        o = o[:n]
        return o + r.sample([x for x in NAMES if x not in o], n - len(o))
    return r.sample(NAMES, n)


def chunks(r, size):
    """a delivery schedule for about size bytes"""
    m = r.randrange(6)
    if m == 0:
        return []
    if m == 1 and size < 400:
        return [[0, 1] for _ in range(size + 2)]
    if m == 2:
        return [[r.choice([0, 1, 100, 5000]), r.choice([1, 2, 3, 7, 64])] for _ in range(r.randrange(1, 40))]
    if m == 3:
        k = r.randrange(1, max(2, size))
        return [[0, k], [r.choice([0, 10, 60000]), 1], [0, 1]]
    if m == 4:
        return [[r.choice([0, 3]), r.choice([1, 4095, 4096, 4097, 8190, 8191, 8192])] for _ in range(6)]
    return [[r.randrange(0, 300), r.randrange(1, max(2, size // 2 + 1))] for _ in range(r.randrange(1, 12))]


def wchunks(r, size):
    m = r.randrange(4)
    if m == 0:
        return []
    return [[r.choice([0, 0, 2, 900]), r.choice([1, 2, 5, 100, 1000])] for _ in range(r.randrange(1, 30))]


def heap(r):
    return [r.randrange(1, 1 << 30), r.randrange(0, 4), r.randrange(0, 5)]


def opts(r, W=0.1, ascii_=0.15, compress=0.3, keep=0.3):
    o = []
    if r.random() < W:
        o.append('-W')
    if r.random() < ascii_:
        o.append('--ascii')
    if r.random() < compress:
        o.append('--compress')
    if r.random() < keep:
        o.append('--keep-order')
    if r.random() < 0.1:
        o.append(r.choice(['--color', '--color=never', '--color=always']))
    r.shuffle(o)
    return o


def source(r, scn, docs, o, allow_args=True):
    """put the documents where the program will read them; fills procs, files and read schedules"""
    how = 'file' if len(docs) > 1 else r.choice(['file', 'file', 'stdin', 'stdin', 'args'] if allow_args else ['file', 'stdin'])
    if how == 'args' and ('\0' in docs[0] or len(docs[0]) > 3000):
        how = 'stdin'
    out = r.choice(['pipe', 'pipe', 'pipe', 'tty']) if '--compress' in o else 'pipe'
    if how == 'args':
        parts, cur = [], ''
        for ch in docs[0]:
            if ch == ' ' and r.random() < 0.7:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        parts.append(cur)
        scn['procs'].append(proc(o + ['--'] + parts, ('null', '', 0), out))
        return
    if how == 'stdin':
        scn['procs'].append(proc(o, ('pipe', docs[0], 0), out))
        ch = chunks(r, len(docs[0]))
        if ch:
            scn['rscripts'].append(['<stdin>', ch])
        return
    names = pick(r, len(docs))
    args = o + names
    if r.random() < 0.3:
        # options may come anywhere before --
        args = list(names)
        for x in o:
            args.insert(r.randrange(len(args) + 1), x)
    scn['procs'].append(proc(args, ('null', '', 0), out))
    for n, d in zip(names, docs):
        scn['files'].append([norm(n), 'f', d])
        ch = chunks(r, len(d))
        if ch:
            scn['rscripts'].append([norm(n), ch])


def big(r, doc):
    """stretch a document over several read buffers"""
    k = r.choice([4090, 4096, 8185, 8191, 16380, 20000])
    pad = max(0, k - len(doc) + r.randrange(-12, 12))
    return r.choice([lambda: ' ' * pad + doc, lambda: '[' + '"' + 'x' * pad + '",' + doc + ']', lambda: '[' + '1,' * (pad // 2) + doc + ']', lambda: '{"' + 'k' * pad + '":' + doc + '}'])()


def huge(r, doc):
    """a document beyond the size of the counters one may think of: depth, number of items, length of a string, of a line, number of lines"""
    m = r.randrange(6)
    if m < 2:
        n = r.choice([9, 17, 33, 40, 65, 130, 300])
        a, b = [], []
        for k in range(n):
            q = r.randrange(4)
            o, c = [('[', ']'), ('{"k":', '}'), ('[0,', ',1]'), ('{"a":1,"k":', ',"z":2}')][q]
            a.append(o)
            b.append(c)
        return ''.join(a) + doc.strip(J.WS) + ''.join(reversed(b))
    if m == 2:
        n = r.choice([70, 130, 260, 600])
        ks = ['k%d' % k for k in range(n)]
        r.shuffle(ks)
        return '{' + ','.join('"%s":%d' % (k, j) for j, k in enumerate(ks)) + ',"doc":' + doc + '}'
    if m == 3:
        return '[' + ','.join(str(k % 10) for k in range(r.choice([260, 1100, 4200]))) + ',' + doc + ']'
    if m == 4:
        return '["' + 'y' * r.choice([32768, 65530, 65536, 70000, 140000]) + '",' + doc + ']'
    return '[' + '\n' * r.choice([258, 32770, 65540]) + doc + ']'


def plain_doc(r, **kw):
    p = J.Profile(r, **kw)
    d = J.gen_doc(r, p)
    q = r.random()
    if q < 0.12 and len(d) < 3000:
        d = big(r, d)
    elif q < 0.15 and len(d) < 3000:
        d = huge(r, d)
    return d


def finish(scn, r, size):
    scn['heap'] = heap(r)
    w = wchunks(r, size)
    if w:
        scn['wscripts'].append(['<stdout>', w])
    return scn


def ok_doc(text, c):
    """root + value of a document the program has to accept; Skip otherwise"""
    try:
        root, rd = J.read(text, c.W, c.ascii)
    except (J.Bad, J.Skip2, RecursionError):
        raise Skip()
    rest = text[rd.i:].strip(J.WS)
    if rest:
        raise Skip()
    return root, rd


def show(s, n=160):
    s = repr(s)
    return s if len(s) < n else s[:n] + '... (%d)' % len(s)


def stdout_of(r, scn):
    """the text written on the standard output, pipe or terminal (raw bytes are not kept by the terminal)"""
    return r.out(1)


class Text:
    QUICK, THOROUGH = 6000, 400000
    RULE = ''
    known = staticmethod(lambda scn, v: False)


# ------------------------------------------------------------------ C01
class C01(Text):
    ID = 'C01'
    RULE = 'seeded documents x options x source (file, pipe, arguments) x byte delivery schedule x short/slow writes x heap layout, each executed under two schedules; non-trivial: the value has at least 3 tokens and the delivery is cut or delayed'

    def gen(self, r, i):
        scn = blank()
        d = plain_doc(r)
        o = opts(r)
        if '--compress' in o:
            pass
        source(r, scn, [d], o)
        scn['procs'][0]['stdout'] = 'pipe'
        scn['meta']['alt'] = [[['*', chunks(r, len(d))]], heap(r)]
        return finish(scn, r, len(d))

    def judge(self, x, scn):
        c, ins = inputs(scn)
        text = ins[0][1]
        if len(ins) != 1 or scn['procs'][0]['stdout'] != 'pipe':
            raise Skip()
        root, rd = ok_doc(text, c)
        r = x.run(scn)
        crash_check(r)
        self.expect(r, text, c, rd)
        if len(J.tokens(text)) >= 3 and (r.faults.get('short_read') or r.faults.get('slow_read') or r.faults.get('short_write')):
            x.nontrivial(r)
        if 'alt' in scn['meta']:
            s2 = copy.deepcopy(scn)
            s2['rscripts'] = [a for a in scn['meta']['alt'][0] if a[1]]
            s2['wscripts'] = []
            s2['heap'] = scn['meta']['alt'][1]
            r2 = x.run(s2)
            crash_check(r2)
            if (r2.out(1), r2.out(2)) != (r.out(1), r.out(2)):
                raise Violation('delivery', 'output depends on how the bytes were delivered: %s / %s' % (show(r.out(1)), show(r2.out(1))))

    def expect(self, r, text, c, rd):
        e = r.end()
        out, err = r.out(1), r.out(2)
        if e['kind'] != 'exit' or e['code'] != 0:
            raise Violation('status', 'ended with %s %s on a valid document; stderr %s' % (e['kind'], e['code'], show(err)))
        if err and not rd.relaxed:
            raise Violation('stderr', 'diagnostic on a valid document: ' + show(err))
        want, _ = J.val(text, c.W)
        try:
            got, rest = J.val(out)
        except ValueError as ex:
            raise Violation('notjson', 'output is not the document (%s): %s' % (ex, show(out)))
        if rest:
            raise Violation('trailing', 'text after the document: ' + show(out))
        if not J.same(want, got, False):
            raise Violation('value', 'output %s differs from input %s' % (show(out), show(text)))


# ------------------------------------------------------------------ C02
class C02(Text):
    ID = 'C02'
    RULE = 'documents with several keys per object (plain, UTF-8 and long keys, prefixes of one another), with and without --keep-order, delivered in pieces; non-trivial: an object with 2 keys that are not already sorted'

    def gen(self, r, i):
        scn = blank()
        d = plain_doc(r, keys=r.choice(['short', 'utf8', 'utf8', 'long']), strings='plain', maxdepth=r.choice([1, 2, 3]), breadth=r.choice([3, 6, 12]))
        if r.random() < .12:
            # keys which differ late, in any order
            pre = r.choice('kz_\xc3') * r.choice([7, 8, 15, 16, 23, 24, 31, 32, 33, 63, 64, 100, 255, 256, 600])
            pre = pre if '\xc3' not in pre else pre.replace('\xc3', '\xc3\xa9')
            ks = r.sample(['', 'a', 'b', 'c', 'B', '0', '1', '10', 'aa', 'ab', '_', '\xc3\xa9', '~', ' ', 'a' * 40, 'a' * 39 + 'b'], r.randrange(2, 10))
            obj = '{' + ','.join('"%s%s":%d' % (pre, k, n) for n, k in enumerate(ks)) + '}'
            d = r.choice(['%s', '[%s]', '{"x":%s,"a":1}', '[%s,{"b":1,"a":2}]']) % obj
        o = opts(r, keep=0.5)
        source(r, scn, [d], o)
        scn['procs'][0]['stdout'] = 'pipe'
        return finish(scn, r, len(d))

    def judge(self, x, scn):
        c, ins = inputs(scn)
        if len(ins) != 1:
            raise Skip()
        text = ins[0][1]
        ok_doc(text, c)
        if re.search(r'\\', text):
            raise Skip()
        want, _ = J.val(text)
        if not c.keep:
            want = self.sort(want)
        r = x.run(scn)
        crash_check(r)
        try:
            got, rest = J.val(r.out(1))
        except ValueError as ex:
            raise Violation('notjson', 'output is not the document (%s): %s' % (ex, show(r.out(1))))
        if not J.same(want, got, True):
            raise Violation('order', 'entries not in %s order: %s for input %s' % ('document' if c.keep else 'key', show(r.out(1)), show(text)))
        if not J.same(self.sort(want), J.val(text)[0], True):
            x.nontrivial(r)

    def sort(self, v):
        if v[0] == 'obj':
            return ('obj', sorted([(k, self.sort(y)) for k, y in v[1]], key=lambda e: J.utf8key(e[0])))
        if v[0] == 'arr':
            return ('arr', [self.sort(y) for y in v[1]])
        return v


# ------------------------------------------------------------------ C03
class C03(Text):
    ID = 'C03'
    RULE = 'documents printed with and without --compress, to a pipe or (with --compress) a terminal; the layout is rebuilt from the tokens of the output; non-trivial: at least one nested container'

    def gen(self, r, i):
        scn = blank()
        ns = r.choice([1, 1, 1, 2, 3])
        docs = [plain_doc(r) for _ in range(ns)]
        source(r, scn, docs, opts(r, compress=0.5))
        if scn['procs'][0]['stdout'] == 'tty':
            scn['procs'][0]['stdout'] = 'pipe'
        return finish(scn, r, sum(map(len, docs)))

    def judge(self, x, scn):
        c, ins = inputs(scn)
        for n, t, p in ins:
            ok_doc(t, c)
        r = x.run(scn)
        crash_check(r)
        out = r.out(1)
        toks = J.tokens(out)
        want = ''
        try:
            for k in range(len(ins)):
                w, n = J.layout(toks, c.compress)
                want += ('\n' if k and c.compress else '') + w
                toks = toks[n:]
        except ValueError as ex:
            raise Violation('notjson', 'output is not a sequence of documents (%s): %s' % (ex, show(out)))
        if want != out:
            raise Violation('layout', '%s output is laid out as %s, expected %s' % ('compressed' if c.compress else 'pretty', show(out, 400), show(want, 400)))
        if re.search(r'[\[{][^\]}]*[\[{]', out):
            x.nontrivial(r)


# ------------------------------------------------------------------ C04
def root_end(text, c):
    try:
        root, rd = J.read(text, c.W, c.ascii)
    except (J.Bad, J.Skip2, RecursionError):
        raise Skip()
    return root


class C04(Text):
    ID = 'C04'
    RULE = 'a valid document cut by end of file or by a read error (EIO and others) at a random byte, or a directory given as input, under random delivery; non-trivial: the cut falls inside the value'

    def gen(self, r, i):
        scn = blank()
        d = plain_doc(r)
        ns = r.choice([1, 1, 1, 2, 3])
        docs = [plain_doc(r, maxdepth=1, breadth=2) for _ in range(ns)]
        k = r.randrange(ns)
        docs[k] = d
        try:
            root, rd = J.read(d)
            cut = r.choice([r.randrange(0, root.end + 1), r.randrange(root.start, root.end + 1), root.end - 1, root.end])
        except J.Bad:
            cut = r.randrange(len(d) + 1)
        m = r.random()
        source(r, scn, docs, opts(r), allow_args=True)
        p = scn['procs'][0]
        p['stdout'] = 'pipe'
        if scn['files']:
            f = scn['files'][k]
            if m < 0.5:
                f[2] = f[2][:cut]
            elif m < 0.95:
                scn['rules'].append(['readerr', f[0], cut, r.choice([EIO, EIO, ENOMEM, 116]), -1])
            else:
                f[1], f[2] = 'd', ''
        elif p['stdin'][0] == 'pipe':
            if m < 0.5:
                p['stdin'][1] = p['stdin'][1][:cut]
            else:
                scn['rules'].append(['readerr', '<stdin>', cut, EIO, -1])
        else:
            a = p['args']
            s = ' '.join(a[a.index('--') + 1:])[:cut]
            p['args'] = a[:a.index('--') + 1] + s.split(' ')
        return finish(scn, r, 100)

    def judge(self, x, scn):
        p = scn['procs'][0]
        c = cli(p['args'])
        dirs = [f[0] for f in scn['files'] if f[1] == 'd']
        s2 = copy.deepcopy(scn)
        for f in s2['files']:
            if f[1] == 'd':
                f[1] = 'f'
        c, ins = inputs(s2)
        # which input is the first one that does not deliver a whole value?
        good = []
        bad = None
        for name, text, path in ins:
            rule = next((q for q in scn['rules'] if q[0] == 'readerr' and q[1] == path), None)
            if path in dirs:
                bad = (name, 'directory')
                break
            lim = rule[2] if rule else None
            t = text if lim is None else text[:lim]
            try:
                root, rd = J.read(t, c.W, c.ascii)
                if t[rd.i:].strip(J.WS):
                    raise Skip()
                if lim is not None and lim <= len(text) and rd.i == len(t) and root.kind == 'num':
                    bad = (name, 'read error after %d bytes' % lim)
                    break
                if lim is not None and rd.i <= lim and len(text) >= lim:
                    # the failing read is behind the end of the value: whether it happens is up to the buffering
                    if rd.i == len(t) or t[rd.i:].strip(J.WS) == '':
                        x.probe('error_after_value')
                        raise Skip()
                good.append(text)
            except J.Bad as b:
                if b.kind == 'dupkey' or b.kind != 'eof':
                    raise Skip()
                bad = (name, 'cut after %d bytes' % len(t))
                break
            except J.Skip2:
                bad = (name, 'cut after %d bytes' % len(t))
                break
        if not bad:
            raise Skip()
        r = x.run(scn)
        crash_check(r)
        out, err = r.out(1), r.out(2)
        x.nontrivial(r)
        x.probe('after_%d_good' % len(good))
        rest = out
        want = None
        try:
            for k, t in enumerate(good):
                toks = J.tokens(rest)
                w, n = J.layout(toks, c.compress)
                if k and c.compress:
                    w = '\n' + w
                if not rest.startswith(w):
                    raise Violation('earlier', 'documents before the failing one: ' + show(out))
                v, _ = J.val(w)
                if not J.same(v, J.val(t, c.W)[0], False):
                    raise Violation('earlier', 'a document before the failing one is wrong: ' + show(w))
                rest = rest[len(w):]
        except ValueError:
            raise Violation('earlier', 'documents before the failing one are missing: ' + show(out))
        if rest:
            raise Violation('partial', 'input %s was %s but something was written for it: %s' % (bad[0], bad[1], show(rest)))
        if bad[0] not in err:
            raise Violation('silent', 'input %s was %s, no diagnostic names it: stderr %s' % (bad[0], bad[1], show(err)))


# ------------------------------------------------------------------ C05
def mutate(r, d):
    """break a document at one place"""
    toks = [(m.start(), m.group(0)) for m in J.TOK.finditer(d) if not m.group(0).isspace()]
    if len(toks) < 2:
        return None
    k = r.randrange(len(toks))
    s, w = toks[k]
    e = s + len(w)
    m = r.randrange(10)
    if m == 0:
        return d[:s] + ' ' + d[e:]                       # drop
    if m == 1:
        return d[:s] + w + r.choice([' ', '', '\n']) + (w if w in '{}[]:,' else ' ' + w) + d[e:]  # repeat
    if m == 2:
        return d[:s] + r.choice('@#%=;&*!?^~`\'()<>|$xyz') + d[s:]
    if m == 3:
        return d[:s] + r.choice([',', ':', '}', ']', '"q"', ' 7 ', ' null ']) + d[s:]
    if m == 4 and w in '}]':
        return d[:s] + ']}'['}]'.index(w)] + d[e:]
    if m == 5:
        return d[:s] + r.choice([',,', ':', ' 1 2 ', 'tru ', 'nul,', 'falsee', 'truee', 'nulll', 'trux', 'faux', '-', '--1', '1.2.3', '1e', '1e+', '1e5e5', '1-2', '+1', '1e999', '-1e400', 'nil', 'none', 'undefined', 'NaN']) + d[e:]
    if m == 6:
        return d[:s] + r.choice(['"\\u12g4"', '"\\uzzzz"', '"\\u 123"', '"\\u00-1"', '"ab\\uD8_0"']) + d[e:]
    if m == 7:
        j = r.randrange(len(toks))
        s2, w2 = toks[j]
        return d[:s] + w2 + d[e:]                        # replace a token by another
    if m == 8 and w in '}]':
        return d[:s] + ',' + r.choice(['', '\n', ' ']) + d[s:]   # trailing comma
    if m == 9:
        return d[:s] + r.choice(['{1:2}', '{"a"}', '{"a",}', '{"a":}', '{:1}', '{,}', '[,]', '[:]', '{"a":1 "b":2}', '{true:1}', '{[]:1}', '{null:1}']) + d[e:]
    return d[:s] + '@' + d[s:]


ERR = re.compile(r'Error: (.*?): (.*) \[(\w+)\] at line (\d+), col (\d+) \((.*)\) while reading\n(.*)\n(~*)\^\n', re.S)


def lines_upto(text, e):
    """(line number, text of the current line) after e bytes; CRLF is one line break"""
    l = re.split('\r\n|\r|\n', text[:e])
    return len(l), l[-1]


def located(text, tok, line, col, ex, und):
    """whether a place given is one of the offending token"""
    if len(und) != max(0, len(ex) - 1):
        return False
    for e in range(tok[0], min(tok[1], len(text)) + 1):
        ln, cur = lines_upto(text, e)
        cur = cur.replace('\r', '')
        if ln == line and len(cur) == col and cur.endswith(ex) and len(ex) >= min(len(cur), 15):
            return True
    return False


def check_location(text, tok, name, err, what):
    m = ERR.search(err)
    if not m:
        raise Violation('diag', '%s: no located diagnostic: %s' % (what, show(err)))
    if m.group(2) != name:
        raise Violation('diag-name', '%s: the diagnostic names %s instead of %s' % (what, show(m.group(2)), name))
    line, col, ex, und = int(m.group(4)), int(m.group(5)), m.group(7), m.group(8)
    if len(und) != max(0, len(ex) - 1):
        raise Violation('caret', '%s: the caret is not under the end of the excerpt: %s' % (what, show(err)))
    for e in range(tok[0], min(tok[1], len(text)) + 1):
        ln, cur = lines_upto(text, e)
        cur = cur.replace('\r', '')
        if ln == line and len(cur) == col and cur.endswith(ex) and len(ex) >= min(len(cur), 15):
            return
    a, b = lines_upto(text, tok[0] + 1), lines_upto(text, min(tok[1], len(text)))
    raise Violation('location', '%s: reported at line %d, col %d, %s; the offending text %s is at line %d, col %d to line %d, col %d' % (
        what, line, col, show(ex), show(text[tok[0]:tok[1]]), a[0], len(a[1]), b[0], len(b[1])))


class C05(Text):
    ID = 'C05'
    RULE = 'a valid document broken at one random token (dropped, repeated, replaced, foreign text, bad literals, numbers, hex escapes, duplicated keys), delivered in pieces; non-trivial: the error is not on the first token'

    def gen(self, r, i):
        scn = blank()
        ns = r.choice([1, 1, 1, 2, 3])
        docs = [plain_doc(r, maxdepth=1, breadth=2) for _ in range(ns)]
        for _ in range(50):
            p = J.Profile(r, numbers='small' if r.random() < .7 else 'all', dup=r.choice([0, 0, 0, .3]), ws=r.choice(['none', 'one', 'pretty', 'crlf', 'wild']))
            if p.dup:
                p.surrogates = False
            d = J.gen_doc(r, p)
            q = r.random()
            if q < 0.15:
                d = big(r, d)
            elif q < 0.19:
                d = huge(r, d)
            if not p.dup:
                d = mutate(r, d)
                if d is None:
                    continue
            try:
                J.read(d)
            except J.Bad as b:
                if b.kind in ('syntax', 'hex', 'range', 'dupkey', 'case'):
                    break
            except J.Skip2:
                pass
        else:
            return None
        docs[r.randrange(ns)] = d
        source(r, scn, docs, opts(r, W=0.2, ascii_=0.05))
        scn['procs'][0]['stdout'] = 'pipe'
        return finish(scn, r, 50)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        good, bad = 0, None
        for name, text, path in ins:
            try:
                root, rd = J.read(text, c.W, c.ascii)
                if text[rd.i:].strip(J.WS):
                    raise Skip()
                good += 1
            except J.Skip2:
                raise Skip()
            except J.Bad as b:
                if b.kind == 'eof':
                    raise Skip()
                bad = (name, text, b)
                break
        if not bad:
            raise Skip()
        name, text, b = bad
        # numbers with leading zeros and the like are outside of the property
        if b.kind == 'syntax' and LENIENT.match(text[b.tok[0]:b.tok[1] + 1]):
            raise Skip()
        if text[:b.tok[0]].strip(J.WS) == '' and b.kind == 'syntax':
            raise Skip()            # no value was even begun, or its text goes on after a complete value
        located = True
        if re.search('[^\x00-\x7f]', text[b.tok[0]:b.tok[1]]) and b.kind == 'syntax' and text[b.tok[0]] != '"':
            raise Skip()
        r = x.run(scn)
        crash_check(r)
        out, err = r.out(1), r.out(2)
        if located:
            x.nontrivial(r)
        x.probe('kind_' + b.kind)
        rest = out
        try:
            for k in range(good):
                w, n = J.layout(J.tokens(rest), c.compress)
                if k and c.compress:
                    w = '\n' + w
                rest = rest[len(w):]
        except ValueError:
            raise Violation('earlier', 'documents before the malformed one are missing: ' + show(out))
        if rest:
            raise Violation('accepted', 'malformed input (%s %s) produced output %s; input %s' % (b.kind, show(text[b.tok[0]:b.tok[1]]), show(rest), show(text)))
        if name not in err:
            raise Violation('silent', 'malformed input %s is not named by a diagnostic: %s' % (name, show(err)))
        if located:
            check_location(text, b.tok, name, err, 'malformed input (%s)' % b.kind)


# ------------------------------------------------------------------ C06
WARN = re.compile(r'Warning: (.*?): (.*?) \[(\w+)\] at line (\d+), col (\d+) \((.*?)\) while reading\n(.*?)\n(~*)\^\n', re.S)


class C06(Text):
    ID = 'C06'
    RULE = 'documents with duplicated keys, literals in other letter cases and unknown escapes, in one to several inputs and every mode (printing, command, viewer, side by side), run without and with -W; non-trivial: at least one thing to tolerate'

    def gen(self, r, i):
        scn = blank()
        p = J.Profile(r, dup=r.choice([0, .3, .6]), caps=r.choice([0, 0, .3, .8]), badesc=r.choice([0, 0, .3]), keys='short', strings='plain', surrogates=False, maxdepth=r.choice([1, 2, 3]))
        d = J.gen_doc(r, p)
        if r.random() < .1:
            d = big(r, d)
        elif r.random() < .05:
            d = huge(r, d)
        elif r.random() < .04:
            # many of them, far from each other
            n = r.choice([20, 130, 257, 300])
            it = lambda j: r.choice(['{"a":%d,"a":2}' % j, 'True', 'FALSE', 'nuLL', '"\\q%d"' % j, '[%d]' % j, '{"b":{"c":[],"c":{}}}'])
            d = '[' + r.choice([',', ',\n', ' , ']).join(it(j) for j in range(n)) + ',' + d + ']'
        docs = [d]
        if r.random() < .25:
            # several inputs, each with things of its own
            for _ in range(r.choice([1, 1, 2])):
                q = J.Profile(r, dup=r.choice([0, .3]), caps=r.choice([0, .5]), badesc=r.choice([0, .3]), keys='short', strings='plain', surrogates=False, maxdepth=r.choice([0, 1, 2]))
                docs.append(J.gen_doc(r, q) if r.random() < .7 else r.choice(['{"a":1,"a":2}', '[True]', '"\\q"', '[null]']))
            r.shuffle(docs)
            if r.random() < .2:
                # the last one is not right, the others are shown with their warnings all the same
                docs.append(r.choice(['[1', '{"a":', '[x]', '{"a" 1}', '["a" 2]', '', '"\\u12', 'nul', '[True,', '[fals,1]']))
        o = [a for a in opts(r, W=0, ascii_=0) if a != '-W']
        m = r.random()
        if m < .12:
            # for a command, or on a terminal
            import cmdprops
            cmdprops.build(r, scn, docs, ['-W'] + o, False)
            scn['heap'] = heap(r)
            return scn
        if m < .2:
            o = [a for a in o if a != '--compress']
            names = pick(r, len(docs))
            scn = blank(nosnaps=0)
            scn['procs'].append(proc(['-W'] + o + (['--diff'] if len(docs) == 2 and r.random() < .5 else []) + names, ('tty', '', 0), 'tty'))
            for n, d in zip(names, docs):
                scn['files'].append([norm(n), 'f', d])
            scn['term'] = ['xterm', 24, 80]
            scn['limits'] = {'edges': 600000000}
            scn['acts'] = [{'gap': 300, 'k': 'key', 'b': b, 'inter': 0} for b in 'q' * len(docs)]
            scn['heap'] = heap(r)
            return scn
        source(r, scn, docs, o)
        p = scn['procs'][0]
        p['stdout'] = 'pipe'
        p['args'] = ['-W'] + p['args']
        return finish(scn, r, 50)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        if not c.W or c.ascii or scn['rules']:
            raise Skip()
        want = []
        bad = None
        for name, text, path in ins:
            try:
                root, rd = J.read(text, True)
                if text[rd.i:].strip(J.WS):
                    raise Skip()
            except (J.Skip2, RecursionError):
                raise Skip()
            except J.Bad:
                if not want or c.diff or c.cmd or any(q[0] == name for q in want):
                    raise Skip()
                bad = name
                break
            want.append((name, text, rd.relaxed))
        some = any(q[2] for q in want)
        a = scn['procs'][0]['args']
        tty = scn['procs'][0]['stdout'] == 'tty' and not c.compress
        if c.cmd or tty:
            if tty and (scn['procs'][0]['stdin'][0] != 'tty' or c.diff and len(ins) != 2 or [q['b'] for q in scn['acts'] if q['k'] == 'key'] != ['q'] * len(ins)):
                raise Skip()
            r = x.run(scn)
            crash_check(r)
            if r.verdict != 'ok':
                raise Skip()
            x.probe('command' if c.cmd else 'side by side' if c.diff else 'viewer')
            if some:
                x.nontrivial(r)
            self.warned(want, r.out(2), bad)
            return
        if bad:
            r = x.run(scn)
            crash_check(r)
            if some:
                x.nontrivial(r)
            x.probe('then a bad one')
            self.warned(want, r.out(2), bad)
            return
        s2 = copy.deepcopy(scn)
        k = a.index('--') if '--' in a else len(a)
        s2['procs'][0]['args'] = [q for q in a[:k] if q != '-W'] + a[k:]
        strict = x.run(s2)
        crash_check(strict)
        rest = strict.out(1)
        for n, (name, text, relaxed) in enumerate(want):
            if relaxed:
                if rest.strip():
                    raise Violation('strict', 'accepted without -W: %s gives %s' % (show(text), show(rest)))
                if name not in strict.out(2):
                    raise Violation('strict-silent', 'rejected without diagnostic: ' + show(strict.out(2)))
                kind, tok = relaxed[0]
                check_location(text, (tok[0], tok[1] + 1), name, strict.out(2), 'without -W (%s)' % kind)
                break
            if len(want) > 1:
                try:
                    rest = '\n'.join(J.val(rest)[1])
                except (ValueError, IndexError) as ex:
                    raise Violation('earlier', 'without -W, %s is not printed (%s): %s' % (show(text), ex, show(strict.out(1))))
        r = x.run(scn)
        crash_check(r)
        out, err = r.out(1), r.out(2)
        if some:
            x.nontrivial(r)
            for q in want:
                for k, t in q[2]:
                    x.probe('relaxed_' + k)
            if len(want) > 1:
                x.probe('several inputs')
        elif err or out != strict.out(1):
            raise Violation('noop', '-W changes the result of a correct document: %s / %s %s' % (show(strict.out(1)), show(out), show(err)))
        # unknown escapes are kept as they are: read them back as text
        rest = out
        for name, text, relaxed in want:
            w = J.val(text, True)[0]
            try:
                got, rest = J.val(rest)
                rest = '\n'.join(rest)
            except (ValueError, IndexError) as ex:
                raise Violation('notjson', 'with -W the output is not the document (%s): %s' % (ex, show(out)))
            if not J.same(w, got, False):
                raise Violation('value', 'with -W %s gives %s' % (show(text), show(out)))
        if rest:
            raise Violation('value', 'with -W %s gives %s' % (show(' '.join(q[1] for q in want)), show(out)))
        self.warned(want, err)

    def warned(self, want, err, bad=None):
        """one warning for each thing that was tolerated, at its place"""
        ws = [w for w in WARN.findall(err) if w[1] != bad]
        n = sum(len(q[2]) for q in want)
        if len(ws) != n:
            raise Violation('warnings', '%d things tolerated in %s, %d warnings: %s' % (n, ', '.join(show(q[1]) for q in want), len(ws), show(err)))
        left = [(name, text, (t[0], t[1] + 1), k) for name, text, relaxed in want for k, t in relaxed]
        for w in ws:
            for n, (name, text, t, k) in enumerate(left):
                if name == w[1] and located(text, t, int(w[3]), int(w[4]), w[6], w[7]):
                    del left[n]
                    break
            else:
                raise Violation('place', 'a warning about %s at line %s, col %s, %s is not where something is tolerated: %s' % (w[1], w[3], w[4], show(w[6]), ', '.join('%s at %d of %s, %s' % (k, t[0], name, show(text)) for name, text, t, k in left)))


# ------------------------------------------------------------------ C07
class C07(Text):
    ID = 'C07'
    RULE = 'two to five inputs (files, literal text last), some missing, unreadable, cut, malformed or failing while read, under random delivery; non-trivial: at least two inputs and one of them bad'

    def gen(self, r, i):
        scn = blank()
        n = r.randrange(2, 6)
        o = opts(r)
        names = pick(r, n)
        args = o + names
        for k, nm in enumerate(names):
            d = plain_doc(r, maxdepth=r.choice([1, 2]), breadth=r.choice([1, 3]))
            q = r.random()
            if q < 0.07:
                d = d[:len(d) // 2]
            elif q < 0.14:
                d = mutate(r, d) or '{'
            elif q < 0.2:
                scn['rules'].append(['readerr', norm(nm), r.randrange(0, len(d) + 1), EIO, -1])
            scn['files'].append([norm(nm), 'f', d])
            ch = chunks(r, len(d))
            if ch:
                scn['rscripts'].append([norm(nm), ch])
        if r.random() < .2:
            args += ['--', r.choice(['[1, 2]', '{"z":', 'null'])]
        scn['procs'].append(proc(args))
        return finish(scn, r, 50)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        if len(ins) < 2:
            raise Skip()
        # every input alone tells what it gives
        want, diag, stopped = '', '', False
        a = scn['procs'][0]['args']
        k = a.index('--') if '--' in a else len(a)
        o = [q for q in a[:k] if q.startswith('-')]
        r = x.run(scn)
        crash_check(r)
        for name, text, path in ins:
            s2 = copy.deepcopy(scn)
            s2['procs'][0]['args'] = o + (['--'] + a[k + 1:] if path is None else [name])
            s2['wscripts'] = []
            r2 = x.run(s2)
            crash_check(r2)
            want += ('\n' if want and c.compress and r2.out(1) else '') + r2.out(1)
            diag = r2.out(2)
            if not r2.out(1):
                stopped = True
                break
        out, err = r.out(1), r.out(2)
        if stopped:
            x.nontrivial(r)
            x.probe('stopped')
        if out != want:
            raise Violation('sequence', 'several inputs give %s, one by one they give %s%s' % (show(out, 300), show(want, 300), ' until ' + name + ' fails' if stopped else ''))
        if stopped and name not in err:
            raise Violation('silent', '%s failed, no diagnostic names it: %s' % (name, show(err)))
        if not stopped:
            x.nontrivial(r)


# ------------------------------------------------------------------ C08
class C08(Text):
    ID = 'C08'
    RULE = 'output to a device that accepts only part of the data (EIO, ENOSPC, EPIPE at a random byte, possibly later again writable) or accepts it in pieces; non-trivial: the failure hit after the first byte'

    def gen(self, r, i):
        scn = blank()
        ns = r.choice([1, 1, 2, 3])
        docs = [plain_doc(r) for _ in range(ns)]
        source(r, scn, docs, opts(r))
        scn['procs'][0]['stdout'] = 'pipe'
        size = sum(map(len, docs))
        e = r.choice([EIO, ENOSPC, ENOSPC, EPIPE])
        scn['rules'].append(['writeerr', '<stdout>', r.choice([0, r.randrange(0, size + 2), r.randrange(0, size * 2 + 2)]), e, r.choice([-1, -1, 1]) if e != EPIPE else -1])
        return finish(scn, r, size)

    def judge(self, x, scn):
        c, ins = inputs(scn)
        for n, t, p in ins:
            ok_doc(t, c)
        s2 = copy.deepcopy(scn)
        s2['rules'], s2['wscripts'] = [], []
        ref = x.run(s2)
        crash_check(ref)
        r = x.run(scn)
        crash_check(r)
        hit = r.faults.get('write_error', 0) + r.faults.get('disk_full', 0) + r.faults.get('epipe', 0)
        full, out = ref.out(1), r.out(1)
        e = r.end()
        if not hit:
            if out != full:
                raise Violation('pieces', 'without any failure the output is %s instead of %s' % (show(out), show(full)))
            return
        if out:
            x.nontrivial(r)
        x.probe('hit')
        if not full.startswith(out):
            raise Violation('garbled', 'after a write error the output is not a prefix of the document: %s / %s' % (show(out), show(full)))
        if e['kind'] == 'signal':
            x.probe('sigpipe')
            return
        if e['kind'] != 'exit':
            raise Violation('end', 'ended with %s after a write error' % e['kind'])
        if e['code'] == 0:
            raise Violation('success', 'only %d of %d bytes could be written, exit status is 0; stderr %s' % (len(out), len(full), show(r.out(2))))
        if not r.out(2):
            raise Violation('silent', 'no diagnostic for the write error')


# ------------------------------------------------------------------ C09
class C09(Text):
    ID = 'C09'
    RULE = 'random command lines: options in any order and number, unknown options, missing/unreadable/failing files, identical paths, names that look like options or special names, help and version anywhere, wrong number of --diff inputs; non-trivial: the line has an error or asks for help/version'

    def gen(self, r, i):
        scn = blank()
        args = []
        names = ['a.json', 'b.json', 'c.json']
        if r.random() < .3:
            # names which look like something else, but do not begin with a dash
            names = r.sample(['log-0.json', 'a--compress', 'x-', './--ascii', './-W', './-h', 'sub/-v', 'a=b', 'W', 'h', 'a;b', ';', '{}', 'a -W', 'a--', './--', './--diff', 'diff-cmd', 'v--version', 'color=never', 'STDIN', 'ARGS', '~', '+1', '%s', '0', 'x' * 200], 3)
        for _ in range(r.randrange(0, 6)):
            q = r.random()
            if q < 0.35:
                args.append(r.choice(['-W', '--ascii', '--color', '--color=never', '--color=always', '--compress', '--keep-order']))
            elif q < 0.42:
                args.append(r.choice(['--color=sometimes', '--color=', '--foo', '-x', '-', '--diff-cmdx', '--compress=1', '-hv', '---', '--Help', '-hW', '-Wh', '--compress ', '--color=Never', '--color=always ', '-' * 40, '-0', '-1.json', '-a.json', '--diff=1', '-w', '-H', '-V']))
            elif q < 0.48:
                args.append(r.choice(['-h', '--help', '-v', '--version']))
            elif q < 0.51:
                # one character away from an option
                o = r.choice(['-W', '--ascii', '--color', '--color=never', '--color=never', '--color=always', '--compress', '--keep-order', '--diff', '--diff-cmd', '--help', '--version', '-h', '-v'])
                k, c = r.randrange(1, len(o) + 1), r.choice(':=-.,axW0_ \t')
                args.append(r.choice([o[:k] + c + o[k:], o[:k] + c + o[k + 1:], o[:k] + o[k + 1:], o[:k] + o[k:].upper(), o + o[-1]]))
            elif q < 0.54:
                args.append('missing%d.json' % r.randrange(2))
            elif q < 0.60:
                args.append('secret.json')
            elif q < 0.64:
                args.append('--diff')
            elif q < 0.67:
                args += ['--diff-cmd', 'cmd', '{}'] + ([';'] if r.random() < .8 else [])
            else:
                args.append(r.choice(names))
        if r.random() < .25:
            args += ['--'] + r.choice([['[1,', '2]'], ['["a', '', 'b"]'], ['', '["a', '', '', 'b"]', ''], ['["a ', ' b"', ']'], ['["--compress', '-W', '--', ';', '-h"]'], ['["x y"]'], ['{"a":', '[', ']', '}']])
        scn['procs'].append(proc(args, ('pipe', '{"in":1}', 0), r.choice(['pipe', 'pipe', 'tty'])))
        for n, q in zip(names, 'abc'):
            scn['files'].append([norm(n), 'f', '["%s"]' % q])
        scn['files'].append(['/w/secret.json', 'u', '["secret"]'])
        if r.random() < .2:
            scn['rules'].append(['openfail_r', norm(r.choice(names)), 0, r.choice([EACCES, EMFILE, EIO, ENOENT, 40]), -1])
        scn['heap'] = heap(r)
        return scn

    def judge(self, x, scn):
        p = scn['procs'][0]
        args = p['args']
        # walk the line the way it is documented: left to right, first problem wins
        fs = {f[0]: f[1] for f in scn['files']}
        verdict, seen, i, cmd, diff = None, [], 0, False, False
        while i < len(args) and not verdict:
            a = args[i]
            if a == '--':
                seen.append(None)
                break
            if a in ('-h', '--help'):
                verdict = ('help', None)
            elif a in ('-v', '--version'):
                verdict = ('version', None)
            elif a == '--diff-cmd':
                if cmd:
                    verdict = ('error', '--diff-cmd')
                else:
                    cmd = True
                    i += 1
                    while i < len(args) and args[i] != ';':
                        i += 1
            elif a == '--diff':
                diff = True
            elif a in ('-W', '--ascii', '--color', '--color=never', '--color=always', '--compress', '--keep-order'):
                pass
            elif a.startswith('--color='):
                verdict = ('error', a[8:] or 'color')
            elif a.startswith('-'):
                verdict = ('error', a)
            else:
                q = norm(a)
                if fs.get(q, '-') not in 'fr' or q not in fs or any(u[0] == 'openfail_r' and u[1] == q and seen.count(a) >= u[2] and a not in seen for u in scn['rules']):
                    verdict = ('error', a)
                elif a in seen:
                    verdict = ('error', a)
                else:
                    seen.append(a)
            i += 1
        if not verdict and diff and not 2 <= len(seen) <= 3:
            verdict = ('count', None)
        if not verdict:
            if cmd or diff or (p['stdout'] == 'tty' and not cli(args).compress):
                raise Skip()
            verdict = ('run', None)
        r = x.run(scn)
        crash_check(r)
        out, err, e = r.out(1), r.out(2), r.end()
        tty = r.screen().text if p['stdout'] == 'tty' else None
        text = out if tty is None else '\n'.join(tty)
        k, what = verdict
        if k != 'run':
            x.nontrivial(r)
        x.probe(k)
        if any(ev[2] in ('fork', 'exec') for ev in r.events):
            raise Violation('ran', 'a command was run although the command line is %s' % k)
        if e['kind'] != 'exit':
            raise Violation('end', 'ended with %s %s' % (e['kind'], e['code']))
        if any(f not in {q[0] for q in scn['files']} and k not in ('/', '/dev', '/tmp', '/w') for f, k in [(f, f) for f in r.vfs if r.vfs[f][0] == 'f']):
            raise Violation('files', 'files were created: %s' % sorted(r.vfs))
        if k in ('help', 'version'):
            if e['code'] != 0 or err:
                raise Violation('info-status', '%s: exit status %d, stderr %s' % (k, e['code'], show(err)))
            if tty is None and (('Usage:' if k == 'help' else 'jsonstroll (jsonstroller suite)') not in text):
                raise Violation('info-text', '%s shows %s' % (k, show(text)))
            if tty is None and k == 'help' and not all(o in text for o in ('-W', '--ascii', '--keep-order', '--color', '--compress', '--diff', '--diff-cmd', '--version'[1:], '-h')):
                raise Violation('info-text', 'help does not describe every option: ' + show(text, 3000))
            if '"secret"' in text or '"in"' in text or '["' in text:
                raise Violation('info-text', '%s also prints a document' % k)
        elif k == 'error':
            if e['code'] == 0:
                raise Violation('status', 'invalid command line (%s), exit status 0; stderr %s' % (what, show(err)))
            if what not in err:
                raise Violation('diag', 'invalid command line, stderr does not name %s: %s' % (what, show(err)))
            if tty is None and ('Usage:' not in text or '["' in text):
                raise Violation('usage', 'invalid command line (%s): no usage, or a document was printed: %s' % (what, show(text)))
        elif k == 'count':
            if 'files to compare' not in err or '["' in text:
                raise Violation('count', 'wrong number of inputs for --diff: stderr %s' % show(err))
        else:
            c = cli(args)
            want = ''
            for s in seen or [0]:
                v = p['stdin'][1] if s == 0 else c.literal if s is None else next(f[2] for f in scn['files'] if f[0] == norm(s))
                try:
                    root, rd = J.read(v)
                except J.Bad:
                    raise Skip()
                want += ('\n' if want and c.compress else '') + J.layout(J.tokens(v), c.compress)[0]
            if tty is None and out != want:
                raise Violation('output', 'command line %s gives %s, expected %s' % (args, show(out), show(want)))
            if e['code'] != 0 or err:
                raise Violation('status', 'valid command line %s: exit status %d, stderr %s' % (args, e['code'], show(err)))


PROPS = [C01, C02, C03, C04, C05, C06, C07, C08, C09]
