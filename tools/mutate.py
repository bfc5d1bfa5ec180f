#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT.jsonl [-j N] [-s SEED] [-n MAX] [-f FILE...] [-r RUNS] [-p C01,C02,...]
Every mutant is one small textual change of one line of /repo's sources, built around the simulator in a scratch directory;
all checks run on it with few scenarios until one reports a violation.  What survives is read by hand: it is equivalent, outside of
the properties, or a hole in the checks.  Not a check itself: nothing in MANIFEST.json uses it."""
import sys, os, re, json, random, subprocess, argparse, shutil, multiprocessing
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
ORDER = 'C16 C01 C24 C05 C14 C17 C22 C23 C19 C20 C27 C03 C06 C10 C12 C08 C28 C15 C18 C21 C25 C04 C07 C09 C11 C13 C02 C26'.split()


def mutants(path, text):
    out = []
    lines = text.split('\n')
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if comment:
            comment = '*/' not in s
            continue
        if not s or s.startswith(('#', '//', '*')):
            continue

        def sub(a, b, n):
            out.append((i, l[:a] + n + l[b:]))
        for pat, reps in ((r' < ', [' <= ', ' >= ']), (r' > ', [' >= ', ' <= ']), (r' <= ', [' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
                          (r' && ', [' || ']), (r' \|\| ', [' && ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'[+-] ?1\b', ['']), (r' \+ ', [' - ']), (r' - ', [' + ']),
                          (r' \+(?=\w)', [' -']), (r' -(?=\w)', [' +']), (r'\+\+', ['--']), (r'(?<=[( ])!(?=[\w(*])', ['']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\.first\b', ['.second']), (r'\.second\b', ['.first']),
                          (r'\|= ', ['= ']), (r'\+= ', ['= ', '-= ']), (r'-= ', ['+= ']), (r'(?<![\w.])\d+(?![\w.])', None)):
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2:
                    continue
                for n in (reps if reps is not None else [str(int(m.group()) + 1)] + ([str(int(m.group()) - 1)] if int(m.group()) > 1 else [])):
                    sub(m.start(), m.end(), n)
        if re.match(r'^[\w>().:*&\[\]+-]+.*;$', s) and not re.match(r'^(return|const|static|class|struct|typedef|using|virtual|case|default|extern|template|throw)\b', s) and not re.match(r'^[\w:<>*& ]+ [*&]?\w+( ?=.*| ?\(.*\))?;$', s):
            out.append((i, ''.join(l[:len(l) - len(l.lstrip())]) + ';'))
        m = re.match(r'^(\s*)(else )?if \((.*)\)$', l)
        if m and m.group(3).count('(') == m.group(3).count(')'):
            for c in ('true', 'false'):
                out.append((i, '%s%sif (%s)' % (m.group(1), m.group(2) or '', c)))
        m = re.match(r'^(\s*)return (.*);$', l)
        if m and m.group(2) in ('true', 'false', 'nullptr'):
            pass
    res = []
    for i, n in out:
        if n != lines[i]:
            res.append((path, i + 1, lines[i].strip(), n.strip(), '\n'.join(lines[:i] + [n] + lines[i + 1:])))
    return res


SAN = '-fsanitize=address,integer-divide-by-zero,bounds,null,vla-bound,return,unreachable,bool,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer'


def flags(inc):
    return '-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -std=gnu++17 -g1 -O1 %s -fsanitize-coverage=trace-pc -w -I%s -Dmain=jsonstroll_main' % (SAN, inc)


def sh(c, t=600):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)


def one(job):
    k, (path, line, old, new, text), runs, order = job
    w = '/tmp/mw/%d' % os.getpid()
    os.makedirs(w, exist_ok=True)
    inc = R + '/include'
    srcs = [path] if path.endswith('.cpp') else None
    if srcs is None:
        shutil.rmtree(w + '/include', ignore_errors=True)
        shutil.copytree(inc, w + '/include')
        open(w + '/include/' + os.path.basename(path), 'w').write(text)
        inc = w + '/include'
        srcs = [f for f in sorted(os.listdir(R + '/src')) if sh('cd %s && g++ -std=gnu++17 -MM -I%s %s/src/%s | grep -q /%s' % (w, inc, R, f, os.path.basename(path))).returncode == 0]
        srcs = ['src/' + f for f in srcs]
    objs = {f[:-2]: '/tmp/mw/base/' + f for f in os.listdir('/tmp/mw/base') if f.endswith('.o')}
    for s in srcs:
        b = os.path.basename(s)[:-4]
        f = '%s/%s' % (R, s)
        if s == path:
            f = w + '/' + os.path.basename(s)
            open(f, 'w').write(text)
        o = '%s/app_%s.o' % (w, b)
        if sh('g++ %s -c %s -o %s' % (flags(inc), f, o)).returncode:
            return {'k': k, 'file': path, 'line': line, 'old': old, 'new': new, 'r': 'nobuild'}
        objs['app_' + b] = o
    exe = w + '/jsim'
    if sh('g++ %s -rdynamic %s -o %s -lncurses -ltinfo -ldl' % (SAN, ' '.join(objs.values()), exe)).returncode:
        return {'k': k, 'file': path, 'line': line, 'old': old, 'new': new, 'r': 'nolink'}
    env = dict(os.environ, JSIM_EXE=exe, VERIF_NW='1', VERIF_SEED=str(100 + k % 7), VERIF_TIER='quick')
    killed, msg = [], ''
    for c in order:
        n = int(runs * {'C01': 2, 'C05': 2, 'C24': 1, 'C23': 1, 'C22': 1, 'C26': .3, 'C08': .5, 'C02': 1}.get(c, 1))
        env['VERIF_RUNS'] = str(n)
        try:
            p = subprocess.run([sys.executable, V + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900, cwd=V)
        except subprocess.TimeoutExpired:
            return {'k': k, 'file': path, 'line': line, 'old': old, 'new': new, 'r': 'timeout', 'by': c}
        if p.returncode:
            return {'k': k, 'file': path, 'line': line, 'old': old, 'new': new, 'r': 'killed' if p.returncode == 1 else 'noanswer', 'by': c, 'msg': p.stdout.decode('latin-1')[-300:]}
    return {'k': k, 'file': path, 'line': line, 'old': old, 'new': new, 'r': 'SURVIVED'}


def main():
    a = argparse.ArgumentParser()
    a.add_argument('out'); a.add_argument('-j', type=int, default=8); a.add_argument('-s', type=int, default=1); a.add_argument('-n', type=int, default=0)
    a.add_argument('-f', nargs='*'); a.add_argument('-r', type=int, default=150); a.add_argument('-p', default=','.join(ORDER)); a.add_argument('--from-survivors')
    o = a.parse_args()
    files = o.f or (['src/' + f for f in sorted(os.listdir(R + '/src'))] + ['include/levenshteinMatrice.hpp', 'include/fifoMap.hpp', 'include/wrappedBuffer.hpp', 'include/unicode.hpp', 'include/config.h', 'include/jsonPrimitive.hh', 'include/optional.hpp'])
    ms = [m for f in files for m in mutants(f, open(R + '/' + f).read())]
    random.Random(o.s).shuffle(ms)
    if o.from_survivors:
        want = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(o.from_survivors)) if d['r'] == 'SURVIVED'}
        ms = [m for m in ms if (m[0], m[1], m[3]) in want]
    if o.n:
        ms = ms[:o.n]
    done = set()
    if os.path.exists(o.out):
        done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(o.out))}
    ms = [m for m in ms if (m[0], m[1], m[3]) not in done]
    print(len(ms), 'mutants', flush=True)
    os.makedirs('/tmp/mw/base', exist_ok=True)
    sh('bash -c "' + V + '/sim/build.sh /tmp/mw/base"')
    with multiprocessing.Pool(o.j) as p, open(o.out, 'a') as f:
        for d in p.imap_unordered(one, [(k, m, o.r, o.p.split(',')) for k, m in enumerate(ms)]):
            f.write(json.dumps(d) + '\n')
            f.flush()


main()
