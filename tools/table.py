#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = {'c23-key-case': ' (after near edits)', 'c26-history-uninit': ' (after stack refill)',
            'c14-long-text': ' (after long texts)', 'c17-flag-order': ' (after flags in any order)', 'c23-long-key': ' (after long keys)',
            'c09-dash-name': ' (after names that look like options)', 'c10-arg-semicolon': ' (after odd arguments)',
            'c06-warnings-one-input': ' (after several inputs)', 'c12-stopped-command': ' (after stopped commands)',
            'c21-escdelay': ' (after slow function keys)', 'c02-prefix': ' (after long common prefixes)', 'c11-unlink-stop': ' (after failing unlink)',
            'c09-color-near': ' (after near options)', 'c05-hex-column': ' (after locating wrong digits)',
            'c06-warnings-lost': ' (after inputs followed by a malformed one)', 'c23-double-text': ' (after texts which show as numbers)',
            'c22-double-int': ' (after numbers written otherwise)', 'c22-long-int': ' (after numbers written otherwise)',
            'c15-prev-last': ' (after moves within long lists)', 'c13-few-names': ' (after more instances at a time)',
            'c01-del': ' (after more characters)'}
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s%s |' % (i, m['needs'].replace('|', '/'), m['property'], STRONGER.get(i, '')))
p = R + '/DESIGN.md'
s = open(p).read()
h = '| change | needs | caught by |\n|---|---|---|\n'
a = s.index(h) + len(h)
b = a
while s[b:b + 1] == '|':
    b = s.index('\n', b) + 1
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
print(len(rows))
