"""harness/capi_calls.hpp from the reviewed table of the C interface: one line per function"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = json.load(open(V + '/capyver/props/a14_table.json'))
o = ['// generated by tools/mkcapicalls.py from capyver/props/a14_table.json']
for n, d in sorted(t.items()):
    if n in ('capy_error_message',):
        continue
    o.append('CALL(%s, %s)' % (n, ', '.join('(L{%s})' % ', '.join(map(str, d.get(k, []))) for k in ('out', 'null', 'bool', 'len'))))
open(V + '/harness/capi_calls.hpp', 'w').write('\n'.join(o) + '\n')
