#!/usr/bin/env python3
"""One-off: snapshot the lookup tables of the reviewed tree into data/tables.json (golden copies).
The checks never read /repo's tables; they compare the program's output with this snapshot."""
import json, re, sys
src = sys.argv[1] if len(sys.argv) > 1 else '/repo'
tab = open(src + '/src/tables.cc', encoding='utf-8').read()
txt = open(src + '/src/text/rdsstring.cc', encoding='utf-8').read()
ev = open(src + '/src/tmc/events_data.cc', encoding='utf-8').read()
grp = open(src + '/src/groups.cc', encoding='utf-8').read()

def strings(s):
    out = []
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', s):
        x = m.group(1)
        x = x.replace('\\"', '"').replace('\\n', '\n').replace('\\r', '\r').replace('\\u00AD', '\u00ad').replace('\\\\', '\\')
        out.append(x)
    return out

def between(s, a, b):
    i = s.index(a) + len(a)
    return s[i:s.index(b, i)]

T = {}
T['pty'] = strings(between(tab, 'pty_names{', '};'))
T['pty_rbds'] = strings(between(tab, 'pty_names_rbds{', '};'))
cc = between(tab, 'country_codes{', '  };')
T['country'] = {str(int(m.group(1), 16)): strings(m.group(2)) for m in re.finditer(r'\{0x(\w\w),\s*\{([^}]*)\}\}', cc)}
T['language'] = strings(between(tab, 'languages{', '};'))
T['apps'] = {str(int(m.group(1), 16)): m.group(2) for m in re.finditer(r'\{0x(\w{4}), "([^"]*)"\}', between(tab, 'oda_apps{', '};'))}
T['rtplus'] = strings(between(tab, 'content_type_names{', '};'))
T['di'] = strings(between(tab, 'di_codes{', '};'))
T['call3'] = {str(int(m.group(1), 16)): m.group(2) for m in re.finditer(r'\{0x(\w{4}), "([^"]*)"\}', between(tab, 'three_letter_codes{', '};'))}
T['calllink'] = {str(int(m.group(1), 16)): m.group(2) for m in re.finditer(r'\{0x(\w{4}), "([^"]*)"\}', between(tab, 'linked_station_codes{', '};'))}
T['charset'] = strings(between(txt, 'codetable_G0({', '});'))
T['dab'] = {m.group(1).replace("'", ''): m.group(2) for m in re.finditer(r"\{\s*([\d']+),\s*\"(\w+)\"\}", between(grp, 'dab_channels({', '});'))}
evs = strings(between(ev, 'tmc_data_events{', '" };') + '"')
titles = evs[0].split(';')
T['events'] = {}
for r in evs[1:]:
    f = r.split(';')
    d = dict(zip(titles, f))
    T['events'][d['Code']] = dict(desc=d['Description'], descq=d['Description with Q'], n=d['N'],
        q=int(d['Q']) if d['Q'] else 0, t=d['T'], d=int(d['D']) if d['D'] else 1, u=d['U'], c=int(d['C']))
sup = strings(between(ev, 'tmc_data_suppl{', '" };') + '"')
T['suppl'] = {r.split(';')[0]: r.split(';')[1] for r in sup}
print({k: len(v) for k, v in T.items()})
assert len(T['charset']) == 256 and len(T['pty']) == 32 and len(T['pty_rbds']) == 32
json.dump(T, open('/verif/data/tables.json', 'w'), ensure_ascii=False, indent=0, sort_keys=True)
