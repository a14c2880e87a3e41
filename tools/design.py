#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
N = {
'R01': 'Builds an application with drawn routes and sends a request with symbolic path segments. Oracle: an independent matcher over the list of patterns (static before parameter-with-verb before parameter before wildcard at each position, with backtracking to another branch only where strip documents it).',
'R02': 'Same tables; compares RouteInfo (keys, values, path) and the arguments of function and controller handlers with the segments of the path themselves; numbers by their defining digits and range.',
'R03': 'Registers handlers and controllers and compares which one ran with the documented cascade written as a separate function.',
'R04': 'Filters record themselves; the record is compared with the list computed from the tree (parents first, exemptions removed, app filters first).',
'R05': 'Every filter has a drawn behaviour; the record of entries and exits is compared with a small interpreter of the chain.',
'R06': 'An arbitrary program of response operations; the recording http.ResponseWriter below must have seen one status (the last set before the commit), the hooks once and in order, the bytes in order, and Status/Size must agree with it.',
'R07': 'Panics of any kind at any place; the answer must be 500 unless something was sent before, and outside development mode no byte of the panic text may be in it (the text is symbolic, so that containment is a query).',
'R08': 'All result signatures, compared with the documented status/body rules; failing readers and writers included; closers must be closed.',
'R09': 'Statuses and texts symbolic; the JSON sent is parsed back and compared field by field; predefined errors are compared before and after derivations.',
'R10': 'Registration must panic exactly when an oracle over the set of patterns and kinds says it is conflicting or invalid, and what does not panic must be reachable.',
'I01': 'Histories over chains of injectors against a map-per-scope model keyed by type and name; names are symbolic bytes, so that collisions of composed keys are queries.',
'I02': 'Counts the calls of every provider function over all acyclic graphs and histories; order by recorded calls.',
'I03': 'All directed graphs on several levels against a depth-first search of the graph as each scope sees it.',
'I04': 'Histories on a parent and two children; afterwards the parent and the other child must answer as a model in which they were never touched.',
'I05': 'All targets and provided subsets against an oracle over the struct description; untouched fields keep sentinel values.',
'P01': 'Requests whose queries, bodies and paths are built from symbolic values (encoded by the harness) or are any text; oracle: an independent decoder, multiset and order per key. Uploads: content and disappearance of temporary files. Two goroutines for the lazily set memory limit, with race detection.',
'P02': 'Texts symbolic; the value is compared with one computed digit by digit with overflow detection.',
'P03': 'Keys symbolic; no panic, sizes bounded by the request, and well-formed keys bind every element exactly.',
'P04': 'Headers built from host and port parts; the parts are what must come out.',
'P05': 'Bodies built from values; the values are what must come out. Integers and short texts are symbolic and compared with a reader of their own; reads split and fail at a chosen point.',
'C01': 'Text fully symbolic at small sizes, and line-structured at larger ones, against an independent parser that maps bytes to entries.',
'C02': 'All definedness combinations with symbolic values against the lookup order; symbolic names must only find what is defined under exactly that name.',
'C03': 'Texts symbolic; bound value against a digit-by-digit oracle, default kept when absent.',
'S01': 'Encode then decode with every value, secret and time symbolic.',
'S02': 'Attacker texts symbolic, spliced with honest signatures; acceptance implies the same value and time.',
'S03': 'Creation and current time symbolic (64-bit), lifetime symbolic; accepted iff not older than the lifetime.',
'S04': 'Users and secrets symbolic on both sides; verification implies equality of both; alterations at any byte.',
'S05': 'Operation sequences with symbolic values on all back ends against a map and a stored copy; one failing command anywhere.',
'S06': 'Histories of requests with honest and hostile cookies against a model of which ids are alive and whose they are.',
'S08': 'A browser that keeps cookies by name, domain and path, as RFC 6265 says, goes through every history of session and remember operations; each Set-Cookie header is parsed back and compared with the configuration (life, name and secure mark symbolic in H_lives).',
'S07': 'Entries with symbolic lifetimes, collected a symbolic time later, on the in-memory MongoDB: gone iff expired; rounds driven by a model of time.AfterFunc (in native runs the same, by rewriting the calls).',
'K01': 'Operation sequences with symbolic keys and values against a map; the commands the stub saw must stay in the prefix, connections come back.',
'K02': 'Timeout and elapsed time symbolic; found iff not expired by the model of the server\'s clock.',
'K03': 'Previous value and amounts symbolic; result equals the sum (or the documented clamp).',
'U01': 'Texts and numbers symbolic against digit-by-digit oracles with ranges of every width.',
'U02': 'All schedules within the preemption bound; counters for running tasks; Wait result against the set of failed tasks; deadlock and race detection.',
'U03': 'Digits symbolic; decoding gives the number back, random bytes symbolic: alphabet and length.',
'U04': 'Chains of values of different types with symbolic names against a list searched backwards.',
'G01': 'Handler programs with symbolic bytes behind the filter; what the client decodes (model of gzip) must be what was written, headers consistent.',
'T01': 'Paths symbolic over an in-memory tree with secrets next to the root; independent path resolution decides what must be served.',
'T02': 'Every open is counted against closes for all outcomes.',
'L01': 'Levels and texts symbolic; the number of writes, the parts of each record and the one final newline.',
'N01': 'One application with most of the framework in it; the oracle is what the same request gets from an application of its own (run in the same path); one after another, and two goroutines with happens-before race detection.',
'L02': 'Requests with logging filters; records against what the recorder saw sent; ids pairwise different for arbitrary clocks and two goroutines.',
'H02': 'Options, hooks, filters and handlers chosen freely, standard error output kept in the in-memory file system; oracle: the order of the filters written down once, and what each ends the request with.',
'H01': 'Values and file contents symbolic; oracle: merge in documented order.',
}
seeds = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[1], m['what_it_breaks'], m['needs']))
out = open('tools/design_head.md').read()
tab = ['| change | caught by | breaks | needs |', '|---|---|---|---|']
for p in sorted(seeds):
    for i, b, n in seeds[p]:
        tab.append('| %s | %s | %s | %s |' % (i, p, b.replace('|', '\\|'), n.replace('|', '\\|')))
out = out.replace('SEEDS', '\n'.join(tab))
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    src = ''.join(open(f).read() for f in sorted(glob.glob('harness/%s/*.go' % i.lower())))
    b = re.findall(r'//sym:bounds ([^\n]*)', src)
    a = re.findall(r'//sym:assume ([^\n]*)', src)
    h = re.findall(r'func (H_\w+)\(', src)
    out += '### %s %s\n\n%s\n\n- Harnesses: %s\n- Bounds: %s\n' % (i, p['title'], N[i], ', '.join(h), '; '.join(b))
    if a:
        out += '- Assumed: %s\n' % '; '.join(a)
    if i in seeds:
        out += '- Planted changes caught: %s\n' % ', '.join(s[0] for s in seeds[i])
    out += '\n'
open('DESIGN.md', 'w').write(out)
