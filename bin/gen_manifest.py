#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PARSE = 'TLA+ parser machine (TLC): transitions replayed into the parser, recorded parses judged by TLC'
TECH = {
    'C01': PARSE, 'C02': PARSE, 'C03': PARSE,
    'C04': 'TLA+ scan and parser models (TLC): runs replayed in ten builds, recorded presentations of the same bytes judged by TLC',
    'C05': 'TLA+ model of contents, entry points and stream histories (TLC) replayed; recorded entry points judged by TLC',
    'C06': 'TLA+ text specification (TLC): exhaustive small values replayed, recorded dumps judged by TLC',
    'C07': 'TLA+ text specification (TLC): exhaustive small values replayed, recorded pretty prints judged by TLC',
    'C08': 'TLA+ text specification (TLC): all bytes and byte pairs replayed, recorded texts judged by TLC',
    'C09': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C10': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C11': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C12': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C13': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C14': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C15': 'TLA+ value model (TLC): all pairs of small values replayed, recorded comparisons judged by TLC',
    'C16': 'TLA+ type model (TLC): types x values replayed, recorded conversions judged by TLC',
    'C17': 'TLA+ type model (TLC): types x values replayed, recorded conversions judged by TLC',
    'C18': 'TLA+ integer text model (TLC): boundary tokens replayed, recorded conversions judged by TLC',
    'C19': 'TLA+ type model (TLC): recorded sources before and after conversion judged by TLC',
    'C20': 'TLA+ enum model (TLC): all candidates replayed in both enum modes, recorded conversions judged by TLC',
    'C21': 'TLA+ reflection model (TLC): generated structs, recorded conversions judged by TLC',
    'C22': 'TLA+ reflection model (TLC): mutated objects per struct, recorded verdicts judged by TLC',
    'C23': 'TLA+ concurrent store model (TLC) and trace validation of threaded runs under ThreadSanitizer',
    'C24': 'TLA+ float text model (TLC): recorded tokens and bits judged by TLC',
    'C25': 'TLA+ model of histories with environment changes (TLC) replayed; all other models sampled under rotating locales, judged by TLC',
    'C26': 'TLA+ store model (TLC): transitions replayed, recorded histories validated by TLC',
    'C27': 'TLA+ model of calls that fail (TLC): calls replayed with every allocation failing in turn, endings judged by TLC',
}
NOTE = ('The specification is checked exhaustively within the stated bounds; the real code is bound to it by replayed transitions and by '
        'recorded executions judged by TLC, so inputs outside what was generated are not covered. Trusts TLC, the harness projection '
        '(public API only), the compilers and sanitizers.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 bin/setup.py', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 bin/check.py ' + i,
                                thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i,
                                technique=TECH[i], level='model_checking', level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason='the check for this property is not built yet'))
m['notes'] = 'No hooks in /repo: the public API exposes the whole abstract state. See DESIGN.md and KNOWN_FINDINGS.txt.'
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
