#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
INFO = {
 'C01': ('exhaustive enumeration of message values on the real generated code, against the model value', 'every value of the stated bounded space, in 8 schemas (all option combinations) and all parameter settings; assumes values outside the classes behave alike'),
 'C02': ('exhaustive enumeration of message values on the real generated code, outputs decoded by a strict RFC 8259 parser', 'every value of the stated space; trusts the reference JSON parser and glibc strtod'),
 'C03': ('exhaustive enumeration of all Unicode scalar values, escapes and surrogate pairs against a reference codec', 'complete over single characters and escape forms; combinations bounded'),
 'C04': ('explicit-state exploration of a reference pushdown reader (all viable token prefixes, one token off at every point), each trace replayed on the real deserializer', 'complete to the stated token depths and one-token edits; trusts the reference reader'),
 'C05': ('exhaustive enumeration of skipped values x names x positions on the real deserializer, differential against the document without the member', 'complete to the stated value size; depth ladder to 10^6'),
 'C06': ('explicit-state exploration of the reference reader with positions, all operation sequences on shared parameters, replayed on the real deserializer', 'complete to the stated depths; trusts the reference reader; don\'t-care zones are listed in DESIGN.md'),
 'C07': ('exhaustive enumeration of overloads x documents x buffer lengths with guarded buffers', 'complete over the listed documents, objects and every buffer length'),
 'C08': ('exhaustive enumeration of byte strings in every parser context under ASan/UBSan with a watchdog; counted work of all families of inputs at two sizes', 'complete to the stated lengths; size ladders and families beyond'),
 'C09': ('exhaustive enumeration of number texts and bit patterns against exact decimal arithmetic, in two locales', 'complete over the number alphabet to the stated length; all 2^32 floats in the thorough tier'),
 'C10': ('exhaustive enumeration of byte strings and base64 texts against a reference codec', 'complete to the stated lengths'),
 'C11': ('explicit-state exploration of all operation sequences on pairs of fields and messages against an optional-value model, replayed on the real classes', 'complete to the stated depth'),
 'C12': ('explicit-state exploration of a reference schema grammar machine (all viable token prefixes, one token off at every point), replayed on the real parser', 'complete to the stated token depths; trusts the reference parser; don\'t-care zones are listed in DESIGN.md'),
 'C13': ('exhaustive enumeration of byte strings, prefixes and edits of schemas under ASan/UBSan with a watchdog; positions against the reference machine; counted work of all families of schemas at two sizes', 'complete to the stated lengths; families beyond'),
 'C14': ('exhaustive enumeration of all labelled reference graphs of up to 4 messages on the real compiler, against a cycle search; headers compiled', 'complete to 4 messages; longer cycles and chains by ladder'),
 'C15': ('exhaustive enumeration of field-kind subsets, options, packages and names; generated headers judged by two compilers and static assertions', 'complete over the stated spaces; trusts g++ and clang++'),
 'C16': ('exhaustive enumeration of options x name lengths x characters x positions on the real compiler and generated code', 'complete over the stated spaces'),
 'C17': ('exhaustive fault injection at every write offset and every system call of the command', 'every single fault at every point of the listed runs; trusts the interposer'),
 'C18': ('stateless exploration of all thread interleavings at stream-call granularity within a preemption bound, on the real code; plus a ThreadSanitizer pass', 'complete within the preemption bound over the listed operation pairs'),
 'C19': ('exhaustive enumeration of layouts, field permutations and compile histories, byte-identical headers', 'complete over the listed schemas and bounds'),
 'C20': ('explicit-state exploration of the reference array reader and exhaustive enumeration of containers, replayed on the real array functions', 'complete to the stated depths'),
 'C21': ('exhaustive enumeration of ordered pairs of schema versions x values on the real generated code', 'complete over the stated family of versions'),
 'C24': ('exhaustive fault enumeration (every allocation and every stream call of every operation), compared with the run without a fault',
         'every single fault point (failing once, or from then on) of the listed operations; inputs from the stated values; trusts the replaced malloc'),
 'C23': ('explicit-state exploration of all sequences of documents, assignments and clear on one object against a merge model, replayed on the real classes', 'complete to the stated depth; documents from the stated values'),
 'C22': ('exhaustive enumeration of short lines through the real embedding tool and printer, against the identity function', 'complete over the stated alphabet and length'),
}
checks, missing = [], []
for p in (json.loads(l)['id'] for l in open(V + '/properties.jsonl')):
    if os.path.exists('%s/checks/%s.py' % (V, p.lower())):
        m = importlib.import_module(p.lower())
        checks.append({'property': p, 'quick_cmd': 'python3 run.py check %s quick' % p, 'thorough_cmd': 'python3 run.py check %s thorough' % p, 'technique': 'model checking: ' + INFO[p][0], 'level': m.LEVEL, 'level_note': INFO[p][1]})
    else: missing.append({'property': p, 'reason': 'the check is not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': missing}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(missing), 'missing')
