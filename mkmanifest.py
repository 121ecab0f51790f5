#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
DIFF = 'sampled executions only; an alarm needs gcc -O0, gcc -O2, clang and a clang ASan/UBSan run of the same program to agree against slimcc. Trusts gcc/clang 18, as, ld, libc.'
T = {
 'C01': ('runtime monitoring: generated programs log expression values, online value model as oracle', 'exploration', 'Exact model of C integer semantics decides; ' + DIFF),
 'C02': ('runtime monitoring: compile-time images vs run-time values vs value model', 'exploration', 'Same expression observed in every constant context and at run time; ' + DIFF),
 'C03': ('runtime monitoring: bit-pattern logs, differential oracle', 'exploration', DIFF),
 'C04': ('runtime monitoring: checkpoint trace of generated control flow vs reference trace', 'exploration', DIFF),
 'C05': ('runtime monitoring: byte-image log of every member access vs reference layout', 'exploration', DIFF),
 'C06': ('runtime monitoring: argument images and callee-saved/stack monitors across mixed-compiler objects', 'exploration', DIFF),
 'C07': ('runtime monitoring: object dumps of initialised objects, static vs automatic vs reference', 'exploration', DIFF),
 'C08': ('runtime monitoring: address-interval and canary monitor over live objects, stack-bound monitor', 'exploration', 'Interval-disjointness, alignment and canary oracles need no reference compiler; samples executions only.'),
 'C09': ('runtime monitoring: cleanup event log vs interpreter (trace specification)', 'exploration', 'Interpreter written from the documented semantics; cleanup-attribute programs also checked against gcc. Samples executions only.'),
 'C10': ('runtime monitoring: type-code log of compiled programs vs typing model/reference', 'exploration', DIFF),
 'C11': ('runtime monitoring: literal value/encoding log vs independent decoder', 'exploration', DIFF),
 'C12': ('runtime monitoring: recorded concurrent histories checked for atomicity (conservation, uniqueness, mutual exclusion)', 'exploration', 'Real threads on 8 cores; schedules are those the OS produced.'),
 'C13': ('runtime monitoring: per-thread value/address log in all link modes with mixed-compiler objects', 'exploration', DIFF),
 'C14': ('runtime monitoring: operand, canary and callee-saved-register log around generated asm statements', 'exploration', 'Expected values come from a model of the templates used; ' + DIFF),
 'C15': ('runtime monitoring: symbol-table observation and constructor-order log vs reference object', 'exploration', DIFF),
 'C16': ('runtime monitoring: metamorphic runs of the same program under many option sets', 'exploration', DIFF),
 'C17': ('runtime monitoring: resolution log vs scope model', 'exploration', 'A Python scope model decides; ' + DIFF),
 'C18': ('runtime monitoring: canaries, side-effect counters and object images around updates', 'exploration', DIFF),
 'P01': ('runtime monitoring: -E token stream vs gcc and clang token streams', 'exploration', 'An alarm needs gcc and clang to agree against slimcc. Samples only.'),
 'P02': ('runtime monitoring: marker-token trace of preprocessed output vs model and gcc', 'exploration', 'A Python model of the file tree and conditions decides; gcc must agree before an alarm.'),
 'P03': ('runtime monitoring: embedded-array dump vs the exact file bytes', 'exploration', 'Oracle is the file itself; samples files, sizes and parameters.'),
 'P04': ('runtime monitoring: __LINE__/__FILE__/.loc/diagnostic positions vs positions known to the generator', 'exploration', 'Oracle is the generator (knows where it put each token); gcc cross-checks.'),
 'P05': ('runtime monitoring: assembly of direct and -E route compared, token-stream identity', 'exploration', 'Self-oracle (two routes through the same compiler), plus token-stream comparison with gcc -E.'),
 'D01': ('runtime monitoring with fault injection into sub-steps; file-system diff and exit-status monitor', 'fault_enumeration', 'Stand-in as/ld and failing descriptors inject faults; all destructive effects in scratch directories.'),
 'D02': ('runtime monitoring: dependency file parsed and compared with known include graph and with make', 'exploration', 'Oracle is the generated include graph and make itself.'),
 'D03': ('runtime monitoring: argument vectors recorded by stand-in tools, ELF kind and behaviour of outputs', 'exploration', 'Oracle is a model of the documented options; samples command lines.'),
 'R01': ('ASan+UBSan build of the compiler under mutation/token fuzzing; exit-status and assembler-acceptance monitors', 'exploration', 'Sanitizers observe executed paths only; uninitialised reads are not seen (see R02).'),
 'R02': ('runtime monitoring: byte-identity of assembly over builds (gcc, clang, self), heap perturbation, ASLR, reclamation modes', 'exploration', 'Self-oracle; samples programs and environments.'),
 'R03': ('runtime monitoring: verdict/diagnostic monitor over seeded violations with a valid twin', 'exploration', 'Each case is a valid program plus one planted violation; gcc must reject it too.'),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t, l, n = T[i]
        checks.append(dict(property=i, quick_cmd=f'python3 checks/{i.lower()}.py', thorough_cmd=f'VERIF_TIER=thorough python3 checks/{i.lower()}.py',
                           evidence_file=f'evidence/{i}.json', technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=i, reason='no check built yet; within reach of the technique'))
m = dict(version=1, setup_cmd='sh setup.sh',
         hooks=dict(guard='none', enable='no source hooks: checks build /repo as it is, with sanitizers or other compilers, in scratch copies', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
