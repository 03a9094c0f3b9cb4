#!/usr/bin/env python3
"""Development tool: writes known_findings.jsonl (fixed defects from /repo's fix commits, findings not repaired)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# words of the commit subject -> properties
MAP = [
    ('message of an uncaught throw', 'P22'),
    ('called without a port use the current', 'P19'),
    ('call-with-values evaluates its consumer operand', 'P16 P02'),
    ('values of read and debug options', 'P27 P20'), ('list? answers #t for proper lists of more', 'P09'), ('cons onto a circular list', 'P09'), ('expt with a negative exponent', 'P06'),
    ('re-entry of an operand', 'P03 P04'), ('a module binder that is left', 'P18'), ('procedure re-entered by a continuation frees', 'P19'), ('while a module file loads is no double', 'P18'),
    ('over their whole length', 'P08 P25'), ('display writes strings with NUL', 'P08 P19'), ('case-insensitive string orderings', 'P08'), ('the prompt accepts', 'P26'), ('columns after character literals', 'P23'),
    ('a program file without expressions', 'P23'), ('loading a directory', 'P21 P23'), ('error in a tail expression', 'P23'), ('read through the API is returned', 'P22'), ("different depths of the host's", 'P22 P03'),
    ('gc_set_stack_top', 'P20 P22'), ('apply passes a continuation', 'P16 P03'), ('are procedures like any other', 'P16 P03 P22'), ('call/cc of a symbol or list', 'P16 P21 P03'), ('too large to save', 'P21'),
    ('nested unquotes and deep hash keys', 'P21'), ('does not free its source file name', 'P21 P15'), ('too large to allocate', 'P21'), ('parser leaves no context', 'P21'), ('running out of C stack', 'P21'),
    ('block headers inside its heap', 'P20'), ('no elements left to trace', 'P20'), ('quotient of exact numbers keeps its sign', 'P06'), ('path of a re-export search', 'P18'), ('never looked up in the module that happens', 'P18'),
    ('top-level definitions go to the current module', 'P18'), ('module-bound?', 'P18'), ('hash-fold rejects', 'P11 P21'), ('symbol or list as the value of an operator', 'P02 P16'), ('leaves a module being loaded', 'P18'),
    ('definitions of its own module', 'P18'), ('current binding of every exported name', 'P18'), ('division checks every operand', 'P07 P06'), ('exact intermediate products', 'P06'), ('inside a body stay local', 'P15 P18 P02'),
    ('hash table entries are ordinary pairs', 'P11 P18'), ('reject arguments that are not lists', 'P12 P21'), ('map and for-each reject improper', 'P16 P09'), ('cadr and unquote-splicing', 'P09 P14'), ('apply and list->vector reject', 'P16 P10'),
    ('literal with a dotted tail', 'P01 P09 P14'), ('start with the decimal point', 'P01 P07'), ('read takes exactly one datum', 'P19 P01'), ('line and column stay right', 'P23 P21'), ('an unquote may follow', 'P01'),
    ('reader accepts ratios', 'P01'), ('number->string and string->number agree', 'P07'), ('octal string escapes', 'P01'), ('catch handler of a throw without', 'P05'), ('stack and registers saved', 'P20 P03'),
    ('unwind and rewind dynamic-wind', 'P04 P05'), ('continuation called with several', 'P03'), ('hash codes agree', 'P11'), ('assoc-ref, assoc-set!', 'P12 P13'), ('eq?, eqv? and equal?', 'P13'), ('expansions in place', 'P15'),
    ('macro with one parameter', 'P15'), ('malformed special forms', 'P21'), ('named let does not capture', 'P02'), ('lists that merely start with quote', 'P01 P14'), ('list procedures treat dotted', 'P09'),
    ('handle rationals exactly', 'P06 P07'), ('for-each takes its arity', 'P16'), ('map keeps its state', 'P16 P20'), ('apply and the C call functions', 'P16 P22'), ('no longer rewrites the source', 'P16 P02'),
    ('before binding', 'P02 P16'), ('define of a procedure binds', 'P02'), ('do keeps a fresh binding', 'P02'), ('cond clause without', 'P02'), ('named let keeps all', 'P02'),
]
KNOWN = [
    {'property': 'P20', 'status': 'known',
     'what': 'a loop whose body returns a continuation out of its own call/cc, (call/cc (lambda (k) k)), is not reclaimed: each saved stack holds stale words naming the previous continuation, 1.3 to 4 kB an iteration (src/c/continuation.cc, conservative scan of saved stacks)',
     'case': {'forms': ['(define (f i) (call/cc (lambda (k) k)))'], 'kind': 'mem', 'n': 10000}},
]
out = [json.dumps(k) for k in KNOWN]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.strip().split('\n')
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: ') or subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', h, '38fe113']).returncode == 0:
        continue
    ps = [p for k, p in MAP if k in s]
    assert len(ps) == 1, (ps, s)
    for p in ps[0].split():
        out.append(json.dumps({'property': p, 'status': 'fixed', 'commit': h, 'what': 'fixed: property=%s %s %s' % (p, h, s[5:])}))
open(os.path.join(V, 'known_findings.jsonl'), 'w').write('\n'.join(out) + '\n')
print(len(out))
