from vlib.gen import large
from vlib.hist import Hist
from vlib.histcheck import HistCheck

CMP = ['=', '<', '>', '<=', '>=']


class H(Hist):
    pool0 = {'s': 3, 'c': 1}
    OPS = [
        (3, None, '(string-set! {s} {i} {c})'), (2, 'c', '(string-ref {s} {i})'), (2, 's', '(substring {s} {k} {i})'), (2, 's', '(string-append {s} {s})'),
        (1, 's', '(string-append {s} {s} {s})'), (0.3, 's', '(string-append)'), (0.5, 's', '(string-append {s})'), (1, 's', '(string {c} {c} {c})'), (0.3, 's', '(string)'),
        (1.5, 'l', '(string->list {s})'), (1.5, 's', '(list->string {L})'), (1, 's', '(list->string (string->list {s}))'), (1, 's', '(make-string {k} {c})'),
        (1, None, '(string-length {s})'), (1, 's', '(symbol->string {y})'), (1, 'y', '(string->symbol {s})'), (0.6, 's', '(number->string {i})'),
        (0.6, None, '(string->number {s})'), (0.4, 's', '(number->string {i} 16)'), (0.5, None, '(string->number (number->string {i}))'),
        (1, 'c', '(char-upcase {c})'), (1, 'c', '(char-downcase {c})'), (1, None, '(char->integer {c})'), (0.6, 'c', '(integer->char {asc})'),
        (0.5, None, '(char->integer (integer->char {asc}))'), (0.6, None, '(string? {any})'), (0.5, None, '(char? {any})'), (0.5, None, '(symbol? {any})'),
        (0.8, None, '(equal? {s} {s})'), (0.6, None, '(display {s})'), (0.5, None, '(write {s})'), (0.4, None, '(write {c})'), (0.4, None, '(display {c})'),
        (0.6, None, '(equal? {s} (string-append {s} ""))'), (0.5, None, '(let ((t {s})) (let ((u (string-append t ""))) (string-set! u 0 {c}) (list t u)))'),
        (0.5, None, '(let ((t {s})) (let ((u (substring t 0 (string-length t)))) (string-set! u 0 {c}) (list t u)))'),
        (0.5, None, '(let ((t (symbol->string {y}))) (string-set! t 0 {c}) t)'), (0.4, None, '(map char-upcase (string->list {s}))'),
        (0.4, None, '(let* ((t (string-append {s} "")) (y (string->symbol t))) (string-set! t 0 {c}) (list t (symbol->string y)))'),
        (0.5, None, '(list (string<? {s} {s}) (string=? {s} {s}) (string>? {s} {s}))'),
        (0.5, None, '(let ((s1 {s}) (s2 {s})) (list (string<? s1 s2) (string=? s1 s2) (string>? s1 s2) (string<=? s1 s2) (string>=? s1 s2) (string-ci<? s1 s2) (string-ci=? s1 s2) (string-ci>? s1 s2)))'),
        (0.5, None, '(let ((s1 {c}) (s2 {c})) (list (char<? s1 s2) (char=? s1 s2) (char>? s1 s2) (char<=? s1 s2) (char>=? s1 s2) (char-ci<? s1 s2) (char-ci=? s1 s2) (char-ci>? s1 s2) (char-ci<=? s1 s2) (char-ci>=? s1 s2)))'),
        # many operands and long texts
        (0.3, 's', '(string-append {s} {s} {s} {s} {s} {s} {s} {s} {s} {s} {s} {s})'), (0.3, 's', '(list->string (append (string->list {s}) (string->list {long}) (list {c})))'),
        (0.3, 's', '(apply string (string->list {long}))'), (0.3, None, '(let ((t (string-append {long} ""))) (string-set! t {j} {c}) (string-set! t {j} {c}) (list (string-ref t {j}) (substring t {j} (string-length t)) t))'),
        (0.4, None, '(let ((a {long}) (b {long})) (list (string<? a b) (string=? a b) (string>? a b) (string<=? a b) (string>=? a b) (string-ci<? a b) (string-ci=? a b) (string-ci>? a b) (equal? a b) (eq? (string->symbol a) (string->symbol b))))'),
        (0.2, None, '(length (string->list {long}))'), (0.2, 's', '(symbol->string (string->symbol {long}))'),
        (0.2, None, '(list (string-length {long}) (string->number {long}))'),
    ] + [(0.35, None, '(string%s? {s} {s})' % c) for c in CMP] + [(0.35, None, '(string-ci%s? {s} {s})' % c) for c in CMP] + [
        (0.35, None, '(char%s? {c} {c})' % c) for c in CMP] + [(0.35, None, '(char-ci%s? {c} {c})' % c) for c in CMP] + [
        (0.3, None, '(char-%s? {c})' % c) for c in ('alphabetic', 'numeric', 'whitespace', 'upper-case', 'lower-case')]

    def __init__(self, rng):
        Hist.__init__(self, rng)
        self.pool = {'s': [], 'c': []}

    def lit_long(self):
        n = large(self.r, 600)
        k = self.r.randrange(n)
        t = [chr(97 + i * i % 26) for i in range(n)]
        if self.chance(0.6):
            t[self.pick([k, n - 1, n - 1, 0])] = self.pick(['A', 'Z', 'b', 'y', '\\000', '\\377', ' ', '_', '[', '1'])
        if self.chance(0.2):
            t.pop()
        return '"%s"' % ''.join(t)

    def lit_j(self):
        return str(int(700 ** self.r.random()))

    def lit_L(self):
        return '(list ' + ' '.join(self.arg('c', 0) for _ in range(self.r.randint(0, 4))) + ')'

    def lit_asc(self):
        if self.chance(0.12):
            return self.pick(['-1', '256', '300', '-200', '65601', '4294967361', '-4294967231', '1.5', "'a", '#\\a', '1/2'])
        return str(self.r.randint(1, 126) if self.chance(0.6) else self.r.randint(0, 255))

    def lit_any(self):
        return self.pick([self.lit('s'), self.lit('c'), self.lit('y'), '5', "'()", "'(1)", '#f', '(vector)', 'car'])

    def lit_c(self):
        if self.chance(0.3):
            return '(integer->char %d)' % (self.r.randint(1, 126) if self.chance(0.5) else self.pick([0, 10, 13, 34, 65, 90, 92, 97, 122, 127, 128, 160, 192, 200, 223, 224, 228, 255]))
        return Hist.lit_c(self)

    def lit_s(self):
        if self.chance(0.2):
            return '"' + ''.join(chr(self.r.randint(32, 126)) for _ in range(self.r.randint(0, 12))).replace('\\', '\\\\').replace('"', '\\"') + '"'
        if self.chance(0.15):
            return '"%s"' % ''.join(self.pick(['a', 'b', 'A', 'B', '\\000', '\\377', '\\200', 'z', '']) for _ in range(self.r.randint(0, 3)))
        if self.chance(0.08):
            return '(make-string %d %s)' % (self.r.randint(50, 3000), self.lit_c())
        if self.chance(0.03):
            return self.lit_long()
        return Hist.lit_s(self)


class P08(HistCheck):
    ID = 'P08'
    HIST = H
    RULE = ('random histories of string and character operations on a pool of shared strings (constructors, string-set!, substring, conversions, every comparison), '
            'with out-of-range and wrong-type arguments, all objects dumped repeatedly; non-trivial: at least six operations succeed')


CHECK = P08()
