#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the statements)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {'files': ['src/main.cc' if f == 'main.cc' else 'src/c/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'src/c/' + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    a['observe_at'] = observe
    a['hook_needed'] = False
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


EV = ['value printed for each top-level form', 'text written to standard output', 'key of an uncaught error']

p('P01', 'Reader and writer are inverse; layout and comments never matter',
  'For every datum built from integers, ratios, decimal numbers, strings, characters, symbols, booleans, the empty list, vectors and proper or dotted lists, reading its external representation yields that datum, and writing what was read yields the canonical external representation. Whitespace, line breaks and line comments (;) may be placed anywhere between tokens, and left out where a delimiter separates them, without changing what is read; quote abbreviations read as the forms they stand for. This holds alike for program text, for files and for the read procedure on a port.',
  ['inputs'], 'every datum of the listed kinds, every legal spelling and layout of it',
  'The tests parse a few dozen fixed lines; nesting, adjacency of tokens, escapes and comment placement combine without bound.',
  ['parse.cc', 'print.cc', 'read.cc'],
  [('recursive-descent reader', 'parse.cc'), ('datum printer', 'print.cc'), ('port reader', 'read.cc')],
  ['pscm_parse', 'pscm_parse_file', 'read', 'write'])

p('P02', 'Core evaluation agrees with the language definition',
  'Every program built from variables, lexical closures (fixed and rest parameters), define (also internal and curried), set!, if, cond, case, and, or, begin, let, let*, letrec, named let and do gives the values and the order of output that the Scheme definition prescribes, with operands evaluated left to right. Inner bindings shadow outer ones, closures share the variable they captured, and definitions inside a body stay local to it. Each call gets fresh bindings, so recursion never disturbs the bindings of another activation.',
  ['programs'], 'every terminating program over these forms',
  'Tests run fixed programs; scoping, capture and control interact in unboundedly many nestings.',
  ['eval.cc', 'let.cc', 'cond.cc', 'case.cc', 'do.cc', 'define.cc', 'procedure.cc', 'environment.cc'],
  [('evaluator loop', 'eval.cc'), ('let expansion', 'let.cc'), ('do loop', 'do.cc'), ('parameter binding', 'procedure.cc'), ('variable lookup', 'environment.cc')],
  EV)

p('P03', 'Continuations resume exactly the captured computation, any number of times',
  'Invoking a continuation, from inside or outside the dynamic extent of its capture and any number of times, abandons the current computation and continues the captured one with the given value, as if the capture had returned that value. Partial results already computed by the captured computation are those it had when captured, while assigned variables and mutated data keep their current contents. Escapes, generators, coroutines and backtracking written with call/cc therefore compute what the language definition prescribes.',
  ['programs', 'histories'], 'every program that captures, stores and re-invokes continuations from nested calls, argument positions, loops and top-level forms',
  'The tests run fixed call/cc programs; the stack copy must be right for every stack shape at capture and at invocation.',
  ['continuation.cc', 'eval.cc'],
  [('stack copy and restore', 'continuation.cc'), ('call/cc special form', 'eval.cc')], EV,
  [('saved stack image', 'bytes between the capture frame and the base')])

p('P04', 'dynamic-wind runs entry and exit thunks exactly once per crossing, in order',
  'However control enters or leaves the dynamic extent of a dynamic-wind body - normal return, a continuation invoked from inside or outside, or a throw - its before thunk runs on each entry and its after thunk on each exit. Extents left are unwound innermost first, extents entered are rewound outermost first, and extents common to both sides are not touched. The values passed along are not affected by the thunks.',
  ['programs', 'histories'], 'every nesting of dynamic-wind and every sequence of jumps and throws among the nested extents',
  'Tests follow a handful of exits and re-entries; the common-ancestor computation depends on the whole pair of extents.',
  ['dynwind.cc', 'continuation.cc', 'throw.cc'],
  [('wind chain', 'dynwind.cc'), ('unwinding on a jump', 'continuation.cc'), ('unwinding on a throw', 'throw.cc')], EV,
  [('wind list', 'extents currently entered')])

p('P05', 'throw reaches the innermost matching catch; errors leave the system usable',
  'A throw, or an error raised by a builtin, transfers control to the handler of the innermost active catch whose tag is the key or #t, and that handler receives the key and the thrown arguments; catch returns the handler result, or the body value when nothing was thrown. Errors thrown inside handlers go to the next outer matching catch. After any caught or uncaught error, evaluation of later expressions proceeds exactly as if the failed expression had only had the effects it had before the error.',
  ['programs', 'fault_sequences'], 'every nesting of catch and throw with matching and non-matching tags, and every sequence of failing expressions',
  'Tests catch a few errors once; leaks in the catch stack show only after particular histories.',
  ['throw.cc', 'error.cc', 'abort.cc'],
  [('catch stack', 'throw.cc'), ('error to throw conversion', 'error.cc')], EV,
  [('catch stack', 'handlers currently active')])

p('P06', 'Exact integer and rational arithmetic is mathematically correct',
  'For exact integers in the 64-bit range and ratios of them, +, -, *, /, quotient, remainder, modulo, gcd, lcm, abs, expt with a non-negative exponent, max and min return the mathematically exact result whenever it and the intermediate results are in range, and ratios come out in lowest terms with integral ratios as integers. quotient, remainder and modulo satisfy the division identities with the signs the language prescribes. Division by an exact zero is a catchable error.',
  ['inputs'], 'all exact operands and argument counts, including sign combinations and range boundaries',
  'A few operand pairs are tested; sign, reduction and accumulation errors live in the others.',
  ['number.cc'], [('arithmetic procedures', 'number.cc'), ('ratio reduction', 'number.cc')], EV)

p('P07', 'Numeric comparison, predicates, inexact arithmetic and number text agree',
  'Comparison predicates decide the mathematical order of integers, ratios and exactly representable inexact numbers for any number of arguments; zero?, positive?, negative?, odd?, even?, number?, integer?, exact? and inexact? classify accordingly. Inexact +, -, *, / give IEEE double results and inexactness is contagious. number->string and string->number are inverse for integers in radix 2 to 36, and text that is not a number converts to #f.',
  ['inputs'], 'all operand lists of mixed exactness, all integers and radices',
  'Tests sample single values; the boundary and mixed-type combinations are not covered.',
  ['number.cc', 'string.cc', 'predicate.cc'],
  [('comparison procedures', 'number.cc'), ('number/string conversion', 'string.cc'), ('type predicates', 'predicate.cc')], EV)

p('P08', 'String and character procedures compute their defined results',
  'string-length, string-ref, string-set!, make-string, string, substring, string-append, string->list, list->string, symbol and number conversions, the (case-insensitive) comparison predicates on strings and characters, and the character classification and case conversions give the result their definition prescribes for every text of single-byte characters, NUL included. Strings are mutable in place, every constructor returns a fresh string, and out-of-range indices or wrong argument types are catchable errors that change nothing.',
  ['inputs', 'histories'], 'all single-byte strings and indices, and every sequence of string operations with aliases',
  'Tests use fixed strings; length, boundary and aliasing combinations are unbounded.',
  ['string.cc', 'char.cc', 'symbol.cc'],
  [('string procedures', 'string.cc'), ('character procedures', 'char.cc')], EV)

p('P09', 'List procedures compute their defined results and respect sharing',
  'cons, car, cdr, cadr, cddr, list, append, list-head, list-tail, list-ref, last-pair, reverse, length, list?, memq, memv, member, set-car! and set-cdr! give, for every list structure, the result their definition prescribes. A mutation through one reference is seen through every other reference to the same pair and through no other pair: procedures that return fresh lists never alias their arguments beyond what the definition says. Wrong types and out-of-range positions are catchable errors.',
  ['inputs', 'histories'], 'all list structures and every sequence of accessors, constructors and mutators on shared structure',
  'Tests use a few literal lists; aliasing errors need particular histories.',
  ['list.cc'], [('list procedures', 'list.cc')], EV)

p('P10', 'Vectors behave as fixed-length mutable arrays',
  'make-vector, vector, vector literals, vector-length, vector-ref, vector-set!, vector->list and list->vector give the results of a fixed-length array for every length and index. A vector-set! changes exactly one element, visible through every reference to that vector and no other object. Indices outside 0..length-1 and wrong types are catchable errors that change nothing.',
  ['inputs', 'histories'], 'all lengths and every sequence of operations on aliased and nested vectors',
  'Tests use a few small vectors.',
  ['vector.cc'], [('vector procedures', 'vector.cc')], EV)

p('P11', 'A hash table is a finite map under every history of operations',
  'After every sequence of set, get-handle, create-handle, remove and reference operations on a table, looking up a key yields the value most recently stored for it and not removed since, or the default when there is none; distinct keys never interfere and growth never loses or duplicates an entry. hash-fold visits each present entry exactly once. Keys are compared with eq?, eqv? or equal? according to the family of operations used.',
  ['histories'], 'every operation sequence over symbol, integer, string and list keys, any number of tables and any number of entries',
  'Tests store a few keys; collisions, deletion chains and resizing need long histories.',
  ['hash_table.cc'], [('buckets and hashing', 'hash_table.cc')], EV, [('buckets', 'association chains')])

p('P12', 'Association lists: lookup finds the first match, updates change only its entry',
  'assq, assv, assoc and assoc-ref return the first entry (or its value) whose key matches and #f when there is none. acons, assq-set!, assoc-set! and assoc-remove! return an association list in which exactly the named key is added, replaced or removed and every other association and the order are kept.',
  ['histories', 'inputs'], 'every association list over symbols, integers, strings and lists as keys, every sequence of updates',
  'Tests use one or two literal alists.',
  ['alist.cc'], [('alist procedures', 'alist.cc')], EV)

p('P13', 'eq?, eqv? and equal? are equivalences that refine one another',
  'eq?, eqv? and equal? are reflexive and symmetric, and eq? implies eqv? implies equal?. equal? is structural equality on lists, vectors and strings: it distinguishes data exactly when their external representations differ (numbers of the same exactness). eq? holds between two references to one pair, vector, procedure, symbol, boolean, character or small integer and never between separately allocated pairs or vectors; memq, memv, member, assq, assv, assoc and case use the corresponding relation.',
  ['inputs'], 'all pairs and triples of generated objects, shared or separately built',
  'Tests compare a few literals.',
  ['eq.cc', 'list.cc', 'alist.cc', 'case.cc'], [('equality predicates', 'eq.cc')], EV)

p('P14', 'Quasiquotation builds exactly the described structure',
  'A quasiquoted template evaluates to the template with each unquote at its own level replaced by the value of the expression and each unquote-splicing by the elements of the list, in lists, dotted tails and vectors. Nested quasiquotes raise the level and inner unquotes lower it. Everything else in the template is kept unevaluated, and the expressions are evaluated once, in the environment of the template.',
  ['programs'], 'all templates over lists, dotted lists and vectors with nested levels',
  'Tests evaluate a handful of templates.',
  ['quasiquote.cc'], [('template expansion', 'quasiquote.cc')], EV)

p('P15', 'define-macro: a use is replaced by the expansion, evaluated in place',
  'A use of a macro defined with define-macro passes its operands unevaluated to the transformer and evaluates the returned expression in the environment of the use, each time and at any nesting (in bodies, operands, tests, definitions and inside other macros). Quoted data that looks like a macro use is never expanded, and a macro defined later is seen by later evaluations.',
  ['programs'], 'all macro definitions of fixed, rest and recursive shape, and all positions of use',
  'Tests define a few macros and use each in one place.',
  ['macro.cc', 'eval.cc'], [('macro expansion', 'macro.cc')], EV)

p('P16', 'Procedures receive exactly the arguments of the call, however they are called',
  'A procedure, builtin or user-defined, fixed-arity or variadic, gives the same result whether it is called directly, through apply with any split of its arguments, through map, map-in-order or for-each over lists, or through call-with-values; argument values are passed as they are and never evaluated again. map and for-each visit elements left to right, and map returns the results in order. A call with a number of arguments the procedure does not accept is a catchable error and does not run the body.',
  ['programs', 'inputs'], 'all procedures, argument lists (including symbols and lists as values) and ways of calling',
  'Tests call each mechanism with numbers; the re-evaluation and arity paths depend on callee kind and argument shape.',
  ['apply.cc', 'map.cc', 'for_each.cc', 'values.cc', 'procedure.cc', 'function.cc'],
  [('apply', 'apply.cc'), ('map', 'map.cc'), ('for-each', 'for_each.cc'), ('multiple values', 'values.cc'), ('builtin dispatch', 'function.cc')], EV)

p('P17', 'A promise is evaluated at most once, lazily, in its defining environment',
  'delay never evaluates its expression; the first force evaluates it in the environment of the delay and every later force returns the same value without evaluating again, also when the promise forces itself or other promises during evaluation. If evaluation leaves with an error or an escape the promise stays unforced.',
  ['programs', 'histories'], 'all promise networks, streams and force orders',
  'Tests force a few promises.',
  ['delay.cc'], [('promise', 'delay.cc')], EV, [('promise state', 'value once forced')])

p('P18', 'Modules export exactly what they name and keep their own definitions apart',
  'A module that uses another sees exactly the names that module exports, re-exports or defines publicly, with their values; names not exported stay invisible, and equal names defined in different modules do not interfere. Procedures run with the definitions of the module they were defined in, wherever they are called from. Using a module several times or through several paths loads it once, and loading leaves the current module of the user unchanged, also when it is left by an error or a continuation; a continuation resumes in the module it was captured in. A name that is bound nowhere is asked of the binder of the module and of the autoloads it declared, once each, and what they provide is kept.',
  ['configurations', 'histories'], 'all acyclic graphs of small module files with imports, exports, re-exports and private helpers',
  'Tests load a few fixed modules.',
  ['module.cc', 'load.cc', 'environment.cc'], [('module resolution', 'module.cc'), ('lookup order', 'environment.cc')], EV)

p('P19', 'Ports deliver and collect exactly the text given to them',
  'Reading characters or data from a string or file port yields its text in order and then the end-of-file object, with peek-char never consuming; what display, write, write-char and newline send to a string or file port is exactly what is later found there, independent of other ports. A file written and closed reads back identically. Soft ports call the supplied procedures with each character, string, flush and close in order. Procedures called without a port use the current port, which set-current-input-port and set-current-output-port change.',
  ['histories', 'inputs'], 'all texts and all interleavings of operations on several open ports',
  'Tests use a few fixed strings and files.',
  ['port.cc', 'read.cc', 'print.cc'], [('port objects', 'port.cc'), ('port reader', 'read.cc')], EV)

p('P20', 'Garbage collection is invisible to programs',
  'Collecting garbage at any allocation never changes the values a program computes, its output or its errors: every object still reachable from program variables, pending evaluation, continuations, promises, hash tables, modules or handlers survives with its contents. Unreachable objects are reclaimed, so a program whose live data is bounded runs in bounded memory.',
  ['programs', 'schedules'], 'all programs, and all choices of the allocations at which a collection happens',
  'Tests collect only when (gc) is called at a few safe points; a missed root shows only when a collection hits one particular allocation.',
  ['gc.cc'], [('mark and sweep with conservative stack scan', 'gc.cc')], EV, [('heap blocks', 'allocated objects and mark bits')])

p('P21', 'No expression can crash the interpreter: bad input is a catchable error',
  'Every expression applying builtin procedures to arguments of any type and number, every special form with malformed syntax, and every ill-formed program text is either evaluated or reported as an error that catch can intercept; it never aborts, crashes or corrupts the process. After the error the interpreter evaluates further expressions normally.',
  ['inputs', 'fault_sequences'], 'all procedures with all type combinations, all malformed forms and texts',
  'Tests check a few wrong-type calls; the product of procedures and argument shapes is not covered.',
  ['error.cc', 'function.cc', 'number.cc', 'list.cc', 'string.cc', 'alist.cc', 'parse.cc', 'eval.cc', 'let.cc', 'cond.cc', 'case.cc', 'do.cc'],
  [('argument checks', 'number.cc'), ('error signalling', 'error.cc'), ('syntax checks', 'eval.cc')],
  ['exit status of the process', 'key of the error', 'later values'])

p('P22', 'The C API mirrors the language and survives every error',
  'Values converted to and from C, lists built and taken apart, procedures called, variables defined and looked up, and C functions registered through the public C API give the same results as the corresponding Scheme expressions. An error inside an evaluation or call made through the API is delivered to the C caller by the documented catch functions or the last-error accessors with the right key, or reported in full by the message handler, and the API stays usable for any later sequence of calls.',
  ['histories', 'fault_sequences'], 'all sequences of API calls with generated values, including failing ones',
  'The C tests make a few calls each in a fresh state.',
  ['pscm_api.cc', 'apply.cc', 'throw.cc', 'pscm.h', 'pscm_api.h'], [('public API', 'pscm_api.cc'), ('C calls into Scheme', 'apply.cc'), ('C-level catch', 'throw.cc')],
  ['return values of API functions', 'last-error accessors'])

p('P23', 'Running a file equals evaluating its expressions one by one',
  'Running a program file from the command line, loading it with load or primitive-load, and evaluating its expressions one after the other through the C API give the same definitions, output and values in the same order, whatever the layout of the file. The location reported with an unbound variable or a wrong call names the line and column where it stands in the file.',
  ['programs', 'inputs'], 'all program files, layouts and ways of running them',
  'Tests run files in one way only.',
  ['load.cc', 'main.cc', 'parse.cc', 'source_location.cc', 'eval.cc', 'pscm_api.cc'], [('file loading', 'load.cc'), ('locations', 'source_location.cc')],
  ['output of the command-line program', 'value of later expressions', 'error text'])

p('P24', 'eval, defined? and variables agree with direct evaluation',
  'Evaluating a constructed expression with eval gives exactly what the same expression gives as program text at top level, including definitions and errors, and nested evals compose. defined? is true exactly for names that have a top-level or builtin binding. Variable objects hold the value last set, and report unbound until one is set.',
  ['programs', 'histories'], 'all expressions, quoted or built from parts',
  'Tests eval a few expressions.',
  ['eval.cc', 'variable.cc', 'environment.cc'], [('eval procedure', 'eval.cc'), ('variable objects', 'variable.cc')], EV)

p('P25', 'Symbols are identified by their name alone',
  'Two symbols are the same (eq?) exactly when their names are equal, however they were created: read, quoted, string->symbol, or part of a macro expansion; symbol->string and string->symbol are inverse and later mutation of the string never changes the symbol. gensym returns a symbol different from every symbol that program text can name and from every symbol it returned before.',
  ['inputs', 'histories'], 'all names and ways of creating symbols',
  'Tests compare a few symbols.',
  ['symbol.cc', 'eq.cc', 'string.cc'], [('symbol creation', 'symbol.cc')], EV)

p('P26', 'The prompt evaluates every expression entered and survives every entry',
  'Each expression entered at the interactive prompt (pscm started without arguments) is evaluated exactly once, in the order entered, with the same output, definitions and value as in a program, and its value is shown: whether there are several on a line or one over many lines, whatever comments, strings, characters and quotes it contains, and however long the line. A failing expression or malformed input is reported and ends neither the session nor any earlier definition; input ending without a line end is still evaluated.',
  ['inputs', 'histories'], 'all sequences of entries and their division into lines',
  'No test runs the prompt.',
  ['repl.cc', 'parse.cc', 'main.cc'], [('prompt', 'repl.cc')],
  ['standard output and exit code of the interactive program'])

p('P27', 'Read and debug options report exactly the settings made',
  'After every sequence of read-set!, read-enable, read-disable, debug-set!, debug-enable, debug-disable and calls of read-options-interface and debug-options-interface, the reported setting of either family is the documented default changed by exactly these calls: flags enabled or disabled, numbers and values set, everything not mentioned kept (a list given to the interface names all flags that are to be on), the object given as a value reported itself (the same object, for as long as the setting lasts, whatever is allocated meanwhile), the other family untouched. A call with an unknown name, a missing value or a value of the wrong type is an error and changes nothing. The lists given and returned are copies: changing them changes no setting.',
  ['inputs', 'histories'], 'all sequences of settings with all values, from procedures, catches, continuations and deep calls',
  'Tests make about 30 settings in a row with symbols and small numbers and never collect memory in between.',
  ['read.cc', 'debug.cc'], [('read options', 'read.cc'), ('debug options', 'debug.cc')], EV)

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P), 'properties')
