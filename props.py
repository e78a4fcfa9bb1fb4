#!/usr/bin/env python3
"""The list of properties: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NUM = ['src/kernel/number.cpp', 'include/meevax/kernel/number.hpp', 'src/kernel/large_integer.cpp', 'src/kernel/ratio.cpp', 'src/kernel/boot.cpp', 'include/meevax/memory/nan_boxing_pointer.hpp']

LEVEL = ('Every obligation is generated from the LLVM IR of the current sources by symbolic execution with contracts and discharged by z3 or cvc5 for all inputs of the stated argument shapes. '
         'Trusted: clang front end, the executor vf/sym.py, contracts of libstdc++, GMP and libm. Argument lists and loops over the arity are unrolled for the shapes listed in the evidence; no collection happens during a call.')

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, na=None, level='proof', note=None, technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, na=na, level=level, note=note or LEVEL, technique=technique or 'contract-based deductive verification: own VC generator over clang LLVM IR, z3/cvc5', state=state))


prop('A01', 'Exact arithmetic never loses information',
     'For all exact numbers, whether they fit a machine word, are arbitrarily large or are ratios, +, -, *, / and abs return exactly the mathematical result, and numerator and denominator return the terms of the reduced fraction. The result of every such operation has one canonical representation: an integer-valued result is an exact integer, and a ratio is in lowest terms with a positive denominator. Dividing by exact zero signals an error, and no argument is modified.',
     ['inputs'], 'every tuple of exact integers (small and arbitrary precision) and ratios, in every combination of representations',
     'The result switches representation at the machine-word boundary and at integer-valued ratios; tests evaluate a few dozen constant expressions and cannot cover operand pairs that straddle those boundaries.',
     NUM, [('addition, subtraction, multiplication, division over representation pairs', 'src/kernel/number.cpp: operator +, -, *, /'), ('canonicalisation of results', 'src/kernel/number.cpp'), ('variadic procedures', 'src/kernel/boot.cpp: (meevax number)')])
prop('A02', 'Exact comparison and numeric predicates agree with mathematics',
     'On exact numbers =, <, >, <=, >= hold exactly when the mathematical relation holds between every adjacent pair, so the order is total and transitive across representations, and max and min return one of their arguments. Two exact numbers are = if and only if they are eqv? and equal?. The type and sign predicates (integer?, rational?, exact?, zero?, positive?, negative?, even?, odd?, finite?, nan? and the like) answer according to the mathematical value only, never the representation.',
     ['inputs'], 'every tuple of exact integers and ratios in every combination of representations',
     'Comparisons across representations go through different code for each pair of representations; the tests compare a handful of constants, mostly small.',
     NUM + ['src/kernel/comparator.cpp'], [('comparison operators', 'src/kernel/number.cpp: operator ==, <, >, <=, >='), ('eqv? and equal?', 'src/kernel/comparator.cpp'), ('predicates', 'src/kernel/boot.cpp: (meevax number)')])
prop('A03', 'Integer division, gcd, lcm and integer square root are exact',
     'For all exact integers n and d with d not zero, quotient truncates toward zero, remainder is n - d*quotient, and modulo is congruent to n and takes the sign of d; division by zero signals an error. gcd is the non-negative greatest common divisor, lcm the non-negative least common multiple. exact-integer-square-root of n >= 0 returns s and r with s*s + r = n and n < (s+1)*(s+1).',
     ['inputs'], 'every pair of exact integers, small and arbitrary precision, including the most negative machine integer and mixed signs',
     'Sign combinations times representation combinations times boundary values are too many for tests, which use small positive constants.',
     NUM, [('quotient, remainder, modulo', 'src/kernel/number.cpp'), ('gcd, lcm', 'src/kernel/number.cpp'), ('exact-integer-square-root', 'src/kernel/number.cpp')])
prop('A04', 'Bitwise operations act on infinite two\'s complement integers',
     'bitwise-and, bitwise-ior, bitwise-xor and bitwise-not of exact integers equal the operation on their infinite two\'s complement expansions, whatever the sign and size. bit-shift by a count c is floor(n * 2^c) for positive and negative c, also when c is at least the width of a machine word. bit-count and bit-width count the digits that differ from the sign.',
     ['inputs'], 'every exact integer operand, small and arbitrary precision, and every shift count',
     'Shift counts at or beyond the word width, negative operands and representation changes are rarely sampled; tests reuse the small examples of the specification.',
     NUM, [('bitwise procedures', 'src/kernel/number.cpp'), ('procedures', 'src/kernel/boot.cpp: (meevax number)')])

prop('A05', 'Rounding, exactness conversion and exact powers',
     'floor, ceiling, truncate and round of a real return the integer the mathematical definition prescribes for every representation, exact integers for exact arguments, and round takes ties to the even integer. exact of a finite inexact real is the exact number with the same value and signals an error for an infinity or a NaN; exact and inexact leave numbers that already have the exactness unchanged. expt of an exact base and an exact integer exponent is the exact power, and signals an error for zero to a negative power.',
     ['inputs'], 'every exact integer, ratio and double, and every exact base with every machine-word exponent',
     'Each operation has one code path per representation and the boundary cases (ties, negative ratios, magnitudes beyond 2^53, word-size boundaries) are not those the tests sample.',
     NUM + ['src/kernel/number/nearest_integer.cpp', 'src/kernel/number/power.cpp'], [('floor, ceiling, truncate, round', 'src/kernel/number/nearest_integer.cpp'), ('exact, inexact', 'src/kernel/number.cpp'), ('expt', 'src/kernel/number/power.cpp')])

prop('A06', 'Inexact real arithmetic follows IEEE 754 doubles',
     'When an operand of +, -, *, / is an inexact real, the result is the IEEE 754 double operation on the operands converted to double, in left to right order; max and min return an inexact result when any argument is inexact. For operands other than NaN, <, >, <=, >= hold exactly when the relation holds between the values, = holds between numbers of the same value and never between doubles further apart than the machine epsilon, and the numeric predicates (zero?, negative?, integer?, nan?, finite? and the like) classify every double correctly. abs, sqrt and each elementary function (exp, log, sin, atan with one or two arguments, nextafter, copysign and so on) return the value of the C library function of that name at the argument converted to double.',
     ['inputs'], 'every pair of doubles (signed zeros, subnormals, infinities and NaN included) and every mix of a double with an exact number',
     'The result depends on 2^64 bit patterns per operand and on the representation pair; tests compare a few decimal constants within a tolerance.',
     NUM + ['src/kernel/number/exponential.cpp', 'src/kernel/number/trigonometric.cpp', 'src/kernel/number/hyperbolic.cpp', 'src/kernel/number/error_and_gamma.cpp', 'src/kernel/number/floating_point_manipulation.cpp', 'src/kernel/number/power.cpp'], [('mixed arithmetic and comparison', 'src/kernel/number.cpp, include/meevax/kernel/number.hpp'), ('elementary functions', 'src/kernel/number/*.cpp'), ('variadic procedures', 'src/kernel/boot.cpp: (meevax number)')])


prop('B01', 'Every object satisfies exactly the predicates of its type',
     'boolean?, char?, null?, pair?, string?, symbol?, vector?, procedure?, number?, box?, eof-object?, the homogeneous vector predicates, error-object?, file-error?, read-error?, the port predicates and the remaining type predicates answer #t for every object of the type they name and #f for every other object, whatever its contents. The types of R7RS are disjoint: no object satisfies two of them.',
     ['inputs'], 'every predicate applied to every kind of object the kernel can make, with arbitrary contents',
     'Types share representations (closures, boxes, errors and complex numbers all derive from pair; immediates share one word with pointers), so a predicate can be right on the few constants a test uses and wrong on another kind.',
     ['src/kernel/boot.cpp', 'include/meevax/memory/nan_boxing_pointer.hpp', 'include/meevax/kernel/object.hpp', 'include/meevax/kernel/collector.hpp', 'include/meevax/kernel/pair.hpp'],
     [('type tags', 'include/meevax/memory/nan_boxing_pointer.hpp'), ('is, is_also', 'include/meevax/kernel/object.hpp'), ('predicates', 'src/kernel/boot.cpp')])

prop('B02', 'eq?, eqv? and equal? are the specified equivalences',
     'eq? is identity. eqv? additionally identifies numbers of the same exactness and value (doubles by bit pattern, complex numbers by their parts), equal characters, and strings, vectors and bytevectors of equal contents, and nothing else; in particular it never identifies objects of different types or distinct pairs. equal? compares pairs recursively and everything else as eqv?, and terminates on circular structure.',
     ['inputs'], 'every pair of objects of every kind with arbitrary contents, finite or circular',
     'The relations are defined over all pairs of kinds and contents; tests compare literals, never large, circular or mixed-representation operands.',
     ['include/meevax/kernel/comparator.hpp', 'src/kernel/comparator.cpp', 'include/meevax/kernel/collector.hpp', 'src/kernel/pair.cpp', 'src/kernel/vector.cpp', 'src/kernel/string.cpp', 'include/meevax/kernel/homogeneous_vector.hpp'],
     [('eq, eqv', 'include/meevax/kernel/comparator.hpp'), ('equal and union_find', 'src/kernel/comparator.cpp'), ('eqv per type', 'include/meevax/kernel/collector.hpp: binder::eqv')],
     note=LEVEL + ' eq? and eqv? are proved for every pair of kinds; contents of strings and vectors for up to two elements. The recursive equal? is proved for one unfolding over its own contract and that of union_find; union_find is checked for forests of three nodes and chains of up to three boxes (bounded).')

prop('B03', 'Pair and list procedures compute their specified lists',
     'The kernel list procedures (append, reverse, append-reverse, list-copy, list-tail, drop, take, take-right, drop-right, last-pair, list-ref, first to tenth, make-list, iota, memq, memv, assq, assv, alist-copy, concatenate, length and the c[ad]r family) return, for lists of every length with arbitrary elements, exactly the list, sublist or element their definitions in R7RS and SRFI 1 prescribe: results share the tail the definition says they share, consist of new pairs elsewhere, and the arguments are unchanged unless the name ends in an exclamation mark. list?, circular-list? and dotted-list? classify every object, circular lists included, and terminate. set-car! and set-cdr! change exactly the field they name.',
     ['inputs'], 'every list length, every choice of elements (equal or distinct under eq? and eqv?), proper, dotted and circular structure',
     'The procedures are structurally recursive, so the claim is inductive over the length and over what is shared; tests evaluate short literal lists and rarely look at identity or at the arguments afterwards.',
     ['src/kernel/list.cpp', 'include/meevax/kernel/list.hpp', 'include/meevax/kernel/pair.hpp', 'include/meevax/kernel/iterator.hpp', 'src/kernel/boot.cpp'],
     [('recursive list functions', 'src/kernel/list.cpp'), ('procedures', 'src/kernel/boot.cpp: (meevax list), (meevax pair)')],
     note='The recursive functions are proved by induction: each is verified for one unfolding with its own contract at the recursive call, for arbitrary tails; the primitives are verified over those contracts. length, the linear-update procedures (append!, reverse! beyond the first pair, take!, drop-right!, concatenate!), cons* and circular lists are unrolled on lists of at most 4 elements (labelled bounded in the evidence). Trusted: clang front end, the executor, contracts of libstdc++.')

prop('B04', 'Characters follow Unicode and strings encode as UTF-8',
     'char->integer and integer->char are inverse on all Unicode scalar values; the character comparisons, also the case-insensitive ones, order characters by (simply case folded) code point; char-alphabetic?, char-numeric?, char-whitespace?, char-upper-case?, char-lower-case?, char-upcase, char-downcase and digit-value agree with the Unicode character database (general categories and simple case mappings) for every code point. string->utf8 of a string or a range of it is exactly the UTF-8 encoding of its characters, null included, and utf8->string is its inverse.',
     ['inputs'], 'every code point, every pair of characters, every string',
     'There are 1,112,064 scalar values in four encoding lengths and thousands of table rows; tests look at a few letters.',
     ['src/kernel/character.cpp', 'include/meevax/kernel/character.hpp', 'src/kernel/string.cpp', 'src/kernel/boot.cpp', 'configure/UnicodeData.txt'],
     [('Unicode properties', 'src/kernel/character.cpp'), ('UTF-8', 'src/kernel/character.cpp: utf8; src/kernel/string.cpp'), ('procedures', 'src/kernel/boot.cpp: (meevax character), (meevax string), (meevax vector homogeneous)')],
     note=LEVEL + ' The compiled tables are turned into piecewise functions of the code point and compared with the Unicode data as one obligation each, for all 32-bit code points. Strings have up to three characters of every combination of encoded lengths listed in the evidence (labelled bounded). Trusted: contracts of std::ostringstream and std::istringstream.')

prop('B05', 'String procedures compute their specified strings',
     'string-length, string-ref, string-set!, string, make-string, string-append, string-copy, string-copy!, string-fill!, string->list, list->string, string->vector and vector->string act on the sequence of characters as R7RS defines, for every valid index and range; an index outside the string is an error that changes nothing, results that are to be newly allocated are, arguments not named for mutation are unchanged, and string-copy! is right for overlapping ranges. string=?, string<?, string>?, string<=?, string>=? and their -ci forms are the lexicographic orders on characters and on lower-cased characters, for any number of arguments. string->symbol returns the same symbol for equal strings and different symbols for different ones, and symbol->string gives its name back.',
     ['inputs', 'histories'], 'every string, index, range and number of arguments (lengths up to the stated bounds), every sequence of interning operations',
     'Off-by-one ranges, overlap, empty strings and prefixes are where such code fails, and tests use a handful of literals.',
     ['src/kernel/string.cpp', 'include/meevax/kernel/string.hpp', 'src/kernel/symbol.cpp', 'src/kernel/boot.cpp'],
     [('procedures', 'src/kernel/boot.cpp: (meevax string)'), ('order', 'src/kernel/string.cpp'), ('interning', 'src/kernel/symbol.cpp: make_symbol')],
     note=LEVEL + ' The characters are arbitrary; lengths are unrolled up to three or four characters with every index and every range (labelled bounded). The case-insensitive orders use the contract of character::downcase proved in B04. Trusted: contracts of std::unordered_map and the C++ streams.')

prop('B06', 'Vector and bytevector procedures compute their specified sequences',
     'For vectors and for each kind of homogeneous vector (bytevectors included), the constructors, length, ref, set!, append, copy, copy!, fill! and the conversions from and to lists act on the sequence of elements as R7RS and SRFI 4 define, for every valid index and range; an index outside the vector is an error that changes nothing, copies are new objects, arguments not named for mutation are unchanged, and copy! is right for overlapping ranges. An element stored in a homogeneous vector is read back unchanged: integers over the whole range of the element type as canonical exact integers, inexact numbers rounded to the precision of the vector.',
     ['inputs'], 'every vector, index, range and number of arguments (lengths up to the stated bounds) for every element type and every element value',
     'Ten element types times a dozen procedures times ranges; tests touch a few of them with small constants.',
     ['src/kernel/vector.cpp', 'include/meevax/kernel/vector.hpp', 'include/meevax/kernel/homogeneous_vector.hpp', 'src/kernel/boot.cpp'],
     [('procedures', 'src/kernel/boot.cpp: (meevax vector), (meevax vector homogeneous)'), ('element conversion', 'include/meevax/kernel/homogeneous_vector.hpp: input_cast, output_cast')],
     note=LEVEL + ' The elements are arbitrary; lengths are unrolled up to three or four elements with every index and every range (labelled bounded).')

prop('B07', 'Ports deliver exactly the text and bytes they carry',
     'Reading from a string, bytevector or file port yields its characters (decoded from UTF-8) or bytes in order, each once, then the end of file object for ever; peek-char and peek-u8 return what the next read returns and consume nothing, read-line stops after a newline or at the end, read-string and read-bytevector return at most the number asked for and fewer only at the end, and a byte that starts no UTF-8 sequence is an error. Writing characters, strings, bytes and bytevectors to a string, bytevector or file port appends exactly their UTF-8 text or bytes, in order, and get-output-string and get-output-bytevector return everything written so far. A file port is open until it is closed.',
     ['inputs', 'histories'], 'every content and every sequence of operations up to the stated lengths',
     'What a read returns depends on the content (encoded lengths, newline or none before the end) and on the operations before; tests read a few ASCII lines.',
     ['src/kernel/textual_input_port.cpp', 'src/kernel/textual_output_port.cpp', 'src/kernel/input_string_port.cpp', 'src/kernel/output_string_port.cpp', 'include/meevax/kernel/input_homogeneous_vector_port.hpp', 'include/meevax/kernel/output_homogeneous_vector_port.hpp', 'src/kernel/binary_input_file_port.cpp', 'src/kernel/binary_output_file_port.cpp', 'src/kernel/boot.cpp'],
     [('decoding', 'src/kernel/textual_input_port.cpp: peek_character, take_character, get_line'), ('binary ports', 'include/meevax/kernel/*_homogeneous_vector_port.hpp, src/kernel/binary_*_file_port.cpp'), ('procedures', 'src/kernel/boot.cpp: (meevax port), (meevax read), (meevax write)')],
     note=LEVEL + ' get-char, peek-char and put-char are proved for every character followed by anything; lines, strings, bytevectors and sequences of operations are unrolled to the lengths in the evidence (labelled bounded). Trusted: contracts of the C++ streams over a ghost sequence of bytes, std::filesystem.')


prop('C01', 'The virtual machine transfers control and state as specified',
     'For every state of the machine, each instruction makes exactly its specified transition of stack, environment, code and dump: a call binds each argument (a rest parameter the list of the remaining ones), a return restores the caller, a conditional takes one branch, a variable refers to the binding last assigned, and invoking a continuation reinstates what it captured. Calling something that is not a procedure is an error, and an error in a primitive reaches the current exception handler with the state of the machine unharmed. No instruction changes anything else.',
     ['inputs', 'histories'], 'every machine state in which the compiler can place the instruction: any stack, environment, dump and remaining code; numbers of arguments and frames up to the stated bounds',
     'A transition is right only if it is right for every stack, dump and environment below the operands, also when continuations re-enter; tests run a few small programs.',
     ['include/meevax/kernel/dynamic_environment.hpp', 'src/kernel/dynamic_environment.cpp', 'include/meevax/kernel/closure.hpp', 'include/meevax/kernel/continuation.hpp', 'src/kernel/identity.cpp', 'include/meevax/kernel/identity.hpp'],
     [('instructions', 'src/kernel/dynamic_environment.cpp: execute'), ('variables', 'src/kernel/identity.cpp: relative, variadic, absolute')],
     note=LEVEL + ' One obligation per instruction and shape of the operands; the code that follows is a region whose execution ends the transition, so the claim is one step for arbitrary stacks, environments, dumps and code; sequences of steps compose by definition. Variables are looked up in environments of at most three frames of three values (labelled bounded). Trusted: C++ exception handling as modelled, primitives by their contracts.')

prop('C02', 'Compiled code means the expression it was compiled from',
     'The code generated for a core expression (quotation, variable reference, call, lambda, if, set!, define, letrec, sequence, call/cc) run on the machine computes the value of the expression: subexpressions are each evaluated once and in the order the machine prescribes, in the scope lambda and letrec introduce, only the selected branch of an if is evaluated, a sequence evaluates all its expressions and yields the value of the last. A call in tail position replaces the current call instead of nesting in it. The meaning does not depend on the code that follows.',
     ['inputs'], 'every expression of each core form with arbitrary subexpressions and arbitrary code following; lists of operands and bindings up to the stated bounds',
     'Compilers go wrong in combinations (a form in tail position inside another one, followed by more code); tests cover a few of them.',
     ['src/kernel/generator.cpp', 'include/meevax/kernel/generator.hpp', 'include/meevax/kernel/syntactic_environment.hpp', 'src/kernel/syntactic_environment.cpp', 'src/kernel/instruction.cpp', 'src/kernel/list.cpp'],
     [('code generation', 'src/kernel/generator.cpp'), ('primitives that build argument lists', 'src/kernel/boot.cpp: apply')],
     note='Each generator is verified with contracts for the generators of its subexpressions (code that has the specified effect and then continues), so the claim follows for nested expressions by induction; the code it emits is executed on the machine that C01 verifies, not compared with a fixed listing. Lists of operands, bindings and expressions are unrolled to at most three (labelled bounded). Trusted: clang front end, the executor, contracts of libstdc++.')


def main():
    os.chdir(HERE)
    with open('properties.jsonl', 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']:
                a['state'] = p['state']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.exit(0)"',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
         'notes': 'See DESIGN.md. No hooks in /repo: the checks read the compiled sources as they are.'}
    with open('MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
