"""The properties: text of properties.jsonl and MANIFEST.json (python3 -m vlib.props rewrites both)."""
import json, os, sys

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=()):
    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})


OUT = ['the emitted .s file, executed as x86-64 machine code and compared with the C meaning of the same text']
GEN = ['src/resolver/expression.c', 'src/resolver/conversion.c', 'src/immcgen/expression.c', 'src/immcgen/util.c', 'src/x64gen/arithinst.c', 'src/x64gen/bitinst.c', 'src/x64gen/shrotinst.c', 'src/x64gen/logicinst.c', 'src/x64gen/datainst.c']

prop('C01', 'Integer operators compute the C result for every operand value',
     'In an accepted program every arithmetic, bitwise, shift, relational, equality, logical and unary operator applied to operands of any mix of the supported integer types yields the value and the type that C99 defines, for all operand values for which C defines a result. This holds for operands in variables, literals, memory or results of other operators, on either side of the operator.',
     ['programs', 'inputs'], 'all operators x all pairs of supported integer types x operand forms; all operand and literal values',
     'The end-to-end tests run each operator on a few constants, mostly int; the unit tests pin instruction sequences, not what they compute, so a wrong signedness, width or scratch register at one operand value passes.',
     GEN, [('usual arithmetic conversions', 'src/resolver/conversion.c'), ('operator selection by signedness', 'src/immcgen/expression.c'), ('division, shift and comparison sequences', 'src/x64gen/arithinst.c, src/x64gen/shrotinst.c, src/x64gen/logicinst.c')], OUT)
prop('C02', 'Conversions between integer types preserve or wrap values as C defines',
     'Whenever a value of one supported integer type is converted to another one (cast, assignment, initialization, argument, return value, usual arithmetic conversion, chains of casts, literals), the result is the value modulo the width of the target type, sign- or zero-extended as the source type demands.',
     ['programs', 'inputs'], 'all ordered pairs and chains of supported integer types in every conversion context; all values',
     'Tests convert few, small and mostly non-negative values, for which sign extension, zero extension and no extension agree.',
     ['src/resolver/conversion.c', 'src/immcgen/expression.c', 'src/immcgen/util.c', 'src/x64gen/datainst.c', 'src/dtype/dtype.c'], [('cast instructions', 'src/immcgen/expression.c'), ('literal folding', 'src/immcgen/util.c')], OUT)
prop('C03', 'Control flow follows C: branches, loops, switch, short-circuit',
     'Accepted programs execute exactly the statements and sub-expressions that C prescribes, in the prescribed order: if/else, while, for, switch with fall-through and default, break, continue, return, && || and ?: evaluate their operands only when C does. This holds for conditions of every scalar type and every value.',
     ['programs', 'inputs'], 'statement and condition shapes, nested; all condition values, all results of external calls, loops up to the stated number of iterations',
     'Tests take one path through small statements; jump targets, fall-through and the value of a condition at the edge of its type are not reached.',
     ['src/immcgen/statement.c', 'src/immcgen/expression.c', 'src/immcgen/util.c', 'src/x64gen/ctrlinst.c', 'src/resolver/statement.c'], [('label allocation and conditional jumps', 'src/immcgen/statement.c, src/immcgen/util.c')], OUT + ['the sequence of external calls with their arguments'])
prop('C04', 'Calls follow the System V ABI',
     'Functions emitted by the compiler can call and be called by code of any other compiler: arguments of every supported type and number arrive with their values, results are returned, callee-saved registers and the stack pointer are preserved, the stack is 16-byte aligned at every call, and only the arguments\' own bytes of a register or stack slot are relied on. Direct calls, calls through function pointers, recursion and calls nested in arguments behave alike.',
     ['programs', 'inputs'], 'parameter lists up to ten parameters of mixed types, call nesting; all argument values, garbage in unspecified register bits, callees that destroy every caller-saved register',
     'Tests link umlcc code with umlcc code and few external functions, where a consistent deviation from the ABI or a clobbered register that happens to be unused goes unnoticed.',
     ['src/immcgen/external.c', 'src/immcgen/expression.c', 'src/x64gen/ctrlinst.c', 'src/x64gen/datainst.c', 'src/x64gen/util.c'], [('prologue, epilogue, argument passing, saving of live registers', 'src/x64gen/ctrlinst.c')], OUT + ['external calls: argument values, stack alignment'])
prop('C05', 'Pointers, arrays, structures and sizeof follow the x86-64 memory layout',
     'In accepted programs, pointer arithmetic, indexing, dereference, address-of, member access and sizeof agree with the size, alignment and offset rules of the platform C ABI for every type that can be declared, so that data is interchangeable with code of other compilers. Every access reads and writes exactly the bytes of the designated object.',
     ['programs', 'inputs'], 'element types x index types x access forms, nested arrays and structures; all index values within the object, all memory contents',
     'Tests use small constant indices and homogeneous structures; padding, negative or narrow indices, and bytes next to the accessed object are not observed.',
     ['src/dtype/dtype.c', 'src/dtype/struct.c', 'src/dtype/array.c', 'src/resolver/expression.c', 'src/immcgen/expression.c', 'src/symtab/symtab.c', 'src/tagtab/tagtab.c'], [('sizes, alignments, member offsets', 'src/dtype/dtype.c, src/dtype/struct.c'), ('scaling of indices', 'src/resolver/expression.c, src/immcgen/expression.c')], OUT)
prop('C06', 'Initializers set every byte of an object as C prescribes',
     'Global and local objects of scalar, array, structure and nested types hold, before the first statement that can see them, exactly the values of their initializers with remaining elements and members zero, including string initializers, elided braces, partial lists and casts. Initializing one object never changes another one.',
     ['programs', 'inputs'], 'declared types x initializer shapes; all literal values and initializing expressions',
     'Tests initialize few types with full lists and read single elements back; partially initialized, padded or adjacent objects are not compared byte by byte.',
     ['src/resolver/declaration.c', 'src/immcgen/declaration.c', 'src/x64gen/data.c', 'src/x64gen/datainst.c', 'src/literal/sliteral.c', 'src/x64/data.c'], [('initializer resolution', 'src/resolver/declaration.c'), ('data directives and local stores', 'src/immcgen/declaration.c')], OUT + ['the data section'])
prop('C07', 'Character, string and integer literals denote their C values, byte for byte',
     'Every integer literal (decimal, octal, hexadecimal, any suffix), character constant and string literal that is accepted denotes the value, type and bytes that C99 defines for it, with all escape sequences, and these bytes reach the executed program unchanged. A literal that is malformed or out of range is diagnosed.',
     ['programs', 'inputs'], 'literal forms x symbolic text bytes; digit patterns around every type limit in each base and suffix',
     'Tests use a handful of literals; values next to a type limit, bytes outside of ASCII, escapes next to digits and the quoting of the emitted directives each need one specific byte.',
     ['src/lexer/lexer.c', 'src/lexer/reader.c', 'src/lexer/util.c', 'src/literal/iliteral.c', 'src/literal/sliteral.c', 'src/x64gen/data.c', 'src/x64/data.c'], [('reading escapes and numbers', 'src/lexer'), ('quoting of string bytes in the output', 'src/literal/sliteral.c')], OUT + ['the data section'])
prop('C08', 'Values kept in registers survive until their last use',
     'However many intermediate values an expression keeps alive, and whatever operators with fixed registers (division, shifts, calls, multiplication), branches or calls occur while they are alive, every one of them reaches its use unchanged. A program that needs more registers than the machine has is diagnosed, never miscompiled.',
     ['programs', 'inputs'], 'nesting depth x register-hungry operators x position; all values',
     'Which registers are live depends on the whole expression; tests compile shallow expressions whose registers never collide.',
     ['src/regalloc/regalloc.c', 'src/liveseq/liveseq.c', 'src/x64gen/arithinst.c', 'src/x64gen/ctrlinst.c', 'src/x64gen/util.c', 'src/immcgen/expression.c', 'src/immcgen/util.c'], [('live ranges and register assignment', 'src/liveseq/liveseq.c, src/regalloc/regalloc.c'), ('fixed registers and saving around calls', 'src/x64gen')], OUT)
prop('C09', 'Every name denotes the entity C scoping gives it, every object its own storage',
     'In accepted programs an identifier, tag, member, enumerator or typedef name refers to the innermost visible declaration in its name space, before, inside and after nested scopes. Objects that are alive at the same time never share storage, and each activation of a function has its own.',
     ['programs', 'inputs'], 'scope nestings, shadowing, name spaces, forward declarations, mixes of object sizes, up to the stated number of declarations; all values',
     'Tests declare few distinct names; shadowing, tag and typedef scopes, and overlaps of objects of unequal size need specific combinations.',
     ['src/symtab/symtab.c', 'src/tagtab/tagtab.c', 'src/resolver/declaration.c', 'src/resolver/statement.c', 'src/resolver/expression.c', 'src/immcgen/declaration.c', 'src/immcgen/external.c', 'src/immcgen/immcgen.c', 'src/parser/declaration.c'], [('scope chains of symbols and tags', 'src/symtab/symtab.c, src/tagtab/tagtab.c'), ('stack offsets', 'src/symtab/symtab.c')], OUT)
prop('C10', 'Any input text ends in assembly or in a diagnostic, never in a crash or hang',
     'Whatever bytes the input file holds, the compiler terminates, never reads or writes memory that is not its own or uninitialised, and either exits with status 0 leaving an output file that the assembler accepts, or prints a diagnostic, exits with status 1 and leaves no output file.',
     ['inputs'], 'all byte values at every position of texts that use every construct, tokens replaced, deleted, doubled or exchanged, texts cut at every token, short texts of unknown bytes',
     'Tests feed well-formed programs and one malformed sample per message; the error paths and their interplay after a first error depend on the exact bytes.',
     ['src/main.c', 'src/lexer', 'src/parser', 'src/resolver', 'src/immcgen', 'src/x64gen', 'src/error'], [('error propagation', 'src/parser, src/resolver, src/error'), ('exit status and output file', 'src/main.c')], ['exit status, diagnostics, output file of umlcc; every memory access of the compiler'])
prop('C11', 'Text is split into the tokens that C defines',
     'White space of any kind and amount between tokens never changes the meaning of a program and is never required where C does not require it; the longest possible token is taken at each point; keywords are recognised exactly, and every other word is an identifier that is significant in all its characters.',
     ['inputs', 'programs'], 'all white space characters in all gaps, all byte pairs between operands, all identifier characters in keywords and names of many lengths',
     'The lexer tests hold one well-spaced sample per token; a look-ahead that misses one pair of adjacent tokens, one character of a table or one length needs that very text.',
     ['src/lexer/lexer.c', 'src/lexer/reader.c', 'src/lexer/util.c', 'src/ctoken/ctoken.c', 'src/common/type.c', 'src/map/map.c'], [('character classes, keyword and punctuator tables', 'src/lexer/util.c'), ('longest match', 'src/lexer/reader.c')], OUT + ['exit status of umlcc'])
prop('C12', 'Text is parsed as the C grammar groups it',
     'Accepted text means what the C grammar says: precedence and associativity of every operator combination, postfix before prefix operators, casts and sizeof, the dangling else, and declarators that nest pointers, arrays, functions and parentheses.',
     ['programs', 'inputs'], 'all ordered pairs and triples of binary operators, unary/postfix/cast/conditional/assignment combinations, declarator shapes; operand values that tell groupings apart',
     'Parser tests pin the tree of one sample per production; a swapped level or a left/right mix-up between two operators shows only for that pair.',
     ['src/parser/expression.c', 'src/parser/statement.c', 'src/parser/declaration.c', 'src/parser/external.c', 'src/ast/ast.c'], [('recursive descent by precedence level', 'src/parser/expression.c'), ('declarators', 'src/parser/declaration.c, src/resolver/declaration.c')], OUT)
prop('C13', 'Containers behave as finite maps, sets and sequences over any history',
     'After any sequence of insertions, replacements, removals and look-ups, including colliding hashes, removed entries, growth and copies, a map, set or vector answers every query as the mathematical finite map, set or sequence built by the same operations would, and never touches memory outside of its own. Keys, values and the copies handed out are owned as documented: nothing is lost, shared or released twice.',
     ['histories', 'inputs'], 'operation histories up to the stated length, all keys and all hash functions of the stated range, growth and shrink thresholds included',
     'Unit tests run a handful of fixed histories with well-spread hashes; tombstones, wrap-around probing and replacement behind a removed entry need specific collisions.',
     ['src/map/map.c', 'src/map/cell.c', 'src/set/set.c', 'src/vector/vector.c', 'src/pair/pair.c', 'src/common/type.c', 'src/common/util.c'], [('robin-hood/linear probing with distances and tombstones', 'src/map/map.c')], ['map, set, vector and pair functions'])
prop('C14', 'Constants in declarations and case labels take effect with their exact value',
     'Every accepted constant that shapes a declaration or a statement (value of an enumerator, implied value of the next one, number of array elements, case label) acts with the value C gives it, converted to the type that the context demands. A constant that the context cannot represent, and a label that repeats after conversion, is diagnosed.',
     ['programs', 'inputs'], 'contexts x types x literal forms; all values of the literals and of the controlling expressions',
     'Tests use small constants; truncation, wrap-around and conversion of a constant show only beyond the limit of a narrower type.',
     ['src/resolver/declaration.c', 'src/resolver/statement.c', 'src/immcgen/statement.c', 'src/dtype/array.c', 'src/dtype/dtype.c', 'src/dtype/enum.c'], [('enumerators and array sizes', 'src/resolver/declaration.c'), ('case labels', 'src/resolver/statement.c, src/immcgen/statement.c')], OUT)
prop('C15', 'Programs that violate a constraint of the language are rejected',
     'A program is accepted only if its operands have types the operator admits, its assignments, initializers, arguments and returns are compatible, its names are declared once and before use, its constants are in range and its statements are where they may be; otherwise the compiler reports an error, exits with status 1 and writes no output. Valid programs of the supported subset are accepted.',
     ['programs', 'inputs'], 'operators and contexts x all combinations of operand types; declarations x all choices of equal or distinct names; counts and constants as symbolic literals',
     'Tests try one wrong operand per diagnostic; the combinations of types and names are too many to list.',
     ['src/resolver/expression.c', 'src/resolver/statement.c', 'src/resolver/declaration.c', 'src/resolver/conversion.c', 'src/dtype/dtype.c', 'src/parser', 'src/main.c'], [('type checks', 'src/resolver, src/dtype/dtype.c')], ['exit status, diagnostics and output file of umlcc'])
prop('C16', 'Side effects happen once, on the designated object, with the right value',
     'Increment, decrement, assignment and compound assignment on any lvalue of any scalar type change exactly that object, yield the value C defines, and evaluate their operands once; calls in sub-expressions happen as often and in the order that C prescribes.',
     ['programs', 'inputs'], 'operators x lvalue forms x types; all values, all results of external calls',
     'Tests check the stored value in few forms; value versus new value, width of the store and number of evaluations are not observed together.',
     ['src/immcgen/expression.c', 'src/resolver/expression.c', 'src/x64gen/datainst.c', 'src/x64gen/arithinst.c'], [('lvalue addresses, increment, assignment', 'src/immcgen/expression.c')], OUT + ['the sequence of external calls'])

prop('C17', 'Exit status and output file tell the truth under every file fault',
     'umlcc x.c exits with status 0 exactly when the complete assembly of x.c has been written to x.s; in every other case (wrong arguments, another kind of file, missing or unreadable input, errors in the program, a failure to open, write or close a file) it prints a diagnostic, exits with status 1 and leaves no x.s behind. It never changes the input or any other file, and the same input always gives the same output.',
     ['fault_sequences', 'inputs'], 'one failing file operation at every point of a compilation, all short file names, all argument counts',
     'Tests never make a file operation fail; a build that ignores a failed write goes on with a truncated file.',
     ['src/main.c', 'src/freader/freader.c'], [('reading the input', 'src/freader/freader.c'), ('writing the output', 'src/main.c')], ['exit status, diagnostics, files'])

TV = 'translation validation by symbolic execution: the real compiler is executed on LLVM bitcode with symbolic literals, its output assembly is executed by a symbolic x86-64 interpreter and compared with the clang-compiled meaning of the same text; z3 decides equality for all values'
UN = 'bounded symbolic execution of the real functions (LLVM bitcode, z3) against a reference model, memory safety checked on every access'
NOTE_TV = 'For every program of the enumerated families the solver shows equality for all values (operands, literals, memory, external results). Trusted: the executor, the x86-64/gas model, clang as the C semantics; counterexamples are replayed with the native compiler, gas and CPU before they are reported. Programs outside the families are not covered.'
NOTE_UN = 'Holds for every input within the stated bounds; trusted: the executor, its libc model and z3; counterexamples are replayed natively under ASan/UBSan before they are reported.'


def manifest(checks):
    ids = [p['id'] for p in PROPS]
    ch = []
    for i in ids:
        if i in checks:
            c = checks[i]
            tv = c.level == 'translation_validation'
            ch.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': c.technique or (TV if tv else UN), 'level': c.level, 'level_note': NOTE_TV if tv else NOTE_UN})
    return {'version': 1, 'setup_cmd': 'python3 -c "from vlib import core; core.ensure_engine()"', 'checks': ch, 'not_applicable': NA,
            'notes': 'No hooks: the checks compile /repo/src as it is. /repo commits are repairs of genuine defects (known-findings.json).'}


NA = []

if __name__ == '__main__':
    from .checks import CHECKS
    from . import core
    with open(os.path.join(core.VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    json.dump(manifest(CHECKS), open(os.path.join(core.VERIF, 'MANIFEST.json'), 'w'), indent=1)
    ids = set(p['id'] for p in PROPS)
    assert ids == set(CHECKS) | set(n['property'] for n in NA), (ids ^ set(CHECKS))
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
