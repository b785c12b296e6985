"""The checks: which harness, with which bounds, decides which property."""
def job(name, src, bounds, defs=(), **k): return dict(name=name, src=src, bounds=bounds, defs=list(defs), **k)
T = dict(protos=['types'])
def C01(q):
    return [
        job('c01-window', 'c01.cc', 'all strings of up to %d unconstrained bytes, alone or inside other text; singular, repeated and nested fields' % (2 if q else 3), ['WINDOW=%d' % (2 if q else 3), 'PLACES=3'], reach=['field', 'repeated', 'nested'], w=4, **T),
        job('c01-long', 'c01.cc', 'strings of 48 unconstrained bytes that need no escape', ['LONG=48', 'PLACES=2'], reach=['field', 'repeated'], **T),
        job('c01-utf8', 'c01.cc', 'all well-formed UTF-8 texts of %d code points, ensure_ascii on and off' % (1 if q else 2), ['UTF8=%d' % (1 if q else 2), 'PLACES=3'], reach=['field', 'repeated', 'nested'], w=4, **T),
    ]
def jobs(pid, tier): return globals()[pid](tier == 'quick')
COMMON = ['clang 18 -O2 translates the C++ sources to LLVM IR faithfully (each replayed trace re-checks this against a native build)',
    'the model of the C/C++ run-time in engine/model (strings, containers and streams come from the libstdc++ headers; allocation never fails)',
    'Z3 4.8 decides each query correctly; the engine evaluates LLVM IR correctly (sampled paths are re-executed natively)',
    'little-endian 64-bit Linux, "C" locale']
def assumptions(pid): return COMMON
def C02(q):
    return [job('c02-write32', 'c02.cc', 'every value of the five 32-bit types and bool; singular and two-element repeated', [], reach=['literal', 'repeated', 'single', 'bool'], w=4, **T),
        job('c02-write64', 'c02.cc', 'every value of the five 64-bit types; singular and two-element repeated', ['WIDE'], reach=['literal', 'repeated', 'single'], w=4, **T),
        job('c02-read32', 'c02.cc', 'every decimal literal within the range of each 32-bit type', ['READ'], reach=['read'], **T),
        job('c02-read64', 'c02.cc', 'every decimal literal within the range of each 64-bit type', ['READ', 'WIDE'], reach=['read'], **T)]
def C03(q):
    return [job('c03', 'c03.cc', 'every finite double and every finite float; singular and two-element repeated', [], reach=['literal', 'single', 'repeated'], w=8, pool=('x',), **T)]
def C04(q):
    B, R = dict(protos=['bytes'], header=True), dict(protos=['rbytes'], header=True); n, d = (16, 5) if q else (40, 6)
    return [job('c04-encode', 'c04.cc', 'writing: every content of up to %d unconstrained bytes' % n, ['ENCODE=%d' % n, 'NOREAD'], reach=['single'], **B),
        job('c04-trip', 'c04.cc', 'writing and reading: every content of up to 3 unconstrained bytes', ['ENCODE=3'], reach=['single'], w=2, **B),
        job('c04-trip-long', 'c04.cc', 'writing and reading: every content of 7 to 9 bytes whose first eight sextets are below 26', ['ENCODE=9', 'LOW=8'], reach=['single'], w=3, **B),
        job('c04-repeated', 'c04.cc', 'repeated bytes, written: three elements of up to 5 and 2 unconstrained bytes', ['ENCODE=5', 'NOREAD', 'REPEATED'], reach=['repeated'], **R),
        job('c04-repeated-trip', 'c04.cc', 'repeated bytes, written and read: three elements of up to 1 and 2 unconstrained bytes', ['ENCODE=1', 'REPEATED'], reach=['repeated'], w=2, **R),
        job('c04-decode', 'c04.cc', 'every string of up to %d characters that JSON writes unescaped' % d, ['DECODE=%d' % d], reach=['valid', 'malformed'], w=4, **B),
        job('c04-decode-long', 'c04.cc', 'every string of 4 to 9 such characters that starts with four capital letters', ['DECODE=9', 'UPPER=4'], reach=['valid', 'malformed'], w=4, **B)]
def C05(q):
    n = 3 if q else 4
    return [job('c05-fields', 'c05.cc', 'every subset of the seven fields of a message, symbolic contents, serialize_null and ensure_ascii on and off', ['STRUCT'], reach=['struct'], w=2, **T),
        job('c05-shapes', 'c05.cc', 'transient fields, empty messages, nested messages with every subset of fields', ['SHAPES'], reach=['shapes'], **T),
        job('c05-nonfinite', 'c05.cc', 'every NaN and infinity', ['NONFINITE'], reach=['nonfinite'], **T),
        job('c05-raw', 'c05.cc', 'every text of 1 or 2 unconstrained bytes at four places', ['N=2', 'ASCII=0', 'PLACES=4'], reach=['written'], w=2, **T),
        job('c05-ascii', 'c05.cc', 'ensure_ascii: every text of 1 to %d unconstrained bytes in a field' % (n + 1), ['N=%d' % (n + 1), 'ASCII=1', 'PLACES=1'], reach=['written', 'refused'], w=3, **T),
        job('c05-names', 'c15c.cc', 'ensure_ascii: members with non-ASCII names', ['TOP=0', 'WRITE', 'ASCII'], reach=['written'], protos=['names'], header=True),
        job('c05-names-obf', 'c15c.cc', 'ensure_ascii: members with obfuscated non-ASCII names', ['TOP=1', 'WRITE', 'ASCII'], reach=['written'], protos=['nameso'], header=True),
        job('c05-ascii-places', 'c05.cc', 'ensure_ascii: every text of 1 to 2 unconstrained bytes at four places', ['N=2', 'ASCII=1', 'PLACES=4'], reach=['written', 'refused'], w=2, **T)]
B = dict(protos=['types', 'bytes'])
L = dict(link='lib', steps=20000000)
def C06(q):
    return [job('c06-scalars', 'c06.cc', 'every scalar type, 256 values each (two for floating point), set, cleared and set again, with and without serialize_null', ['SCALARS'], reach=['scalar'], w=3, **B),
        job('c06-write', 'c06.cc', 'every subset of seven fields (scalars, lists, messages), zero or symbolic values, with and without serialize_null; written and read back', ['WRITE'], reach=['write'], w=2, **B),
        job('c06-read', 'c06.cc', 'documents with each of four members missing, null, zero or with a symbolic value', ['READ'], reach=['read'], w=2, **B),
        job('c06-nested', 'c06.cc', 'documents with nested messages, lists and bytes missing, null, empty or filled; six lists of up to 3 elements, each of them null or not', ['NESTED'], reach=['nested', 'elements', 'elements'], **B)]
def C07(q):
    n = 2 if q else 3
    return [job('c07-history', 'c07.cc', 'every history of %d operations (assign, self-assign, swap, clear, set, unset, copy, move, round trip) on two messages that start with a field set or unset; each of 7 fields, symbolic values' % n, ['HISTORY', 'STEPS=%d' % n, 'FIELDS=7'], reach=['history'], w=4, **B),
        job('c07-pairs', 'c07.cc', 'every pair of values of every scalar type (full width), set or unset, singular and in a list', ['PAIRS'], reach=['pair'], w=2, **B),
        job('c07-kinds', 'c07.cc', 'pairs of messages of eight shapes (without fields, transient only, optional, nested, bytes, lists), every subset of their fields, symbolic values', ['KINDS'], reach=['kind'], w=2, **B),
        job('c07-texts', 'c07.cc', 'every pair of strings and bytes of up to 2 unconstrained bytes in fields, lists and nested messages', ['TEXTS'], reach=['texts'], w=2, **B),
        job('c07-members', 'c25.cc', 'the generator: every message of up to %d fields (plain or transient, three packages, every combination of options): the emitted empty, clear, equal and swap cover every member' % (2 if q else 3), ['MIX=%d' % (2 if q else 3), 'MEMBERS'], reach=['generated'], w=2, **L),
        job('c07-limit', 'c25.cc', 'the same for messages of 62 to 64 fields', ['LIMIT=64', 'MEMBERS'], reach=['generated'], w=2, link='lib', steps=400000000)]
def C08(q):
    return [job('c08-names', 'c08.cc', 'every unknown member name of up to %d bytes of any value that JSON strings hold unescaped (case variants, prefixes, extensions included); six places, every position' % (3 if q else 5), ['NAMES=%d' % (3 if q else 5), 'PLACES=6'], reach=['skipped'], w=3, **T),
        job('c08-escaped', 'c08.cc', 'unknown names with any character outside the surrogates written as an escape sequence (NUL included), alone or before, after or between known names; five places, every position', ['NAMES=1', 'ESCAPED', 'PLACES=5'], reach=['skipped'], w=3, **T),
        job('c08-values', 'c08.cc', 'every JSON value up to 1 level deep with symbolic text, in unknown and transient members; six places, every position', ['FEW=3', 'DEPTH=1', 'PLACES=6'], reach=['skipped'], w=4, **T),
        job('c08-deep', 'c08.cc', 'every JSON value up to 2 levels deep with symbolic text, in an unknown member; %d places, every position' % (1 if q else 6), ['FEW=1', 'DEPTH=2', 'PLACES=%d' % (1 if q else 6)], reach=['skipped'], w=4, **T)]
def C09(q):
    r = ['malformed', 'decoded']
    return [job('c09-letter', 'c09.cc', 'a backslash followed by any byte; in values, skipped values and member names', ['FORM=0'], reach=r, **T),
        job('c09-hex', 'c09.cc', 'backslash u followed by any four bytes', ['FORM=1'], reach=r, w=2, **T),
        job('c09-lead', 'c09.cc', 'a leading surrogate followed by any four bytes and a fixed tail', ['FORM=2'], reach=r, w=3, **T),
        job('c09-pairs', 'c09.cc', 'any two surrogates in any order and hexadecimal case', ['FORM=3'], reach=r, w=3, **T),
        job('c09-sequences', 'c09.cc', 'every sequence of two or three out of eight escapes and texts', ['FORM=4'], reach=r, **T),
        job('c09-cut', 'c09.cc', 'escapes cut short by the closing quote', ['FORM=5'], reach=['malformed'], **T),
        job('c09-names', 'c09n.cc', 'member names with one to three symbolic escapes', [], reach=['keep', 'see', 'other'], w=2, **T)]
def C10(q):
    return [job('c10-tokens', 'c10.cc', 'eight documents (four of them wrong): every run of up to %d white space characters at every gap, before and after the document, alone or with one more character in every gap' % (2 if q else 4), ['TOKENS=%d' % (2 if q else 4)], reach=['accepted', 'refused'], w=3, **T),
        job('c10-order', 'c10.cc', 'every order of %d members with symbolic values' % (4 if q else 5), ['ORDER=%d' % (4 if q else 5)], reach=['order'], **T),
        job('c10-inside', 'c10.cc', 'every run of up to %d white space characters inside values, list elements and names' % (3 if q else 5), ['INSIDE=%d' % (3 if q else 5)], reach=['value', 'list', 'name'], **T)]
def C11(q):
    r = ['accepted', 'refused']; n = 3 if q else 4
    return [job('c11-prefix', 'c11.cc', 'six documents with symbolic contents, cut at every byte; from a string, a buffer and a vector', ['PREFIX'], reach=['cut'], **B),
        job('c11-bytes', 'c11.cc', 'every sequence of up to %d unconstrained bytes at each of 16 places of a document (top level, names, values, lists, nested and skipped values)' % (n + 2), ['BYTES=%d' % (n + 2)], reach=r, w=4, **B),
        job('c11-tokens', 'c11.cc', 'three documents with every token dropped, doubled, replaced or preceded by each of ten tokens' + ('' if q else ', twice'), ['TOKENS=%d' % (1 if q else 2)], reach=r, w=2, **B),
        job('c11-types', 'c11.cc', 'twenty JSON values in each of twelve kinds of field and in list elements', ['TYPES'], reach=r, **B)]
def C12(q):
    r = ['accepted', 'refused']; n = 3 if q else 4
    return [job('c12-all', 'c12.cc', 'every input of up to %d unconstrained bytes, through four entry points' % (n + 3), ['ALL=%d' % (n + 3)], reach=['refused'], w=3, **B),
        job('c12-context', 'c12.cc', 'every sequence of up to %d unconstrained bytes at each of 16 places inside a document' % (n + 1), ['CONTEXT=%d' % (n + 1)], reach=r, w=6, **B),
        job('c12-other', 'c12.cc', 'every sequence of up to %d unconstrained bytes inside bytes, floating-point, 64-bit, boolean and transient members' % (n + 1), ['OTHER=%d' % (n + 1)], reach=r, w=4, **B),
        job('c12-numbers', 'c12.cc', 'numbers of 1 to 330 digits (three symbolic), with signs, fractions and exponents, into every kind of number', ['NUMBERS'], reach=['accepted'], w=3, **B),
        job('c12-deep', 'c12.cc', 'skipped values nested %d levels deep' % (40000 if q else 100000), ['DEPTH=%d' % (40000 if q else 100000)], reach=r, w=2, steps=10**9, mem=4<<30, **B)]
def C13(q):
    r = ['accepted', 'refused']; n = 2 if q else 3
    return [job('c13-bytes', 'c13.cc', 'every sequence of up to %d unconstrained bytes at each of 11 places of a document, closed or cut; six ways of reading' % n, ['BYTES=%d' % n], reach=r, w=4, **B),
        job('c13-docs', 'c13.cc', 'six documents with three unconstrained bytes inside; six ways of reading', ['DOCS'], reach=r, w=2, **B),
        job('c13-write', 'c13.cc', 'messages with every subset of four groups of fields and %d unconstrained bytes of text; four ways of writing, buffers larger, exact and smaller' % (1 if q else 2), ['WRITE=%d' % (1 if q else 2)], reach=['written', 'not written'], w=4, **B),
        job('c13-arrays', 'c13.cc', 'arrays of 0 to 3 elements of six types with symbolic contents; arbitrary text of up to 2 bytes in and around an array', ['ARRAYS'], reach=['array', 'numbers', 'strings', 'refused'], w=3, **B)]
def C14(q):
    n = 3 if q else 4; r = ['accepted', 'refused']
    return [job('c14-bytes', 'c14.cc', 'every sequence of up to %d unconstrained bytes at each of 19 places of a document; stale error in the parameters' % n, ['BYTES=%d' % n], reach=r, w=4, **B),
        job('c14-layout', 'c14.cc', '22 faulty documents with %d white space character(s) of any kind in every gap' % (1 if q else 2), ['LAYOUT=%d' % (1 if q else 2)], reach=['layout'], w=2, **B),
        job('c14-other', 'c14.cc', 'bytes, floating-point, boolean, transient and nested fields, the array functions; every history of three calls with the same parameters; errors as values', ['OTHER'], reach=['other'], **B)]
def C19(q):
    r = ['accepted', 'rejected']; n = 4 if q else 5
    return [job('c19-prefix', 'c19.cc', 'five valid files with symbolic names, numbers and comments, cut at every byte', ['PREFIX'], reach=r, w=2, **L),
        job('c19-bytes', 'c19.cc', 'every sequence of up to %d unconstrained bytes at each of 28 places of a file, completed or cut, after five beginnings' % n, ['BYTES=%d' % n], reach=r, w=4, **L),
        job('c19-tokens', 'c19.cc', 'three valid files with %d token(s) dropped, doubled, replaced or inserted (28 kinds), alone or after other definitions' % (1 if q else 2), ['TOKENS=%d' % (1 if q else 2)], reach=r, w=2, **L)]
def C16(q):
    return [job('c16-digits', 'c16.cc', 'every decimal number of 1 to 10 digits without leading zeros, in four files', ['DIGITS=10'], reach=['accepted', 'rejected'], w=4, **L),
        job('c16-long', 'c16.cc', 'numbers of 11 to %d digits with three unconstrained digits anywhere; 17 values that fixed-width arithmetic would wrap' % (24 if q else 40), ['LONG=%d' % (24 if q else 40)], reach=['rejected'], w=2, **L),
        job('c16-unique', 'c16.cc', 'three fields with every combination of two-digit numbers, in one message or two', ['UNIQUE'], reach=['accepted', 'rejected'], w=2, **L)]
def C17(q):
    r = ['accepted', 'rejected']; n = 3 if q else 4
    return [job('c17-all', 'c17.cc', 'every file of up to %d unconstrained bytes' % (n + 3), ['ALL=%d' % (n + 3)], reach=r, w=3, **L),
        job('c17-context', 'c17.cc', 'every sequence of up to %d unconstrained bytes at each of 39 places of a file, with six endings' % n, ['CONTEXT=%d' % n], reach=r, w=5, **L),
        job('c17-long', 'c17.cc', 'tokens, runs and lists of %d bytes followed by any byte' % (4000 if q else 40000), ['LONG=%d' % (4000 if q else 40000)], reach=['long'] + r, link='lib', steps=400000000)]
def C18(q):
    r = ['valid', 'invalid']; n = 3 if q else 4
    return [job('c18-gap', 'c18.cc', 'eight files (five of them wrong), each gap: white space, line or block comment of up to %d unconstrained bytes; other gaps narrow, wide or comments' % n, ['GAP=1', 'TEXT=%d' % n], reach=r, w=3, **L),
        job('c18-pieces', 'c18.cc', 'the same with up to %d pieces and comments of up to 1 byte' % (2 if q else 3), ['GAP=%d' % (2 if q else 3), 'TEXT=1'], reach=r, w=3, **L),
        job('c18-everywhere', 'c18.cc', 'the same piece in every gap, comments of up to %d unconstrained bytes' % n, ['TEXT=%d' % n], reach=r, w=2, **L)]
def C20(q):
    r = ['accepted']
    return [job('c20-fields', 'c20.cc', 'fields of every type and label, every name of up to 2 bytes, every number of up to 9 digits', ['FIELDS'], reach=r, w=2, **L),
        job('c20-names', 'c20.cc', 'every identifier of up to 2 to %d bytes as message, field, package, type or option name' % (3 if q else 4), ['NAMES=%d' % (3 if q else 4)], reach=r, w=3, **L),
        job('c20-words', 'c20.cc', 'names one byte away from each of the 25 keywords, or in upper case; the keywords allowed as names', ['WORDS'], reach=r, w=3, **L),
        job('c20-options', 'c20.cc', 'one to %d options of every kind of value with symbolic contents on files, messages and fields' % (2 if q else 3), ['OPTIONS=%d' % (2 if q else 3)], reach=r, w=2, **L),
        job('c20-files', 'c20.cc', 'up to %d messages of 0 to 3 fields with packages and options in between' % (3 if q else 4), ['FILES=%d' % (3 if q else 4)], reach=r, w=2, **L)]
def C24(q):
    n = 4 if q else 6; r = []
    for v, d, f in (('', [], T), ('-lists', ['LISTS'], dict(protos=['lists']))):
        r += [job('c24-scalars' + v, 'c24.cc', 'repeated int32, uint64, double, bool and string of 0 to %d elements with symbolic values' % n, d + ['SCALARS=%d' % n], reach=['scalars'], w=2, **f),
            job('c24-nested' + v, 'c24.cc', 'messages in messages and lists of 0 to %d messages, every subset of fields set' % (3 if q else 4), d + ['NESTED=%d' % (3 if q else 4)], reach=['nested'], w=2, **f),
            job('c24-empty' + v, 'c24.cc', 'empty messages, strings and lists in every combination, with and without nulls', d + ['EMPTY'], reach=['empty'], **f),
            job('c24-read' + v, 'c24.cc', 'documents with lists of 0 to %d symbolic elements' % (n * 4), d + ['READ=%d' % (n * 4)], reach=['read'], **f)]
    return r
def C21(q):
    r = ['generated', 'cycle']
    return [job('c21-graph', 'c21.cc', 'every graph of %s messages, singular or repeated references' % ('three' if q else 'four'), ['GRAPH=%d' % (3 if q else 4), 'SELF=1', 'LABELS=%d' % (2 if q else 1)], reach=r, w=4, **L),
        job('c21-chain', 'c21.cc', '%d messages, each with at most one reference to any letter' % (4 if q else 5), ['CHAIN=%d' % (4 if q else 5)], reach=r + ['undeclared'], w=4, **L),
        job('c21-names', 'c21.cc', 'two messages of any one-letter names, each with a reference to any one-letter name, every label', ['NAMES'], reach=r + ['undeclared'], w=2, **L),
        job('c21-long', 'c21.cc', 'a chain of %d messages in three orders, one more reference from any of them to any two-digit name' % (12 if q else 25), ['LONG=%d' % (12 if q else 25)], reach=r + ['undeclared'], w=4, **L),
        job('c21-packages', 'c21.cc', 'up to five messages in four packages, references by plain and qualified names', ['PACKAGES'], reach=['generated', 'undeclared', 'cycle'], w=2, **L)]
def C25(q):
    r = ['generated']
    return [job('c25-types', 'c25.cc', 'every type and label, vector or list, transient or not, field names of up to %d characters' % (1 if q else 2), ['TYPES=%d' % (1 if q else 2)], reach=r, w=4, **L),
        job('c25-mix', 'c25.cc', 'messages of up to %d fields, each transient or not, in three packages, with every combination of the top-level options' % (3 if q else 4), ['MIX=%d' % (3 if q else 4)], reach=r, w=4, **L),
        job('c25-limit', 'c25.cc', 'messages of 62 to 67 fields, plain or transient; 3 to 64 fields or messages, two of them of the same name', ['LIMIT=64'], reach=r + ['within', 'beyond', 'taken'], w=4, link='lib', steps=400000000),
        job('c25-vectors', 'c25c.cc', 'every type and label, plain and transient, 64 fields, three packages, compiled: documented types, members written and read back', [], reach=['persistent', 'transient'], w=3, protos=['all'], header=True, probe='c25p.cc'),
        job('c25-lists', 'c25c.cc', 'the same with lists', ['LISTS'], reach=['persistent', 'transient'], w=3, protos=['alll'], header=True, probe='c25p.cc'),
        job('c25-support', 'c23.cc', 'every message of up to %d fields of different kinds (five kinds), in any order: the header has the run-time support that its types need' % (4 if q else 5), ['EMIT=%d' % (4 if q else 5)], reach=['emitted'], w=2, link='lib', steps=400000000),
        job('c25-names', 'c25.cc', 'two fields or messages with any names of up to 2 characters, in one scope or two', ['NAMES'], reach=['taken', 'free'], w=2, **L)]
def C15(q):
    A = dict(L, protos=['all'])
    return [job('c15-option', 'c15.cc', 'the name option: every text of up to %d unconstrained bytes, with and without obfuscation' % (2 if q else 3), ['OPTION=%d' % (2 if q else 3)], reach=['accepted', 'rejected', 'labels'], w=4, **A),
        job('c15-trigraph', 'c15.cc', 'the name option: two question marks followed by every text of up to 2 unconstrained bytes', ['OPTION=2', 'TRI'], reach=['accepted', 'rejected', 'labels'], w=2, **A),
        job('c15-utf8', 'c15.cc', 'the name option: every non-ASCII code point', ['OPTION=1', 'UTF8'], reach=['accepted'], w=2, **A),
        job('c15-field', 'c15.cc', 'field names: every identifier of up to %d characters, with and without obfuscation' % (9 if q else 17), ['FIELD=%d' % (9 if q else 17)], reach=['accepted', 'labels'], w=4, **A),
        job('c15-number', 'c15.cc', 'number_names: every number of up to %d digits' % (4 if q else 6), ['NUMBER=%d' % (4 if q else 6)], reach=['accepted', 'labels'], w=4, **A),
        ] + [job('c15-%s-%s' % (w.lower(), n), 'c15c.cc', '20 names and numbers, compiled, %s: %s' % (d, b), ['TOP=%d' % i, w], reach=r, w=2, protos=[n], header=True) for w, b, r in (('WRITE', 'two members set, any digit', ['written']), ('READ', 'each name, and each name with any byte of it replaced or appended', ['known', 'unknown'])) for i, n, d in ((0, 'names', 'default options'), (1, 'nameso', 'obfuscate_strings'), (2, 'namesn', 'number_names'), (3, 'nameson', 'both options'))] + [
        job('c15-unique', 'c15.cc', 'two fields whose JSON names are any two letters, plain or transient, with every option combination', ['UNIQUE'], reach=['accepted', 'rejected'], **A),
        job('c15-unique-long', 'c15.cc', 'the same in long names: lengths around every power of two up to 1025, three places', ['UNIQUE', 'LONG=1025'], reach=['accepted', 'rejected'], w=2, **dict(A, steps=4000000000))]
def C22(q):
    M = dict(link='cli', steps=400000000)
    return [job('c22-write', 'c22.cc', 'the compiler on three valid files, to a new file, over a longer one and to standard output, which holds only n bytes: every n', ['WRITE', 'FILES=3'], reach=['written', 'not written'], w=4, **M),
        job('c22-faults', 'c22.cc', 'reading fails at any byte of a file; closing the output fails', ['CLOSE', 'FILES=3'], reach=['not written'], w=3, **M),
        job('c22-complete', 'c22.cc', 'files with symbolic names, to a file and to standard output', ['COMPLETE'], reach=['complete'], w=2, **M),
        job('c22-open', 'c22.cc', 'missing files and directories, directories instead of files, wrong numbers of arguments', ['OPEN'], reach=['refused'], **M),
        job('c22-lines', 'c22.cc', '18 kinds of faulty statement with symbolic bytes at one of three lines', ['LINES=18'], reach=['invalid'], w=2, **M),
        job('c22-semantic', 'c22.cc', 'cycles, undeclared types, too many fields, wrong option values', ['SEMANTIC'], reach=['invalid'], **M),
        job('c22-bytes', 'c22.cc', 'every sequence of up to %d unconstrained bytes at six places of a file' % (3 if q else 5), ['BYTES=%d' % (3 if q else 5)], reach=['valid', 'invalid'], w=4, **M)]
def C23(q):
    M = dict(link='template', steps=100000000); n = 4 if q else 6
    return [job('c23-text', 'c23.cc', 'files of up to 3 lines, one of them any line of up to %d bytes or any of five forms with symbolic bytes, with and without final line feed' % n, ['TEXT=%d' % n, 'LINES=3'], reach=['text'], w=4, **M),
        job('c23-sections', 'c23.cc', 'up to %d sections of up to 2 lines, one of them any line of up to %d bytes or any of two forms' % (2 if q else 3, 4 if q else 5), ['TEXT=%d' % (4 if q else 5), 'SECTIONS=%d' % (2 if q else 3)], reach=['sections'], w=3, **M),
        job('c23-faults', 'c23.cc', 'output that holds only n bytes: every n; reading that fails at any offset, closing that fails, files and arguments that are missing', ['TEXT=1', 'FAULT'], reach=['text', 'failed', 'refused'], w=2, **M),
        job('c23-emit', 'c23.cc', 'every message of up to %d fields of different kinds (five kinds), in any order: the generated header has the text of the run-time library it needs' % (4 if q else 5), ['EMIT=%d' % (4 if q else 5)], reach=['emitted'], w=2, link='lib', steps=400000000)]
# Sizes around the powers of two, up to the given one: (section, quick, thorough, protos, what, reach)
BIG = dict(C01=[('TEXT', 65537, 65537, 'types', 'strings of three kinds of text', ['text'])],
    C04=[('CONTENT', 65537, 65537, 'bytes', 'contents, with one byte unconstrained (beyond 1025: three values, two sizes), and malformed texts of their length', ['content'])],
    C05=[('FORM', 65537, 65537, 'types', 'strings in a message of three fields', ['written'])],
    C08=[('SKIP', 65537, 65537, 'types', 'names, strings, lists, objects, nested lists and objects, numbers and numbers of unknown members', ['skipped'])],
    C10=[('SPACE', 65537, 65537, 'types', 'white space at any gap of a document', ['space'])],
    C13=[('ENTRY', 8192, 65537, 'types', 'documents and outputs through every entry point', ['accepted', 'refused'])],
    C14=[('WHERE', 65537, 65537, 'types', 'text before the faulty token', ['position'])],
    C24=[('LIST', 65537, 65537, 'types', 'lists of three kinds (beyond 1025: two sizes)', ['list'])])
GBIG = dict(C25=('c25.cc', 1025, 8192, [], 'names of packages, messages and fields, segments of a package, numbers of messages and packages', ['generated'], L),
    C15=('c15.cc', 1025, 1025, ['OPTION=2'], 'names', ['accepted', 'labels'], dict(link='lib', protos=['all'])),
    C16=('c16.cc', 257, 513, [], 'fields of a message, a number used twice anywhere', ['accepted', 'rejected'], L),
    C18=('c18.cc', 65537, 65537, ['TEXT=1'], 'comments of eight kinds, white space and numbers of comments in a gap (beyond 1025: three kinds)', ['valid', 'invalid'], L),
    C20=('c20.cc', 8192, 8192, [], 'names, texts, values, numbers of messages, fields, options and packages', ['accepted'], L),
    C21=('c21.cc', 33, 65, [], 'messages in chains, stars or unrelated, one more reference', ['generated', 'cycle', 'undeclared'], L),
    C22=('c22.cc', 65537, 65537, ['LINES=18'], 'lines or columns before an error', ['invalid'], dict(link='cli')),
    C23=('c23.cc', 8192, 65537, ['TEXT=1'], 'lines and numbers of lines', ['text', 'sections'], dict(link='template')))
_jobs = jobs
def jobs(pid, tier):
    q = tier == 'quick'; r = _jobs(pid, tier)
    for s, a, z, p, what, reach in BIG.get(pid, []):
        n = a if q else z; r.append(job('%s-big' % pid.lower(), 'big.cc', 'sizes around every power of two up to %d: %s' % (n, what), [s, 'MAX=%d' % n], reach=reach, w=2, protos=[p] + (['lists'] if s == 'LIST' else []), header=p != "types", steps=4000000000))
    if pid in GBIG: src, a, z, d, what, reach, k = GBIG[pid]; n = a if q else z; r.append(job('%s-big' % pid.lower(), src, 'sizes around every power of two up to %d: %s' % (n, what), ['BIG=%d' % n] + d, reach=reach, w=4 if pid == 'C21' else 2, **dict(k, steps=4000000000)))
    return r
def C26(q):
    M = dict(link='lib', steps=4000000000)
    return [job('c26-calls', 'c26.cc', '18 kinds of call (writing, reading, errors, streams, arrays, buffers) with symbolic contents, repeated after every sequence of %d other calls' % (1 if q else 2), ['CALLS', 'STEPS=%d' % (1 if q else 2)], reach=['repeated'], w=3, **B),
        job('c26-calls-many', 'c26.cc', 'the same calls repeated after up to %d others' % (257 if q else 4097), ['CALLS', 'MANY=%d' % (257 if q else 4097)], reach=['repeated'], w=3, steps=4000000000, **B),
        job('c26-files', 'c26.cc', 'nine files (five of them refused), with any byte appended, compiled again after every sequence of %d other files' % (1 if q else 2), ['FILES', 'STEPS=%d' % (1 if q else 2)], reach=['generated', 'refused'], w=3, **M),
        job('c26-files-many', 'c26.cc', 'the same after up to %d compilations of another file' % (17 if q else 65), ['FILES', 'MANY=%d' % (17 if q else 65)], reach=['generated', 'refused'], w=3, **M),
        job('c26-paths', 'c26.cc', 'pairs of paths that differ in up to %d unconstrained bytes at three places, or in any byte and the text of an escape sequence' % (1 if q else 2), ['PATHS=%d' % (1 if q else 2)], reach=['together'], w=3, **M)] + [
        job('c26-together' + n, 'c26t.cc', 'headers of five files compiled together, %s' % t, d, reach=['together'], w=2, protos=['types', 'bytes', 'lists', 'rbytes', 'nameson'], header=True, probe='c26t.cc') for n, t, d in (('', 'in one order', []), ('-reversed', 'in the other order', ['REVERSED']))]
def C27(q):
    return [job('c27-numbers', 'c27.cc', 'every history of %d operations (assign, copy, move, swap, clear, set) on two fields of each numeric type that start set or unset; full width values' % (3 if q else 4), ['NUMBERS', 'STEPS=%d' % (3 if q else 4)], reach=['number'], w=3, **T),
        job('c27-bool', 'c27.cc', 'every pair of bool fields', ['BOOL'], reach=['bool'], w=1, **T),
        job('c27-texts', 'c27.cc', 'every history of %d operations (the same, C strings, references, empty(bool)) on two string fields; texts of up to %d unconstrained bytes' % ((2, 1) if q else (3, 2)), ['TEXTS', 'STEPS=%d' % (2 if q else 3), 'LEN=%d' % (2 if q else 3)], reach=['text'], w=3, **T)]
def C28(q):
    return [job('c28-locales', 'c28.cc', 'five kinds of locale (process, thread, C++ streams, combinations), set before or after the first call of 15 kinds with symbolic numbers, digits and characters', ['LOCALES'], reach=['localised'], w=4, locale=True, **B),
        job('c28-streams', 'c28.cc', 'every combination of six groups of format flags; messages written, documents (some of them damaged) read', [], reach=['written', 'read'], w=3, **B)]
def C29(q):
    return [job('c29-own', 'c29.cc', 'every sequence of two of 22 kinds of call with symbolic contents, made by two threads on objects of their own', ['OWN', 'STEPS=2'], reach=['done'], w=3, native='tsan', **dict(B, protos=['types', 'bytes', 'nameson'])),
        job('c29-shared', 'c29.cc', 'every sequence of %d of 13 groups of reading operations on the same messages, empty or with symbolic contents, made by two threads' % (2 if q else 3), ['SHARED', 'STEPS=%d' % (2 if q else 3)], reach=['done'], w=3, native='tsan', **dict(B, protos=['types', 'bytes', 'nameson']))]
