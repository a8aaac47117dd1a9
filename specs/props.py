"""Which units decide which property."""
MODULES = ['arith', 'parse', 'print_']
COST = {'digits.d.*.l': 50, 'digits.d.*.n': 45, 'digits.f.*.l': 22, 'digits.f.*.n': 18, 'digits.*.o.*': 5, 'digits.*.z.*': 0, 'gen.d.*': 15, 'sgen.d.*': 15, 'gen.f.*': 3, 'sgen.f.*': 3, 'norm*': 5, 'roundtrip*': 4, 'grisu*': 2,
        'pretty.d.*': 2, 'krosh*': 6, 'down*': 6}
SCALE = ['bound.*', 'mul.*.a', 'sub.*.a', 'table.*', 'kcomp.*']            # contracts that grisu2 relies on
DIG = SCALE + ['gen.*', 'grisu.*']
TEXT = ['pretty.*', 'text.*']
FIN = ['ftoa.*.[ns].*']
SPEC = ['ftoa.*.[iaz].*']
PARSE = ['convert', 'digits.*.n', 'expo.*', 'pmant.*.[etzaix]', 'krosh.*.[nzaix]']
ATOF = ['atof.*.[e0n].[nzaix]']
ROUND = ['mul.*.a', 'table.*', 'norm.*', 'down.*']
LIBC = 'strtod, strtof, wcstod and wcstof return the correctly rounded value, the same end of the number, and report overflow and underflow to zero through errno'
LOC = 'the global and the C locale are the classic ones (tolower, decimal point)'
LEN = 'strings of at most 2048 characters, as the property states'
BASE = 'The contracts are discharged function by function for all inputs, from the LLVM IR that clang emits for the current tree (loops by invariants, no bound).'
PROPS = {
 'C01': dict(units=DIG + TEXT + FIN, note=BASE + ' Composition: boundaries are exact, the scaled decimal is strictly between the scaled boundaries for the exact power of ten, prettify writes exactly the text of D 10^K.'),
 'C02': dict(units=DIG + TEXT + FIN, note=BASE + ' The text is proved to be a function of digits and exponent; every (length, exponent) pair of it is in the documented format.'),
 'C03': dict(units=DIG + TEXT + FIN + SPEC, note=BASE + ' Every store is proved to stay in a buffer of exactly max_buffer_size() characters.'),
 'C04': dict(units=SPEC + FIN + TEXT + DIG, note=BASE),
 'C05': dict(units=DIG + TEXT + FIN + ['short.*'], note=BASE + ' digit_gen: no multiple of the next power of ten lies in the narrowed interval; lemma short.*: hence no decimal with fewer digits; grisu2: the interval is narrowed by at most two units of 2^-61 (2^-29) relative size, which gives the stated distance.'),
 'C06': dict(units=PARSE + ATOF + ROUND, assume=[LIBC, LOC, LEN], note=BASE + ' Assumed: the platform conversions are correctly rounded (they are called for cases flagged as unsure).'),
 'C07': dict(units=PARSE + ATOF, assume=[LIBC, LOC, LEN], note=BASE + ' The grammar is a ghost automaton that runs along with parse_digits and parse_exponent. Arithmetic contracts are assumed here and proved in C06.'),
 'C08': dict(units=['convert', 'digits.*.l', 'digits.*.z.n', 'expo.*', 'pmant.*', 'krosh.*', 'atof.*', 'norm.*', 'down.*', 'table.*', 'mul.*.a'], assume=[LIBC, LOC], note=BASE + ' Strings of any length up to 2^60; signed overflow, shifts, table indices, indeterminate values and assertions are obligations of every unit. Termination: loops advance through the string, which is finite.'),
 'C09': dict(units=PARSE + ATOF + ROUND, assume=[LIBC, LOC, LEN], note=BASE + ' errno before the call is arbitrary.'),
 'C10': dict(units=PARSE + ATOF, assume=[LIBC, LOC, LEN], note=BASE + ' The contracts give value, status and end of a signed text as functions of the sign and of the unsigned rest.'),
 'C11': dict(units=PARSE + ATOF, assume=[LOC, LEN], note=BASE),
 'C12': dict(units=DIG + TEXT + FIN + SPEC + PARSE + ['atof.*.[en].[nzaix]'] + ROUND, assume=[LIBC, LOC], note=BASE + ' Lemma text.*: the printed text is a number of the grammar as a whole; it is strictly inside of the rounding interval (C01), so that correct rounding (C06) returns the value.'),
 'C13': dict(units=['sgen.*', 'sgrisu.*', 'gen.*', 'grisu.*', 'pretty.*', 'ftoa.*'] + PARSE + ATOF, assume=[LIBC, LOC, LEN], note=BASE + ' Printing: relational (both digit generators on the same operands) or exact text; parsing: both are proved against the same specification.'),
 'C14': dict(units=['tostr.*', 'ftoa.*', 'pretty.*', 'text.*', 'gen.*', 'grisu.*', 'atof.*.[st].[nzaix]', 'atof.*.[ec].[nzaix]'], defs=['WIDE_TYPES'], assume=[LIBC, LOC, 'libstdc++\'s std::basic_string, compiled from its headers, is executed as real code (not assumed); operator new does not fail'], note=BASE),
 'C15': dict(units=PARSE + ['atof.*.[cqt].[nzaix]'], assume=[LOC, LEN, 'the fallback does not modify the string'], note=BASE + ' The fallback is an arbitrary function: its result, end pointer and errno are unconstrained.'),
 'C16': dict(units=['ctor.*', 'norm.*', 'isnorm.*', 'roundtrip.*', 'down.*'], note=BASE),
 'C17': dict(units=['mul.*', 'sub.*', 'inc.*', 'dec.*', 'cmp.*'], note=BASE),
 'C20': dict(units=DIG + TEXT + FIN + SPEC + ['tostr.*'] + ['convert', 'digits.*.n', 'expo.*', 'pmant.*.[etzaix]', 'krosh.*.[nzaix]'] + ['atof.*'] + ROUND, defs=['WIDE_TYPES'], state=True, assume=[LIBC, LOC, 'errno is a variable of the calling thread; operator new, the locale reference count and the platform conversions may be called concurrently'], note=BASE + ' Frame condition: every store goes to a local, to the object that the caller passed, or to errno; variables of static storage duration are never written. What a function reads is constant or the caller\'s.'),
 'C18': dict(units=['table.*', 'kcomp.*'], note=BASE + ' All table entries and exponents are covered.'),
}
NA = {
 'C19': 'A statement about the proportion of values with a shortest output over the whole input space: no per-call contract expresses it; deciding it needs counting or statistics, which is a different family of technique.',
}
for p in PROPS.values():
    if any(u in ('gen.*', 'tostr.*', 'sgen.*') for u in p['units']): p['defs'] = ['WIDE_TYPES']
