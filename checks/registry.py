"""What decides each property: the specifications and the structural components that carry its obligations."""
from . import hashcomp, intcomp, numcomp, numspec, progress, randcomp, scan, seqspec, setspec, streamcomp, textscan, typelevel

ENGINE = ('Abstract interpretation of the resolved program (clang AST of /repo/sources, all templates instantiated with opaque element types), '
          'library calls inlined, loops summarised: every outcome of the function is compared with a first-match decision list of its documented behaviour')
LIMITS = ['container sizes are at most INT_MAX-1 (INT_MAX for operations that grow)', 'std:: containers and algorithms behave as specified by ISO C++20',
          'element operations (copy, move, ==, <) do not throw, == and < are consistent, and allocation succeeds', 'int is 32 bits, char is signed']

_SPECS = None


def specs():
    global _SPECS
    if _SPECS is None:
        _SPECS = []
        for m in MODULES:
            _SPECS += m.specs()
        for s in _SPECS:
            if not hasattr(s, 'optional'):
                s.optional = False
    return _SPECS


MODULES = [seqspec, setspec, numspec]
EVERY = {'C04', 'C05', 'C19'}
KINDS = {'C11', 'C14', 'C20', 'C21'}


def relevant(pid, s, mode):
    if pid == 'C06':
        return mode != 'default' and any(m and m != 'default' for m in s.modes)
    if mode and mode != 'default':
        return False
    if pid in EVERY:
        return True
    if pid in KINDS:
        return pid in s.props() or pid in s.kinds()
    return pid in s.props()


TECH = 'abstract interpretation of the type-checked program with a sequence/linear domain, compared with a specification'
NOTE = ('Sound for the analysed functions up to the stated assumptions: each path of the abstract program is compared with the documented outcome; '
        'a violation is only reported with a concrete witness valuation, a path outside the domain is printed as UNDECIDED and not counted as discharged. '
        'Assumes: ' + '; '.join(LIMITS) + '.')


class Property:
    def __init__(self, rule, minimum=1, level='other', explain=ENGINE, assume=LIMITS, technique=TECH, note=NOTE):
        self.rule, self.minimum, self.level, self.explain, self.assume, self.technique, self.note = rule, minimum, level, explain, assume, technique, note


NOT_APPLICABLE = {}


INT = ('Abstract interpretation of the resolved clang AST over a digit domain: a big integer is (sign, digit sequence of a number term), digit loops are summarised by inductive '
       'relations (carry/borrow/quotient chains, digit windows, fills, extracted digits) found and verified by the engine, calls of other big-integer operations are replaced by their '
       'contracts, which are themselves units of this check (assume/guarantee). Every outcome is compared with the mathematical definition for every operand of the given signs, of any length. '
       'Only where that proof fails, constant propagation of the same abstract program on operand patterns (thresholds of the literals in the function included) looks for a concrete counterexample.')
INTLIM = ['a big integer has at most 10^9 digits', 'std::vector and std algorithms behave as specified by ISO C++20', 'allocation succeeds', 'int is 32 bits']
INTTECH = 'abstract interpretation of the type-checked program with a number/digit-sequence domain and operation contracts, compared with the mathematical definition'
INTNOTE = ('Sound for every unit counted as discharged: all operand values of the sign combination, any number of digits up to the bound. A failed proof alone never raises an alarm: it is printed as UNDECIDED '
           'unless constant propagation of the abstract program yields concrete operands for which the result is wrong. Assumes: ' + '; '.join(INTLIM) + '.')


def int_property(rule, minimum):
    return Property(rule, minimum, explain=INT, assume=INTLIM, technique=INTTECH, note=INTNOTE)


SCANLIM = ['a text has fewer than INT_MAX characters', 'arithmetic on double is real arithmetic (rounding and overflow of double are not bounded)', 'std::string, std::pow and std::min behave as specified']
SCANTECH = 'finite-automaton abstraction of the scanning loop (control states enumerated, accumulators as inductive relations) and its product with the grammar automaton'


def scan_property(rule, minimum):
    return Property(rule, minimum, explain='Abstract interpretation of the conversion function over the type-checked program: the loop over the text becomes a finite automaton over all 256 characters whose states are the values of the modified variables, '
                    'explored together with the automaton of the documented grammar; every exit is compared for acceptance and value', assume=SCANLIM, technique=SCANTECH,
                    note='Sound for texts of every length where the obligations are discharged. When the automaton cannot be extracted or differs, an alarm is raised only for a concrete text that constant propagation through the function shows to be converted wrongly; otherwise UNDECIDED is printed. Assumes: ' + '; '.join(SCANLIM) + '.')


PROPS = {
    'C15': scan_property('for every base 2..36 and every text, to_integer returns the folded digits with the sign exactly for the texts of the grammar and raises the error otherwise; construction of a big integer from text likewise without blanks', 35),
    'C16': scan_property('for every text, to_decimal returns sign * digits * 10^(exponent - fraction digits) exactly for the texts of the grammar, the documented spellings give inf/nan, everything else raises the error', 1),
    'C09': Property('the value returned by each hash function depends only on fields of the object (no address, capacity, object representation, static state or environment reaches it), and operator== is true only for objects with equal hashed fields', 8,
                    explain='Interprocedural, flow-insensitive dependence analysis of std::hash<T>::operator() over the resolved clang AST (library callees followed, standard functions as pure functions of their operands except a list of state-revealing ones), combined with the abstract interpretation of operator==: on every true outcome the hashed fields must be equal',
                    assume=['std::hash<T> of the standard library is a function of the value and compatible with ==', 'ISO C++20 semantics of containers'],
                    technique='interprocedural dependence analysis, and abstract interpretation of operator==',
                    note='Dependences are over-approximated over the listed sources only (addresses, capacities, object representation, statics and globals, clocks and random sources); another non-functional library call would be taken as pure. A field that equality does not fix is reported only with two concrete values.'),
    'C07': int_property('on every path of a constructor, assignment, arithmetic or division operation of the big integer the object and the result are canonical: sign 0 without digits, or sign +1/-1 with digits 0..9 and a non-zero leading digit; the queries read that form', 120),
    'C12': int_property('on every path of / and % (each sign combination, and the object as its own divisor) the quotient truncates toward zero with the product sign, the remainder has the sign of the dividend and is below the divisor, and division by zero raises the error', 30),
    'C29': int_property('on every path of an addition, subtraction, multiplication, increment, decrement, negation or absolute value the value of the result is the exact integer expression of the operand values', 60),
    'C01': Property('every path of an indexing, inserting, removing or end-access operation reaches exactly element i or n+i, or throws the range error, and never touches memory outside [0,n)', 20),
    'C02': Property('every path of a range operation throws the documented error exactly outside the documented domain and otherwise touches only positions inside the sequence', 20),
    'C03': Property('the value of the object and of the result on every path is the documented arrangement of the pre-state elements (piecewise sequence terms are compared)', 60),
    'C04': Property('on every path that throws, the abstract object and arguments equal their pre-state', 20),
    'C05': Property('on every path of a query or value-producing operation the object and arguments equal their pre-state', 60),
    'C06': Property('the same decision list holds when an argument is the object itself, one of its elements or a range inside it', 20),
    'C08': Property('every comparison operator of lists, deques, strings and fractions returns, on every path, the condition that defines the lexicographic order / the order of the rational values, so the six operators agree with each other and with one total order', 20),
    'C10': Property('on every path of a fraction operation the result is the exact rational formula of both operands, in lowest terms with positive denominator, or the range error is raised because that value has no int representation', 20),
    'C11': Property('every path of an operation with an undefined argument raises its error before producing a result, and no path with a defined argument does', 20),
    'C13': Property('the result of every set operator/comparison, as a membership expression over the two operands, equals the set-theoretic definition; the right operand keeps its value', 9),
    'C14': Property('every path of an update or lookup is decided by the membership of the key: the report, the entries kept, the entry reached and the key error agree with it', 40),
    'C17': Property('for every content of the stream, the function stores exactly the number the content begins with and leaves the stream usable behind it, or reports an error and stores nothing; its loops consume a character per iteration', 3,
                    explain='Abstract interpretation of operator>> over a lazy input stream: every reading operation has one outcome per kind of content (next character as a set of codes, end of input, number present, absent or out of range), the loop that skips blanks is '
                            'iterated to a fixpoint; the kinds met on a path are matched against the documented grammar. Only where that fails, constant propagation on known contents looks for one that is read wrongly.',
                    assume=['formatted extraction of int, double and char behaves as specified by [istream.formatted]', 'conversion of a text to a big integer and construction of a fraction are decided by their own units (C15, C10, C21)'],
                    technique='abstract interpretation of the type-checked program over a lazy stream (content classes), compared with the grammar of the literal',
                    note='Sound for the enumerated paths: each stands for all contents of its kinds. White space between the parts of a literal and leading control characters are not documented and not compared. The text of a double is abstract (its value is what the library reads).'),
    'C32': Property('on every path the result has the requested number of digits, sign 1 and the digits drawn one by one: all below the leading one are different draws from 0..9 that no condition mentions, and over all paths of a length the leading one is uniform on 1..9, independent of them', 1,
                    explain='Abstract interpretation of Int::random with every call of a distribution as a new independent variable (its number in the sequence of draws and its range). A loop that fills the digits is summarised for every length: cell i holds draw c+i. '
                            'The probability of every leading digit is added up exactly over the paths. Only where that fails, the exact joint distribution of digit pairs is computed for small lengths by following every path.',
                    assume=['std::uniform_int_distribution is uniform over its closed range and successive draws are independent (ideal generator)', 'a generator seeded from std::random_device differs between calls; one with a constant seed does not'],
                    technique='abstract interpretation with draws as independent variables; exact summation of path probabilities',
                    note='Statements about probability hold for an ideal generator: the period and equidistribution of the Mersenne Twister are not analysed. The default length must lie in 0..4300.'),
    'C33': Property('the characters written for a big integer or a fraction, used as the content of a stream, are read as the same value on every path', 2,
                    explain='The output of operator<< (a token sequence for an arbitrary value) is the content of the stream operator>> is then analysed on; conversion of the digits and construction from the parts are decided by their own units',
                    assume=['a big integer and a fraction are in canonical form (C07, C10)', 'conversion of a well-formed text to a big integer (C15) and construction of a fraction from its own parts (C10) give the value'],
                    technique='abstract interpretation of printing and reading composed over a token sequence',
                    note='Big integers and fractions only: the printed form of a complex number is not a complex literal, and printing a double rounds.'),
    'C18': Property('every loop a public operation reaches has a summary or inductive facts with a measure that each iteration decreases (counter against a bound, remaining digits, remaining text or input, absolute value of a number), for every argument; no iteration leads back to the state it started from', 60,
                    explain='The units are the functions that reach a loop of the library. A loop over a container, text, digits or stream is summarised from one generic iteration: the summary gives the number of iterations, which exists only if the guard is reached; loops over numbers need a modified number that comes '
                            'strictly closer to a bound. In addition every function is followed without summaries for each small shape of its arguments (constant propagation for texts and numbers where a proof fails): an iteration that ends in the state it started in, without a new condition, is reported with the argument; '
                            'as is a loop over numbers that exceeds 3000 iterations on a small argument.',
                    assume=INTLIM + ['algorithms of std terminate when element operations do', 'the search for the next prime ends because there are infinitely many primes'],
                    technique='ranking measures from loop summaries and inductive facts; detection of iterations that change nothing',
                    note='Termination only, not complexity. A loop for which no measure is found is UNDECIDED and quiet unless a repeating state is found for a concrete argument. Recursive calls are not summarised (UNDECIDED).'),
    'C19': Property('no path evaluates a signed overflow, division by zero or value-changing narrowing', 60),
    'C20': Property('the empty container takes the throwing path, the non-empty one returns/removes exactly the documented element', 4),
    'C21': Property('every path that would produce more than INT_MAX elements throws the maximum-size error before any change', 8),
    'C22': Property('copy and move operations transfer every sequence/field; a moved-from object is empty', 4),
    'C23': Property('sort is a stable permutation by the comparator, uniquify/filter/remove keep selected elements in order', 6),
    'C24': Property('the characters and items put into the stream on every path, as a sequence term, are the documented printed form for every length', 10),
    'C25': Property('the 256-entry character table computed by the loop body equals the documented one', 2),
    'C26': Property('every documented use type-checks for the least capable element types, every documented misuse is rejected by the compiler', 30, technique='type-level encoding: compile-pass and compile-fail witnesses checked by the compiler front end',
                    explain='Each witness in frontend/witness.cpp is a use of the public interface (static assertions over constraints, explicit uses with archetype element types, uses that must be rejected), type-checked by clang -fsyntax-only against the current headers; an error is attributed to the witness whose instantiation caused it',
                    assume=['the witnesses enumerate the documented interface', 'clang 18 and libstdc++ decide well-formedness'],
                    note='Decides the enumerated witnesses only: a misuse that is not listed is not covered. Nothing is executed (constant evaluation of constexpr tuples is done by the type checker).'),
    'C27': Property('each text operation equals its defining recursion over the occurrences (or items) from left to right', 60),
    'C28': Property('the value returned by each documented use of a tuple, as a condition over or projection of its constructor arguments, is the positional one', 40),
    'C30': Property('on every path of the number-theoretic functions, for every argument of each sign combination, the result equals the definition of the notion (n!, floor square root, floor logarithm, greatest divisor, '
                    'least multiple, power with truncated remainder, least prime above) or the documented error is raised; every loop comes closer to its end with each iteration', 40,
                    explain='Abstract interpretation over mathematical integers: arithmetic of big integers is replaced by its contracts (units of C07, C08, C12, C29). Each loop is summarised by facts that its body is proved to keep: linear bounds and parities '
                            '(the largest inductive subset of a candidate set) and one fact of the notion (factorial: r*i! is kept; Euclid: {a,b} changes by a unimodular step; power: r*b^n is kept modulo m; logarithm: v = floor(x/b^k); root: c\'=(c+x/c)/2; '
                            'primality: no divisor in [2,i); next prime: no prime passed over). At the exits the facts determine the result. Only where that fails, constant propagation on argument patterns looks for one with another result.',
                    assume=INTLIM + ['the arithmetic and comparison operators meet their contracts (C07, C08, C10, C12, C29)', 'fractions of gcd and lcm are multiples of a common unit whose products are representable (the range error of C10 otherwise)'],
                    technique='abstract interpretation with operation contracts and inductive facts of the number-theoretic notion',
                    note='Unbounded in the size of the arguments. A loop whose facts cannot be established leaves the unit UNDECIDED unless a concrete argument with a wrong result is found by constant propagation of the same program. A function that would not return is reported when a loop exceeds 3000 iterations on such an argument. '
                         'Facts used without proof: the classical lemmas on floor division (Newton step), gcd invariance, and that a number without divisor up to its root is prime.'),
    'C31': Property('both components of every result are, as real-arithmetic expressions of the operand components, the documented algebraic formula (normal forms of the expressions are compared)', 16,
                    assume=LIMITS + ['rounding is not bounded: two expressions are the same when they are equal as real functions', 'elementary functions of <cmath> are uninterpreted except for their algebraic identities']),
}


def both(*fs):
    return lambda: [c for f in fs for c in (f() if callable(f) else [x() for x in f])]


COMPONENTS = {
    'C26': [typelevel.TypeLevel],
    'C28': [lambda: typelevel.TypeLevel('tuple')],
    'C09': hashcomp.components,
    'C27': lambda: textscan.components('C27'),
    'C17': lambda: streamcomp.components('C17'),
    'C24': lambda: streamcomp.components('C24'),
    'C33': lambda: streamcomp.components('C33'),
    'C18': both(lambda: progress.components(specs()), lambda: numcomp.components('C18'), lambda: streamcomp.components('C17'), lambda: textscan.components('C27'),
                intcomp.chosen(['Int.operator%s(Int)' % o for o in ('+=', '-=', '*=', '/=', '%=')] + ['Int.abs_inc()', 'Int.abs_dec()', 'Int.Int(int)', 'Int.trim()', 'Int.abs_cmp(Int) const']),
                lambda: scan.components('C15'), lambda: scan.components('C16')),
    'C30': lambda: numcomp.components('C30'),
    'C32': lambda: randcomp.components('C32'),
    'C15': lambda: scan.components('C15'),
    'C16': lambda: scan.components('C16'),
    'C29': intcomp.chosen(intcomp.VALUE + ['Int.to_integer() const']),
    'C12': both(intcomp.chosen([k for k in intcomp.DIVISION if 'operator/' in k or 'operator%' in k]), lambda: numcomp.components('C12')),
    'C07': both(intcomp.chosen(intcomp.FORM + intcomp.VALUE + intcomp.DIVISION, lambda o: '<=>' not in o.key and 'abs_cmp' not in o.key), lambda: scan.components('C07'), lambda: numcomp.components('C07'), lambda: randcomp.components('C07')),
    'C08': intcomp.chosen(['Int.operator<=>(Int) const', 'Int.abs_cmp(Int) const', 'Int.operator==(Int) const']),
    'C22': intcomp.chosen(['Int.Int(Int)', 'Int.Int(Int&&)', 'Int.operator=(Int)', 'Int.operator=(Int&&)']),
    'C05': intcomp.chosen([k for k in intcomp.FORM + intcomp.VALUE + intcomp.DIVISION if 'const' in k or '+=' in k or '-=' in k]),
    'C06': intcomp.chosen(intcomp.SELF, lambda o: o.alias),
    'C11': both(intcomp.chosen(['Int.operator/=(Int)', 'Int.operator%=(Int)'], lambda o: not o.alias and 0 in o.signs), lambda: scan.components('C11'), lambda: numcomp.components('C11'), lambda: randcomp.components('C11')),
    'C04': intcomp.chosen(['Int.operator/=(Int)', 'Int.operator%=(Int)'], lambda o: not o.alias and o.signs[1] == 0),
    'C19': both(intcomp.chosen(['Int.Int(int)', 'Int.digits() const', 'Int.operator<=>(Int) const', 'Int.abs_cmp(Int) const', 'Int.operator+=(Int)', 'Int.operator-=(Int)', 'Int.abs_inc()', 'Int.abs_dec()', 'Int.to_integer() const']), lambda: scan.components('C19')),
}


def components(pid):
    c = COMPONENTS.get(pid, [])
    return c() if callable(c) else [x() for x in c]


def get(pid):
    return PROPS[pid]
