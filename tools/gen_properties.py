#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one property per entry)."""
import json, os
S = "sources/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Positional access is exact, negative-aware and never out of range",
 "Reading, inserting, removing or referencing a single element by position in a list, deque or string succeeds for exactly the positions -n..n-1 (insert: -n..n) of a sequence of length n, a negative position i denotes position n+i, and every other position raises the out-of-range (or empty-container) error. The element reached is exactly the denoted one, and no memory outside the sequence is ever touched.",
 ["inputs"], "every sequence length and every int position",
 "The tests index a five-element list with a handful of positions; the guard is a relation between an arbitrary int and an arbitrary length, and an off-by-one at -n, n or the empty sequence is undefined behaviour that may look right.",
 ["list.hpp", "deque.hpp", "str.hpp", "utility.hpp"],
 [("bounds check before each subscript", S+"utility.hpp check_bounds"), ("index normalisation", S+"list.hpp operator[], insert, remove; deque.hpp operator[]; str.hpp operator[]")],
 [("storage", "wrapped vector/deque/string of length n", S+"list.hpp, deque.hpp, str.hpp")],
 ["value or exception of operator[], insert, remove"])
prop("C02", "Range arguments never reach outside the sequence",
 "Slicing, erasing, searching with start/stop bounds, rotating and repeating a list, deque or string either raises the documented error or only touches elements of that sequence, for every combination of int arguments, including negative, reversed, huge and empty ranges. Slice accepts exactly start in -n..n-1, stop in -n-1..n and a non-zero step; erase accepts exactly ranges with 0 <= start <= stop <= n.",
 ["inputs"], "every length and every int value of start, stop, step, count",
 "Tests use a few small ranges; reversed ranges, negative starts and steps near INT_MAX compile and pass yet read or write outside the buffer.",
 ["list.hpp", "str.hpp", "deque.hpp"],
 [("bounds checks and clamping", S+"list.hpp index, slice, erase; str.hpp find, slice, erase"), ("modular reduction of the rotation count", S+"list.hpp/deque.hpp operator<<=, str.hpp operator<<")],
 (), ["return value, exception or memory error of the range operations"])
prop("C03", "Sequence operations produce exactly the documented arrangement",
 "Each list, deque and string operation that builds or rearranges a sequence (construct, append, extend, concatenate, insert, remove, push, pop, erase, slice, rotate, reverse, repeat, clear) yields exactly the documented elements in the documented order, for every length and argument: nothing is lost, duplicated, reordered or taken from another position. Right and left rotation by k are inverse to each other and agree with k modulo the length.",
 ["inputs"], "every sequence content and length and every accepted argument",
 "Tests check a few literals of length five; which position is read or written is a symbolic function of length and argument.",
 ["list.hpp", "deque.hpp", "str.hpp"],
 [("delegation to vector/deque/string operations and std algorithms at normalised offsets", S+"list.hpp, deque.hpp, str.hpp manipulation and production sections")],
 (), ["resulting sequence"])
prop("C04", "A rejected operation changes nothing",
 "When any operation of the library reports an error by throwing its documented exception, the object it was applied to and every argument are exactly as they were before the call.",
 ["inputs", "histories"], "every operation, every argument that makes it throw, every prior state",
 "Tests check that the exception is thrown and its message, almost never the object afterwards; whether a mutation precedes a throw is a fact about every path.",
 ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "int.hpp", "str.hpp", "fraction.hpp", "complex.hpp", "utility.hpp"],
 [("checks placed before the first write", "check_* calls at the head of the mutators"), ("copy-then-commit", S+"fraction.hpp, complex.hpp compound assignment; int.hpp operator>>")],
 (), ["object state after a caught exception"])
prop("C05", "Queries and value-producing operations never modify their operands",
 "No query, comparison, conversion, printing, hashing, copying or value-producing operation (a + b, slice, replace, keys, pow, ...) changes the observable value of the object it is called on or of any argument. Iterating a container gives read-only access to its elements.",
 ["inputs", "histories"], "every const operation and free operator on every value",
 "Tests compare results, not operands, and const_cast is used throughout the library, so the type system alone does not enforce it.",
 ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "int.hpp", "str.hpp", "fraction.hpp", "complex.hpp", "tuple.hpp", "utility.hpp"],
 [("const member functions and copies of the operands", "all classes"), ("const iterators", "begin/end of every container")],
 (), ["operands after the call"])
prop("C06", "An argument may alias the object it is applied to",
 "Passing an object itself, or an element of it, as the argument of one of its operations (x += x, l /= l[0], s &= s, l.insert(0, l[i])) gives the same result as passing an independent copy.",
 ["inputs"], "every operation taking a reference to a value of the same or the element type, every element position",
 "A result computed while the argument is being overwritten is wrong only for particular contents; tests cover a few trivially copyable cases.",
 ["list.hpp", "int.hpp", "set.hpp", "deque.hpp", "dict.hpp", "fraction.hpp", "complex.hpp"],
 [("copy before mutate, or use of the argument only before the first mutation", S+"list.hpp operator+=, operator/=; int.hpp operator+=, operator-=, operator/=, operator%=")],
 (), ["result of the aliased call against the call on a copy"])
prop("C07", "Big integers always have one canonical representation",
 "After every construction, assignment, arithmetic operation, increment, move or random generation, a big integer is zero with sign 0 and no digits, or has sign +1/-1 and a non-zero leading digit; so equal numbers are stored identically and is_zero, digits(), comparison, hashing and printing agree.",
 ["inputs", "histories"], "every Int reachable through the public interface",
 "Equality, hashing and digits() silently rely on it; a missing normalisation shows only for particular digit patterns (cancellation, leading zeros, -0).",
 ["int.hpp"],
 [("trim()", S+"int.hpp trim and every arithmetic operation"), ("sign bookkeeping in moves and constructors", S+"int.hpp constructors, moves")],
 [("sign, digits", "sign in {-1,0,1}, little-endian digits without leading zero", S+"int.hpp")],
 ["is_zero, digits, ==, hash, <<"])
prop("C08", "Comparisons form one total order consistent with equality",
 "For big integers and fractions exactly one of a<b, a==b, a>b holds, it is the mathematical order of the two values for every representable pair, and it is antisymmetric and consistent with ==. Lists, deques and strings compare lexicographically over all their elements.",
 ["inputs"], "every pair of values",
 "Tests compare a few pairs; sign combinations, equal-length magnitudes and products that overflow are not covered.",
 ["int.hpp", "fraction.hpp", "list.hpp", "deque.hpp", "str.hpp"],
 [("sign table and magnitude comparison", S+"int.hpp operator<=>, abs_cmp"), ("cross multiplication", S+"fraction.hpp operator<=>"), ("defaulted comparisons", S+"list.hpp, deque.hpp, str.hpp operator<=>")],
 (), ["results of == != < <= > >="])
prop("C09", "Equal values hash equally",
 "For every hashable type (big integer, string, fraction, complex) two values that compare equal have the same hash, and the hash depends on nothing but the value.",
 ["inputs"], "every pair of equal values, however they were computed",
 "Unordered containers lose elements only for the particular pair that breaks it.",
 ["int.hpp", "str.hpp", "fraction.hpp", "complex.hpp"],
 [("hash specialisations read the fields equality compares", "std::hash specialisations at the end of each header")],
 (), ["std::hash, unordered containers"])
prop("C10", "Fractions are exact, in lowest terms, with positive denominator",
 "Every fraction that can be observed is in lowest terms with a denominator greater than zero, and the arithmetic operators, comparison and negation compute the mathematically exact rational formula from both operands.",
 ["inputs", "histories"], "every numerator/denominator pair and every sequence of operations whose exact intermediate values are representable",
 "Tests use a few small fractions; the sign and reduction rules must hold for every pair.",
 ["fraction.hpp"],
 [("normalisation in the constructor", S+"fraction.hpp Fraction(int,int)"), ("all results built through that constructor", S+"fraction.hpp operators")],
 [("numerator, denominator", "reduced, denominator > 0", S+"fraction.hpp")], ["numerator(), denominator(), operators"])
prop("C11", "Undefined arithmetic is always rejected, and only that",
 "Division or remainder by zero, a fraction with zero denominator, square root of a negative number, factorial of a negative number, logarithm outside its domain, zero to a negative power, an invalid radix, an empty separator, a zero step and a negative repeat count always raise the documented error before any result is produced; arguments inside the domain never do.",
 ["inputs"], "every operand value",
 "Tests call each with one bad value; a guard that misses one sign, or one path that divides before checking, passes them.",
 ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp", "list.hpp", "utility.hpp"],
 [("check_zero and explicit domain guards", "entry of each partial operation")], (), ["exception or result"])
prop("C12", "Big-integer quotient, remainder and modular power obey the sign laws",
 "For big integers a and b != 0 the quotient is rounded toward zero with the product sign and the remainder has the sign of a (or is zero), whatever the relative size of a and b. Modular power returns a value reduced by the modulus on every path.",
 ["inputs"], "all sign combinations and relative magnitudes of the operands",
 "All remainders in the tests are zero, so the sign of a non-zero remainder is never observed.",
 ["int.hpp"], [("sign handling in /=, %= and pow", S+"int.hpp")], (), ["sign of a/b, a%b; pow(b,e,m)"])
prop("C13", "Set operators and comparisons implement set algebra",
 "For all sets a, b: a&b, a|b, a-b, a^b contain exactly the elements prescribed by the set-theoretic definition, the in-place forms leave the left operand equal to the corresponding value form and the right operand unchanged, and ==, <, <=, >, >= are equality and (proper) inclusion.",
 ["inputs"], "every pair of sets, overlapping or not, including empty and equal ones",
 "Tests try one pair, and never the in-place forms; membership in the result is a boolean function of membership in the operands.",
 ["set.hpp"], [("std set algorithms over the two ordered ranges", S+"set.hpp operators")], (), ["resulting sets, booleans"])
prop("C14", "Dictionary and set updates report and do exactly what happened",
 "Adding returns true exactly when the key or element was absent and never overwrites an existing value; removing returns true exactly when it was present; extending keeps existing entries; lookup of an absent key raises the key error and never inserts; get returns the stored value or the fallback; keys, values and items reflect every entry.",
 ["inputs", "histories"], "every container content and key",
 "Tests look at a few keys; an accidental insertion or overwrite is visible only in later observations.",
 ["dict.hpp", "set.hpp"], [("find before access, insert/erase results", S+"dict.hpp operator[], get, add, remove; set.hpp add, remove")], (), ["return values, contents"])
prop("C15", "Integer literals: exactly the grammar is accepted, with the positional value",
 "Big-integer construction from text accepts exactly an optional sign followed by one or more decimal digits; string-to-integer conversion accepts exactly optional blanks, an optional sign, one or more digits of the radix (either case), optional blanks. Anything else raises the error, and an accepted literal folds every digit once, most significant first, with the sign applied.",
 ["inputs"], "every character sequence and every radix 2..36",
 "The input language is infinite; tests try a few dozen strings.",
 ["str.hpp", "int.hpp"], [("finite state machine", S+"str.hpp to_integer, get_event, char_to_integer"), ("is_integer", S+"int.hpp")], (), ["accepted/rejected, value"])
prop("C16", "Decimal literals: exactly the grammar is accepted",
 "String-to-decimal conversion accepts exactly the inf/nan spellings and optional blanks, optional sign, digits with optional point (at least one digit), optional exponent e[sign]digits, optional blanks; everything else raises the error. Integer, fraction and exponent digits, their signs and the number of fraction digits are each accounted for exactly once.",
 ["inputs"], "every character sequence",
 "The input language is infinite; tests try a few dozen strings.",
 ["str.hpp"], [("finite state machine", S+"str.hpp to_decimal")], (), ["accepted/rejected, value"])
prop("C17", "Reading a number from a stream is total and never invents values",
 "Extracting a fraction, complex number or big integer from any input stream content terminates; a well-formed number is stored with exactly its value, leaving the stream usable directly behind it; a missing or malformed number raises the literal error (or leaves the stream failed) instead of storing a value, and the target keeps its value; the target is assigned only from characters actually parsed. Reading a string stores exactly the characters up to the next newline, consumes that newline and fails only at the end of the input.",
 ["inputs"], "every stream content, including empty, blank-only and truncated input",
 "Tests feed well-formed tokens and five malformed ones; end-of-input and failed sub-extractions are not covered.",
 ["fraction.hpp", "complex.hpp", "int.hpp"], [("peek/ignore loops, formatted extraction and character checks", "operator>> of each type")], (), ["stored value, exception, termination"])
prop("C18", "Every operation terminates",
 "Every operation of the library on well-formed arguments finishes: each loop makes strict progress toward its exit condition on every iteration and recursion always descends.",
 ["inputs"], "every argument of every operation",
 "Non-termination appears only for special values (perfect square minus one, empty pattern, end of input) that samples miss.",
 ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "fraction.hpp", "complex.hpp", "utility.hpp"],
 [("loop counters, shrinking values, scanning positions", "all loops")], (), ["the call returns"])
prop("C19", "Built-in integer arithmetic never overflows silently",
 "For every argument, the container, string, conversion and comparison operations never evaluate a signed overflow, a division by zero or a narrowing that changes the value: sizes, indices, counts, exponents and cross products are computed in a range that holds them or rejected first. A big integer that a built-in integer type cannot hold is rejected by the conversion to that type.",
 ["inputs"], "every int argument and every length up to INT_MAX",
 "Overflow needs extreme arguments (INT_MIN rotation, huge repeat counts or steps) that tests do not use, and is silent when it happens.",
 ["list.hpp", "deque.hpp", "str.hpp", "int.hpp", "fraction.hpp", "utility.hpp"],
 [("guards and widened intermediates", "arithmetic on sizes and parameters")], (), ["result or exception"])
prop("C20", "Extremes and removals on an empty container are rejected",
 "Asking an empty list, deque, set or dictionary for an end element, a minimum or maximum, or to pop raises the empty-container error, and never does so on a non-empty one; on a non-empty container the documented element is returned and, for pop, exactly that element is removed.",
 ["inputs", "histories"], "every container state",
 "An unguarded path is undefined behaviour that may return plausible data.",
 ["deque.hpp", "set.hpp", "dict.hpp", "list.hpp"], [("check_empty before each access", S+"deque.hpp, set.hpp, dict.hpp, list.hpp")], (), ["exception or element"])
prop("C21", "Growth past the maximum size is refused",
 "Every operation that adds a single element, concatenates or repeats refuses, with the maximum-size error and before changing anything, to let a container grow past INT_MAX elements, and never refuses when the result has fewer than INT_MAX-2 elements.",
 ["inputs", "histories"], "containers of every size up to INT_MAX",
 "A container of two billion elements cannot be built in a unit test; the check is commented out as too slow.",
 ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "utility.hpp"], [("check_full before growth", "mutators of each container")], (), ["exception, size()"])
prop("C22", "Moved-from and copied objects are valid and independent",
 "Copying gives an equal, independent object; moving gives the target the old value and leaves the source a valid empty/zero value that behaves like a freshly constructed one; both constructors and both assignments transfer every part of the value.",
 ["inputs", "histories"], "every value, every later use of source and target",
 "Tests move one value per type and look at one attribute; a field forgotten in one of four special members shows only in some later operation.",
 ["int.hpp", "str.hpp", "fraction.hpp", "complex.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp"], [("special members", "each class")], (), ["source and target after copy/move"])
prop("C23", "Order-preserving operations preserve order",
 "Sorting a list is stable and ordered by the given comparator; uniquify keeps the first occurrence of each element in the original order; filter and remove-all keep exactly the selected elements in order; remove-first removes only the first match.",
 ["inputs"], "every list and comparator, including long lists with many equal elements",
 "An unstable sort is stable on short inputs, which is all the tests use.",
 ["list.hpp"], [("stable algorithms", S+"list.hpp sort, uniquify, filter, operator-=, operator/=")], (), ["element order"])
prop("C24", "Printed form has the documented shape",
 "Every container prints as its opening bracket, its elements in order separated by exactly one separator with none leading or trailing, and its closing bracket, for every length; dictionary entries, tuples, strings, fractions, complex and big integers print with their documented sign, separators and delimiters.",
 ["inputs"], "every length and value",
 "Tests print containers of length 0, 1, 3 and 5.",
 ["utility.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "str.hpp", "int.hpp", "fraction.hpp", "complex.hpp"], [("print helpers and operator<<", S+"utility.hpp print")], (), ["output text"])
prop("C25", "Character-wise string operations treat every character correctly",
 "upper and lower map ASCII letters to the other case and leave every other character unchanged; strip removes exactly the leading and trailing occurrences of the given character (by default: blank and control characters, codes 0 to 32) and no others; digit conversion accepts exactly the digits of the radix.",
 ["inputs"], "all 256 character values",
 "Tests use letters only; behaviour on digits, punctuation, non-ASCII bytes is not sampled.",
 ["str.hpp"], [("per-character lambdas and predicates", S+"str.hpp lower, upper, strip, char_to_integer")], (), ["resulting text"])
prop("C26", "Misuse that can be caught at compile time does not compile",
 "Tuple element access outside the tuple, writing through a container's iterators or through a string, modifying a dictionary key or set element and default-hash of mutable containers are rejected by the compiler, while every documented use compiles for types with minimal requirements; conversions between the library's types happen only where documented.",
 ["programs"], "every client program",
 "A unit test that compiles cannot show that a program must not compile.",
 ["tuple.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "int.hpp"], [("static_assert, const iterators, const references, absence of hash specialisations", "class interfaces")], (), ["compiler acceptance"])
prop("C27", "Text search operations account for every character and every match",
 "count, replace and split process the non-overlapping occurrences of the pattern from left to right: each occurrence is used once, scanning resumes right after it, and every character outside the occurrences is kept exactly once and in order; join places the separator exactly between consecutive items.",
 ["inputs"], "every string and pattern, including patterns at the ends, adjacent and overlapping",
 "Tests use a few short literals.",
 ["str.hpp"], [("find loop with position bookkeeping", S+"str.hpp count, replace, split, join")], (), ["resulting text or list"])
prop("C28", "Tuples are heterogeneous values with positional identity",
 "A tuple stores each constructor argument at its position, size is the number of elements, get<i> and rest return the i-th element and the remaining elements, equality is element-wise with different lengths or element types unequal, and != is its negation.",
 ["programs", "inputs"], "every list of element types and values",
 "Recursion over the type list means each arity and position is different code; tests instantiate three arities.",
 ["tuple.hpp"], [("recursive inheritance", S+"tuple.hpp")], (), ["get, rest, ==, size"])
prop("C29", "Big-integer digit arithmetic conserves value",
 "Addition, subtraction, multiplication, increment and decrement of big integers conserve the positional value exactly: every digit and every carry or borrow is accounted for once, for operands of every length and sign. Conversion to a built-in integer type yields the same value.",
 ["inputs"], "every pair of operands",
 "Carry chains and length differences need particular digit patterns.",
 ["int.hpp"], [("digit loops with carry", S+"int.hpp operator+=, -=, *=, abs_inc, abs_dec")], (), ["decimal value of the result"])
prop("C30", "Number-theoretic results are correct",
 "Factorial is the product of 1 to n; the integer square root and logarithm are the floor of the real value; is_prime holds exactly for primes and next_prime is the least prime above the argument; gcd and lcm of integers and fractions are the greatest common divisor and the least positive common multiple; power is the exact power, with a modulus its truncated remainder, and for a negative exponent the truncated reciprocal (or an error for base zero).",
 ["inputs"], "every argument", "Only sampled arguments are tested.",
 ["int.hpp", "fraction.hpp", "utility.hpp"], [("Newton iteration, trial division, Euclid, fast power", S+"int.hpp")], (), ["returned value"])
prop("C31", "Complex arithmetic is accurate",
 "Every component of a complex sum, difference, product, quotient, modulus, argument, conjugate and power is the algebraic formula of the components of the operands, up to the rounding of the floating-point operations it consists of.",
 ["inputs"], "every pair of doubles", "Only sampled values are compared.",
 ["complex.hpp"], [("formulas", S+"complex.hpp")], (), ["real(), imag()"])
prop("C32", "Random big integers have the requested length and are uniform",
 "A random big integer of d digits has exactly d digits, is non-negative, and, given an ideal source of randomness, is uniformly distributed over the numbers of that length; different calls use different seeds.",
 ["inputs"], "every d", "Distribution cannot be asserted by a unit test.",
 ["int.hpp"], [("random()", S+"int.hpp")], (), ["distribution of Int::random"])
prop("C33", "Printing then parsing a number gives the number back",
 "For every big integer and every fraction, reading its printed form from a stream yields an equal value.",
 ["inputs"], "every value", "Only a few literals are read.",
 ["int.hpp", "fraction.hpp"], [("operator<< and operator>>", "Int, Fraction")], (), ["value after round trip"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
