// Type-level witnesses: which uses of the public interface compile. Only parsed (-fsyntax-only), never run.
// A line "// CASE name: text" starts a case; an error reported for (or instantiated from) its lines fails that case.
#include "pyincpp.hpp"
#include <array>
#include <forward_list>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <concepts>
#include <sstream>
using namespace pyincpp;

struct Bare { explicit Bare(int); int v; };                                                       // copyable, nothing else
struct Eq { explicit Eq(int); bool operator==(const Eq&) const; };                               // only ==
struct Lt { explicit Lt(int); bool operator<(const Lt&) const; };                                // only <
struct EqLt { explicit EqLt(int); bool operator==(const EqLt&) const; bool operator<(const EqLt&) const; };
struct Show { explicit Show(int); friend std::ostream& operator<<(std::ostream&, const Show&); };
struct ShowLt : Lt { using Lt::Lt; friend std::ostream& operator<<(std::ostream&, const ShowLt&); };
struct NoAssign { NoAssign(const NoAssign&); NoAssign& operator=(const NoAssign&) = delete; int v; };

// the expression in the constraint of the lambda is ill-formed for T
template <class T, class F> constexpr bool rejects(F) { return !std::is_invocable_v<F, T&>; }

#ifndef VT_HARD
// CASE list-minimal: List of a type that can only be copied: every operation that needs no comparison
void list_minimal(List<Bare>& l, const List<Bare>& c, const Bare& e, std::vector<Bare>& v)
{
    List<Bare> a; List<Bare> b{e, e}; List<Bare> d(v.begin(), v.end()); List<Bare> f(v); List<Bare> g(c); List<Bare> h(std::move(g)); g = c; g = std::move(h);
    l[0] = e; (void)c[0].v; (void)c.size(); (void)c.is_empty(); l.insert(0, e); Bare x = l.remove(0); l += e; l += c; l *= 2; l >>= 1; l <<= 1; l.reverse();
    l.erase(0, 0); l.map([](Bare& y) { y.v = 1; }); l.filter([](const Bare& y) { return y.v > 0; }); l.extend(v.begin(), v.end()); l.extend(c.begin(), c.end()); l.clear();
    l.sort([](const Bare& p, const Bare& q) { return p.v < q.v; });
    (void)c.slice(0, 1); (void)c.slice(0, 1, 2); (void)(c + e); (void)(c + c); (void)(c * 2);
    for (const auto& y : c) { (void)y.v; }
    for (auto it = c.rbegin(); it != c.rend(); ++it) { (void)it->v; }
}
// CASE list-equality: List of a type with == only: searching, counting, removing, comparing for equality
void list_equality(List<Eq>& l, const List<Eq>& c, const Eq& e)
{
    (void)c.find(e); (void)c.index(e); (void)c.index(e, 0, 1); (void)c.contains(e); (void)c.contains(e, 0, 1); (void)c.count(e); l -= e; l /= e; l.uniquify(); (void)(c - e); (void)(c / e);
    (void)(c == c); (void)(c != c);
}
// CASE list-order: List of a type with == and <: sorting; lexicographic comparison of comparable elements
void list_order(List<EqLt>& l, const List<int>& c) { l.sort(); (void)(c < c); (void)(c <= c); (void)(c > c); (void)(c >= c); (void)(c == c); }
// CASE list-sources: List from any input range
void list_sources(std::list<int>& a, std::forward_list<int>& b, std::array<int, 3>& d, std::istringstream& s, const int* p)
{
    List<int> l(a.begin(), a.end()), m(b.begin(), b.end()), n(d.begin(), d.end()), o(std::istream_iterator<int>(s), std::istream_iterator<int>()), q(p, p + 1);
    l.extend(a.begin(), a.end()); l.extend(b.begin(), b.end()); l.extend(std::istream_iterator<int>(s), std::istream_iterator<int>()); l.extend(p, p + 1);
}
// CASE deque-minimal: Deque of a type that can only be copied
void deque_minimal(Deque<Bare>& l, const Deque<Bare>& c, const Bare& e, std::deque<Bare>& v)
{
    Deque<Bare> a; Deque<Bare> b{e, e}; Deque<Bare> d(v.begin(), v.end()); Deque<Bare> f(v); Deque<Bare> g(c); Deque<Bare> h(std::move(g)); g = c; g = std::move(h);
    l[0] = e; l.front() = e; l.back() = e; (void)c[0].v; (void)c.front().v; (void)c.back().v; (void)c.size(); (void)c.is_empty(); l.push_back(e); l.push_front(e);
    Bare x = l.pop_back(); Bare y = l.pop_front(); l.extend_back(v.begin(), v.end()); l.extend_front(v.begin(), v.end()); l >>= 1; l <<= 1; l.reverse(); l.clear();
    for (const auto& z : c) { (void)z.v; }
    for (auto it = c.rbegin(); it != c.rend(); ++it) { (void)it->v; }
}
// CASE deque-order: Deque comparison needs only the element comparison used
void deque_order(const Deque<Eq>& e, const Deque<int>& c) { (void)(e == e); (void)(e != e); (void)(c < c); (void)(c <= c); (void)(c > c); (void)(c >= c); }
// CASE set-minimal: Set of a type with < only
void set_minimal(Set<Lt>& s, const Set<Lt>& c, const Lt& e, std::set<Lt>& v)
{
    Set<Lt> a; Set<Lt> b{e}; Set<Lt> d(v.begin(), v.end()); Set<Lt> f(v); Set<Lt> g(c); Set<Lt> h(std::move(g)); g = c; g = std::move(h);
    (void)c.size(); (void)c.is_empty(); (void)c.find(e); (void)c.contains(e); (void)c.min(); (void)c.max(); (void)s.add(e); (void)s.remove(e); (void)s.pop();
    s &= c; s |= c; s -= c; s ^= c; s.extend(v.begin(), v.end()); s.clear(); (void)(c & c); (void)(c | c); (void)(c - c); (void)(c ^ c);
    (void)(c < c); (void)(c <= c); (void)(c > c); (void)(c >= c);
    for (const auto& z : c) { (void)z; }
    for (auto it = c.rbegin(); it != c.rend(); ++it) { (void)*it; }
}
// CASE set-equality: Set of a type with == and < is comparable for equality
void set_equality(const Set<EqLt>& c) { (void)(c == c); (void)(c != c); }
// CASE dict-minimal: Dict whose key has < only and whose value can only be copied
void dict_minimal(Dict<Lt, Bare>& d, const Dict<Lt, Bare>& c, const Lt& k, const Bare& v, std::map<Lt, Bare>& m)
{
    Dict<Lt, Bare> a; Dict<Lt, Bare> b{{k, v}}; Dict<Lt, Bare> e(m.begin(), m.end()); Dict<Lt, Bare> f(m); Dict<Lt, Bare> g(c); Dict<Lt, Bare> h(std::move(g)); g = c; g = std::move(h);
    d[k] = v; (void)c[k].v; (void)c.get(k, v).v; (void)c.size(); (void)c.is_empty(); (void)c.find(k); (void)c.contains(k); (void)c.min(); (void)c.max(); (void)c.keys();
    (void)d.add(k, v); (void)d.remove(k); (void)d.pop(); d.extend(m.begin(), m.end()); d.clear();
    for (const auto& [x, y] : c) { (void)x; (void)y.v; }
    for (auto it = c.rbegin(); it != c.rend(); ++it) { (void)it->second.v; }
}
// CASE dict-views: Dict of comparable keys and values has values, items and equality
void dict_views(const Dict<int, EqLt>& c, const Dict<int, Eq>& e) { (void)c.values(); (void)c.items(); (void)(c == c); (void)(e == e); (void)(e != e); }
// CASE print-all: every container of printable elements, nested containers and every number type print
void print_all(std::ostream& os, const List<Show>& l, const Deque<Show>& d, const Set<ShowLt>& s, const Dict<ShowLt, Show>& m, const Dict<Str, List<Int>>& n, const List<Dict<int, Set<Str>>>& o,
               const Tuple<>& t0, const Tuple<Show>& t1, const Tuple<Show, int, Str>& t3, const Int& i, const Str& t, const Fraction& f, const Complex& c)
{
    os << l << d << s << m << n << o << t0 << t1 << t3 << i << t << f << c;
}
// CASE hash-values: the immutable value types work in hashed containers
void hash_values() { std::unordered_set<Int> a; std::unordered_set<Str> b; std::unordered_set<Fraction> c; std::unordered_map<Complex, int> d; a.insert(1); b.insert("x"); c.insert(1); d[1] = 2; }
// CASE nested-keys: library types nest as elements and keys
void nested_keys() { Dict<Str, List<Int>> a; Set<Int> b; Set<Str> c; Set<Fraction> d; List<Complex> e; Set<List<int>> f; Dict<Int, Tuple<int, Str>> g; List<Tuple<Int>> h; (void)e.contains(Complex()); (void)a["x"]; (void)b.contains(1); }
// CASE int-use: Int from int and text, mixed arithmetic and comparison with built-in integers
void int_use(Int& a, const Int& b)
{
    Int x = 1, y = "12", z; a = 3; a = "4"; a += b; a -= 1; a *= b; a /= 2; a %= b; ++a; --a; (void)(+b + -b - b * 1 / 2 % b); (void)(b == 1); (void)(b < b); (void)(b >= 2); (void)b.abs(); (void)b.factorial(); (void)b.next_prime();
    (void)b.to_integer<int>(); (void)b.to_integer<long long>(); (void)b.to_integer<double>(); (void)Int::sqrt(b); (void)Int::pow(b, b); (void)Int::pow(b, b, b); (void)Int::log(b, b); (void)Int::gcd(b, b); (void)Int::lcm(b, b); (void)Int::random(); (void)Int::random(3);
    static_assert(std::same_as<decltype(b.to_integer<short>()), short>); static_assert(std::same_as<decltype(b + b), Int>); static_assert(std::same_as<decltype(a += b), Int&>);
}
// CASE str-use: Str from text, comparison, every string operation
void str_use(const Str& s, const std::string& t)
{
    Str a, b = "x", c(t), d{"y"}; (void)(s == s); (void)(s < s); (void)(s != s); (void)s[0]; (void)s.find(s); (void)s.find("x", 0, 1); (void)s.contains("x"); (void)s.count("x"); (void)s.to_decimal(); (void)s.to_integer(); (void)s.to_integer(16);
    (void)s.starts_with("x"); (void)s.ends_with("x"); (void)(s >> 1); (void)(s << 1); (void)s.reverse(); (void)s.lower(); (void)s.upper(); (void)s.erase(0, 1); (void)s.replace("a", "b"); (void)s.strip(); (void)s.strip('x'); (void)s.slice(0, 1); (void)s.slice(0, 1, 1);
    (void)(s + 'x'); (void)(s + s); (void)(s * 2); (void)s.split(); (void)s.split(","); (void)s.split(",", true); (void)s.join({"a", "b"}); (void)s.format(1, "x", 2.5, s, Int(1), List<int>{1}); (void)s.data(); (void)s.size();
    for (char ch : s) { (void)ch; }
    static_assert(std::same_as<decltype(s.to_integer()), Int>); static_assert(std::same_as<decltype(s.split()), List<Str>>);
}
// CASE fraction-use: Fraction arithmetic, comparison, conversion to double, mixing with int
void fraction_use(Fraction& a, const Fraction& b)
{
    Fraction x = 1, y(1, 2), z; a += b; a -= b; a *= b; a /= b; a %= b; ++a; --a; (void)(+b + -b - b * b / b % b); (void)(b == b); (void)(b != b); (void)(b < b); (void)(b <= b); double d = b; (void)b.abs(); (void)b.numerator(); (void)b.denominator(); (void)Fraction::gcd(b, b); (void)Fraction::lcm(b, b); (void)(b + Fraction(1)); a = 3; (void)d;
    static_assert(std::same_as<decltype(b + b), Fraction>);
}
// CASE complex-use: Complex arithmetic, comparison, mixing with double
void complex_use(Complex& a, const Complex& b)
{
    Complex x = 1.5, y(1, 2), z; a += b; a -= b; a *= b; a /= b; (void)(+b + -b - b * b / b); (void)(b == b); (void)(b != b); (void)(b + 1.0); (void)b.real(); (void)b.imag(); (void)b.abs(); (void)b.arg(); (void)b.conjugate(); (void)Complex::pow(b, b); (void)Complex::pow(b, 2); a = 2;
}
// CASE tuple-constexpr: tuples are usable in constant expressions, with positional types
constexpr Tuple<int, double, char> CT(1, 2.5, 'A');
static_assert(CT.size() == 3 && CT.get<0>() == 1 && CT.get<1>() == 2.5 && CT.get<2>() == 'A');
static_assert(CT.rest().size() == 2 && CT.rest().get<0>() == 2.5 && CT.rest().get<1>() == 'A' && CT.rest().rest().get<0>() == 'A' && CT.rest().rest().rest().size() == 0);
static_assert(CT == CT && !(CT != CT) && CT == make_tuple(1, 2.5, 'A') && CT != make_tuple(1, 2.5, 'B') && CT != make_tuple(2, 2.5, 'A') && CT != make_tuple(1, 3.5, 'A'));
static_assert(CT != make_tuple(1, 2.5) && make_tuple(1, 2.5) != CT && CT != make_tuple(1, 2.5, 65) && CT != Tuple<>() && Tuple<>() != CT && Tuple<>() == Tuple<>() && !(Tuple<>() != Tuple<>()));
static_assert(!(CT == make_tuple(1, 2.5)) && !(make_tuple(1, 2.5) == CT) && !(CT == Tuple<>()) && !(Tuple<>() == CT) && !(CT == make_tuple(1, 2.5, 65)) && make_tuple().size() == 0 && Tuple<>().size() == 0);
static_assert(std::same_as<std::remove_cvref_t<decltype(CT.get<0>())>, int> && std::same_as<std::remove_cvref_t<decltype(CT.get<1>())>, double> && std::same_as<std::remove_cvref_t<decltype(CT.get<2>())>, char>);
static_assert(std::same_as<decltype(make_tuple(1, 2.5, 'A')), Tuple<int, double, char>> && std::same_as<std::remove_cvref_t<decltype(CT.rest())>, Tuple<double, char>>);
// CASE tuple-types: tuples of different element types are unequal even when the values are comparable
template <typename A, typename B> constexpr bool differ(A a, B b) { return Tuple<A>(a) != Tuple<B>(b) && !(Tuple<A>(a) == Tuple<B>(b)) && Tuple<int, A>(1, a) != Tuple<int, B>(1, b) && !(Tuple<A, int>(a, 1) == Tuple<B, int>(b, 1)) && Tuple<A, B>(a, b) == Tuple<A, B>(a, b) && Tuple<A, B>(a, b) != Tuple<B, A>(b, a); }
static_assert(differ(1, 1u) && differ(1, 1L) && differ(1L, 1LL) && differ(1, short(1)) && differ(1, true) && differ('a', (signed char)'a') && differ('a', 97) && differ(1.0, 1.0f) && differ(1.0, 1) && differ(1.0, 1.0L) && differ('a', (unsigned char)'a'));
struct Base0 { int v; constexpr bool operator==(const Base0& o) const { return v == o.v; } };
struct Derived0 : Base0 { constexpr Derived0(int x) : Base0{x} {} };
static_assert(differ(Base0{1}, Derived0(1)) && differ((const Base0*)nullptr, (Base0*)nullptr));
// CASE tuple-elements: tuples of types without default constructor, assignment or ordering
void tuple_elements(const Tuple<Eq, Bare, NoAssign>& t, const Tuple<Eq, Eq>& e, const NoAssign& n) { (void)t.get<1>().v; (void)t.get<2>().v; (void)t.rest().get<0>().v; (void)(e == e); (void)(e != e); (void)make_tuple(Bare(1), n).size(); }
// CASE tuple-element-immutable: a tuple element can not be written
static_assert(rejects<Tuple<int, int>>([](auto& t) requires requires { t.template get<0>() = 1; } {}) && rejects<Tuple<int, int>>([](auto& t) requires requires { t.template get<1>() = 1; } {}));
// CASE list-iterator-readonly: a list iterator gives read-only access
static_assert(rejects<List<int>>([](auto& l) requires requires { *l.begin() = 1; } {}) && rejects<List<int>>([](auto& l) requires requires { *l.rbegin() = 1; } {}) && rejects<List<int>>([](auto& l) requires requires { *l.find(1) = 1; } {}));
// CASE deque-iterator-readonly: a deque iterator gives read-only access
static_assert(rejects<Deque<int>>([](auto& l) requires requires { *l.begin() = 1; } {}) && rejects<Deque<int>>([](auto& l) requires requires { *l.rbegin() = 1; } {}));
// CASE set-element-immutable: a set element can not be modified in place
static_assert(rejects<Set<int>>([](auto& s) requires requires { *s.begin() = 1; } {}) && rejects<Set<int>>([](auto& s) requires requires { *s.rbegin() = 1; } {}) && rejects<Set<int>>([](auto& s) requires requires { *s.find(1) = 1; } {}));
// CASE dict-iterator-readonly: a dictionary iterator gives read-only access to key and value
static_assert(rejects<Dict<int, int>>([](auto& d) requires requires { d.begin()->first = 1; } {}) && rejects<Dict<int, int>>([](auto& d) requires requires { d.find(1)->first = 1; } {}) && rejects<Dict<int, int>>([](auto& d) requires requires { d.begin()->second = 1; } {}) && rejects<Dict<int, int>>([](auto& d) requires requires { d.rbegin()->second = 1; } {}) && rejects<Dict<int, int>>([](auto& d) requires requires { d.find(1)->second = 1; } {}));
// CASE str-immutable: a character of a string can not be written
static_assert(rejects<Str>([](auto& s) requires requires { s[0] = 'x'; } {}) && rejects<Str>([](auto& s) requires requires { *s.begin() = 'x'; } {}) && rejects<Str>([](auto& s) requires requires { *s.rbegin() = 'x'; } {}) && rejects<Str>([](auto& s) requires requires { s.data()[0] = 'x'; } {}));
// CASE list-const: a const list offers no mutating operation and read-only elements
static_assert(rejects<const List<int>>([](auto& l) requires requires { l[0] = 1; } {}) && rejects<const List<int>>([](auto& l) requires requires { l += 1; } {}) && rejects<const List<int>>([](auto& l) requires requires { l += l; } {}) && rejects<const List<int>>([](auto& l) requires requires { l -= 1; } {}) && rejects<const List<int>>([](auto& l) requires requires { l *= 1; } {}) && rejects<const List<int>>([](auto& l) requires requires { l /= 1; } {}));
static_assert(rejects<const List<int>>([](auto& l) requires requires { l >>= 1; } {}) && rejects<const List<int>>([](auto& l) requires requires { l <<= 1; } {}) && rejects<const List<int>>([](auto& l) requires requires { l.insert(0, 1); } {}) && rejects<const List<int>>([](auto& l) requires requires { l.remove(0); } {}) && rejects<const List<int>>([](auto& l) requires requires { l.reverse(); } {}) && rejects<const List<int>>([](auto& l) requires requires { l.uniquify(); } {}));
static_assert(rejects<const List<int>>([](auto& l) requires requires { l.sort(); } {}) && rejects<const List<int>>([](auto& l) requires requires { l.erase(0, 0); } {}) && rejects<const List<int>>([](auto& l) requires requires { l.clear(); } {}) && rejects<const List<int>>([](auto& l) requires requires { l.extend((const int*)0, (const int*)0); } {}) && rejects<const List<int>>([](auto& l) requires requires { l = List<int>(); } {}));
// CASE deque-const: a const deque offers no mutating operation and read-only elements
static_assert(rejects<const Deque<int>>([](auto& l) requires requires { l[0] = 1; } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.front() = 1; } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.back() = 1; } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.push_back(1); } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.push_front(1); } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.pop_back(); } {}));
static_assert(rejects<const Deque<int>>([](auto& l) requires requires { l.pop_front(); } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l >>= 1; } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l <<= 1; } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.reverse(); } {}) && rejects<const Deque<int>>([](auto& l) requires requires { l.clear(); } {}));
// CASE set-const: a const set offers no mutating operation
static_assert(rejects<const Set<int>>([](auto& s) requires requires { s.add(1); } {}) && rejects<const Set<int>>([](auto& s) requires requires { s.remove(1); } {}) && rejects<const Set<int>>([](auto& s) requires requires { s.pop(); } {}) && rejects<const Set<int>>([](auto& s) requires requires { s &= s; } {}) && rejects<const Set<int>>([](auto& s) requires requires { s |= s; } {}) && rejects<const Set<int>>([](auto& s) requires requires { s -= s; } {}) && rejects<const Set<int>>([](auto& s) requires requires { s ^= s; } {}) && rejects<const Set<int>>([](auto& s) requires requires { s.clear(); } {}));
// CASE dict-const: a const dictionary offers no mutating operation and read-only values
static_assert(rejects<const Dict<int, int>>([](auto& d) requires requires { d[1] = 1; } {}) && rejects<const Dict<int, int>>([](auto& d) requires requires { d.add(1, 1); } {}) && rejects<const Dict<int, int>>([](auto& d) requires requires { d.remove(1); } {}) && rejects<const Dict<int, int>>([](auto& d) requires requires { d.pop(); } {}) && rejects<const Dict<int, int>>([](auto& d) requires requires { d.clear(); } {}));
static_assert(rejects<Dict<int, int>>([](auto& d) requires requires { d.get(1, 2) = 2; } {}) && rejects<const Dict<int, int>>([](auto& d) requires requires { d.get(1, 2) = 2; } {}));
// CASE number-const: a const number offers no mutating operation
static_assert(rejects<const Int>([](auto& i) requires requires { i += i; } {}) && rejects<const Int>([](auto& i) requires requires { i -= i; } {}) && rejects<const Int>([](auto& i) requires requires { i *= i; } {}) && rejects<const Int>([](auto& i) requires requires { i /= i; } {}) && rejects<const Int>([](auto& i) requires requires { i %= i; } {}) && rejects<const Int>([](auto& i) requires requires { ++i; } {}) && rejects<const Int>([](auto& i) requires requires { --i; } {}));
static_assert(rejects<const Fraction>([](auto& i) requires requires { i += i; } {}) && rejects<const Fraction>([](auto& i) requires requires { i -= i; } {}) && rejects<const Fraction>([](auto& i) requires requires { i *= i; } {}) && rejects<const Fraction>([](auto& i) requires requires { i /= i; } {}) && rejects<const Fraction>([](auto& i) requires requires { i %= i; } {}) && rejects<const Fraction>([](auto& i) requires requires { ++i; } {}) && rejects<const Fraction>([](auto& i) requires requires { --i; } {}));
static_assert(rejects<const Complex>([](auto& i) requires requires { i += i; } {}) && rejects<const Complex>([](auto& i) requires requires { i -= i; } {}) && rejects<const Complex>([](auto& i) requires requires { i *= i; } {}) && rejects<const Complex>([](auto& i) requires requires { i /= i; } {}) && rejects<Complex>([](auto& i) requires requires { i.real() = 1; } {}) && rejects<Complex>([](auto& i) requires requires { i.imag() = 1; } {}) && rejects<Fraction>([](auto& i) requires requires { i.numerator() = 1; } {}) && rejects<Fraction>([](auto& i) requires requires { i.denominator() = 1; } {}));
// CASE hash-mutable: mutable containers have no hash
template <typename T> concept Hashable = std::is_default_constructible_v<std::hash<T>> && requires(const T& t) { std::hash<T>{}(t); };
static_assert(!Hashable<List<int>> && !Hashable<Deque<int>> && !Hashable<Set<int>> && !Hashable<Dict<int, int>>);
static_assert(Hashable<Int> && Hashable<Str> && Hashable<Fraction> && Hashable<Complex>);
// CASE conversion-none: no conversion between library types other than the documented ones
static_assert(!std::convertible_to<Int, int> && !std::convertible_to<Int, bool> && !std::convertible_to<Int, double> && !std::convertible_to<Int, Str> && !std::convertible_to<Str, Int> && !std::convertible_to<Str, const char*> && !std::convertible_to<Str, std::string> && !std::convertible_to<Str, double> && !std::convertible_to<Str, bool> && !std::convertible_to<Complex, double> && !std::convertible_to<Complex, bool>);
static_assert(!std::convertible_to<List<int>, Set<int>> && !std::convertible_to<Set<int>, List<int>> && !std::convertible_to<List<int>, Deque<int>> && !std::convertible_to<Deque<int>, List<int>> && !std::convertible_to<List<int>, bool> && !std::convertible_to<List<char>, Str> && !std::convertible_to<Str, List<char>> && !std::convertible_to<int, List<int>> && !std::convertible_to<int, Deque<int>> && !std::convertible_to<int, Set<int>> && !std::convertible_to<int, Str> && !std::convertible_to<char, Str>);
static_assert(!std::convertible_to<List<int>, List<double>> && !std::convertible_to<List<Int>, List<int>> && !std::convertible_to<Dict<int, int>, Set<int>> && !std::convertible_to<Fraction, Int> && !std::convertible_to<Int, Fraction> && !std::convertible_to<Int, Complex> && !std::convertible_to<Complex, Fraction>);
// CASE conversion-documented: the documented conversions exist
static_assert(std::convertible_to<int, Int> && std::convertible_to<const char*, Int> && std::convertible_to<const char*, Str> && std::convertible_to<std::string, Str> && std::convertible_to<int, Fraction> && std::convertible_to<Fraction, double> && std::convertible_to<double, Complex> && std::convertible_to<int, Complex>);
static_assert(std::convertible_to<std::vector<int>, List<int>> && std::convertible_to<std::deque<int>, Deque<int>> && std::convertible_to<std::set<int>, Set<int>> && std::convertible_to<std::map<int, int>, Dict<int, int>>);
// CASE result-types: queries return what is documented, in-place operators return the object itself
static_assert(std::same_as<decltype(std::declval<List<int>&>() += 1), List<int>&> && std::same_as<decltype(std::declval<List<int>&>().sort()), List<int>&> && std::same_as<decltype(std::declval<List<int>&>().remove(0)), int> && std::same_as<decltype(std::declval<List<int>&>()[0]), int&> && std::same_as<decltype(std::declval<const List<int>&>()[0]), const int&>);
static_assert(std::same_as<decltype(std::declval<Set<int>&>() &= std::declval<Set<int>&>()), Set<int>&> && std::same_as<decltype(std::declval<Dict<int, Str>&>().keys()), Set<int>> && std::same_as<decltype(std::declval<Dict<int, Str>&>().values()), Set<Str>> && std::same_as<decltype(std::declval<const List<int>&>().size()), int> && std::same_as<decltype(std::declval<const List<int>&>().index(1)), int>);
// CASE rejected-comparators: a filter predicate must be a predicate and an iterator argument an iterator
static_assert(rejects<List<int>>([](auto& l) requires requires { l.extend(1, 2); } {}) && !std::constructible_from<List<Bare>, int, int> && rejects<Deque<int>>([](auto& l) requires requires { l.extend_back(1, 2); } {}) && rejects<Set<int>>([](auto& l) requires requires { l.extend(1, 2); } {}) && rejects<Dict<int, int>>([](auto& l) requires requires { l.extend(1, 2); } {}));
#else
// every case here must be rejected by the compiler
// CASE tuple-get-end: element access past the end of a tuple
void tuple_get_end(const Tuple<int, double>& t) { (void)t.get<2>(); }
// CASE tuple-get-far: element access far past the end of a tuple
void tuple_get_far(const Tuple<int, double>& t) { (void)t.get<7>(); }
// CASE tuple-get-negative: negative element index of a tuple
void tuple_get_negative(const Tuple<int, double>& t) { (void)t.get<-1>(); }
// CASE tuple-get-negative-first: negative element index of a one-element tuple
void tuple_get_negative_first(const Tuple<int>& t) { (void)t.get<-1>(); }
// CASE tuple-get-single: element access past the end of a one-element tuple
void tuple_get_single(const Tuple<int>& t) { (void)t.get<1>(); }
// CASE tuple-get-empty: element access of an empty tuple
void tuple_get_empty(const Tuple<>& t) { (void)t.get<0>(); }
// CASE tuple-rest-empty: rest of an empty tuple
void tuple_rest_empty(const Tuple<>& t) { (void)t.rest(); }
// CASE tuple-arity: constructing a tuple from too few elements
void tuple_arity() { Tuple<int, Bare> t(1); }
// CASE tuple-assign-element: assigning to an element of a tuple
void tuple_assign_element(Tuple<Bare, Bare>& t, const Bare& e) { t.get<0>().v = 1; t.template get<1>().v = 2; }
// CASE list-map-const: map on a const list
void list_map_const(const List<int>& l) { l.map([](int& x) { x = 1; }); }
// CASE list-filter-const: filter on a const list
void list_filter_const(const List<int>& l) { l.filter([](int x) { return x > 1; }); }
// CASE set-unordered: a set of a type without an order
void set_unordered(Set<Bare>& s, const Bare& e) { s.add(e); }
// CASE hash-list: a list as a key of a hashed container with the default hash
void hash_list() { std::unordered_set<List<int>> s; }
#endif
// CASE end: end
