// Instantiates every template of pyincpp for analysis. Never linked or run.
#include "pyincpp.hpp"

// A program that needs more of the element type than == and < is analysed with a fully ordered element type (VT_RICH).
#ifdef VT_RICH
#define RICH(X) std::weak_ordering operator<=>(const X&) const;
#define RICHF(X) std::weak_ordering operator<=>(const X&, const X&);
#else
#define RICH(X)
#define RICHF(X)
#endif

namespace vt
{
// Opaque element type: all the library may do is copy, move, compare, print and hash it.
struct E
{
    E();
    E(const E&);
    E(E&&) noexcept;
    E& operator=(const E&);
    E& operator=(E&&) noexcept;
    ~E();
    bool operator==(const E&) const;
    bool operator<(const E&) const;
    RICH(E)
    int tag;
};
std::ostream& operator<<(std::ostream&, const E&);
struct K
{
    K();
    K(const K&);
    K(K&&) noexcept;
    K& operator=(const K&);
    K& operator=(K&&) noexcept;
    ~K();
    bool operator==(const K&) const;
    bool operator<(const K&) const;
    RICH(K)
    int tag;
};
std::ostream& operator<<(std::ostream&, const K&);
using It = std::vector<E>::const_iterator;
using Pit = std::vector<std::pair<const K, E>>::const_iterator;
bool pred(E&);
struct Act { void operator()(E&) const; };
struct Pred { bool operator()(E&) const; };
struct X0 { int a; }; struct X1 { int a; }; struct X2 { int a; };
#define ELT(X) bool operator==(const X&, const X&); bool operator<(const X&, const X&); std::ostream& operator<<(std::ostream&, const X&); RICHF(X)
ELT(X0) ELT(X1) ELT(X2)
}

template class pyincpp::List<vt::E>;
template class pyincpp::Deque<vt::E>;
template class pyincpp::Set<vt::E>;
template class pyincpp::Dict<vt::K, vt::E>;
template class pyincpp::Tuple<vt::X0>;
template class pyincpp::Tuple<vt::X0, vt::X1>;
template class pyincpp::Tuple<vt::X0, vt::X1, vt::X2>;

namespace vt
{
using namespace pyincpp;

// uses of the tuple interface as functions of the stored elements
namespace w
{
inline auto t1get0(const X0& a) { return Tuple<X0>(a).get<0>(); }
inline auto t2get0(const X0& a, const X1& b) { return Tuple<X0, X1>(a, b).get<0>(); }
inline auto t2get1(const X0& a, const X1& b) { return Tuple<X0, X1>(a, b).get<1>(); }
inline auto t3get0(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).get<0>(); }
inline auto t3get1(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).get<1>(); }
inline auto t3get2(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).get<2>(); }
inline auto s4get0(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).get<0>(); }
inline auto s4get1(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).get<1>(); }
inline auto s4get2(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).get<2>(); }
inline auto s4get3(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).get<3>(); }
inline auto m3get1(const X0& a, const X1& b, const X2& c) { return pyincpp::make_tuple(a, b, c).get<1>(); }
inline auto m3get2(const X0& a, const X1& b, const X2& c) { return pyincpp::make_tuple(a, b, c).get<2>(); }
inline auto m3get0(const X0& a, const X1& b, const X2& c) { return pyincpp::make_tuple(a, b, c).get<0>(); }
inline auto r3get0(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).rest().get<0>(); }
inline auto r3get1(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).rest().get<1>(); }
inline auto r3r0(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).rest().rest().get<0>(); }
inline auto s4r2(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).rest().get<2>(); }
inline auto s4r0(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).rest().get<0>(); }
inline int size0() { return Tuple<>().size(); }
inline int size1(const X0& a) { return Tuple<X0>(a).size(); }
inline int size2(const X0& a, const X1& b) { return Tuple<X0, X1>(a, b).size(); }
inline int size3(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).size(); }
inline int size4(const X0& a, const X0& b, const X0& c, const X0& d) { return Tuple<X0, X0, X0, X0>(a, b, c, d).size(); }
inline int rsize3(const X0& a, const X1& b, const X2& c) { return Tuple<X0, X1, X2>(a, b, c).rest().size(); }
inline int rsize1(const X0& a) { return Tuple<X0>(a).rest().size(); }
inline bool eq0() { return Tuple<>() == Tuple<>(); }
inline bool eq1(const X0& a, const X0& b) { return Tuple<X0>(a) == Tuple<X0>(b); }
inline bool eq2(const X0& a, const X1& b, const X0& c, const X1& d) { return Tuple<X0, X1>(a, b) == Tuple<X0, X1>(c, d); }
inline bool eq3(const X0& a, const X1& b, const X2& c, const X0& d, const X1& e, const X2& f) { return Tuple<X0, X1, X2>(a, b, c) == Tuple<X0, X1, X2>(d, e, f); }
inline bool eqs3(const X0& a, const X0& b, const X0& c, const X0& d, const X0& e, const X0& f) { return Tuple<X0, X0, X0>(a, b, c) == Tuple<X0, X0, X0>(d, e, f); }
inline bool ne0() { return Tuple<>() != Tuple<>(); }
inline bool ne1(const X0& a, const X0& b) { return Tuple<X0>(a) != Tuple<X0>(b); }
inline bool ne2(const X0& a, const X1& b, const X0& c, const X1& d) { return Tuple<X0, X1>(a, b) != Tuple<X0, X1>(c, d); }
inline bool ne3(const X0& a, const X1& b, const X2& c, const X0& d, const X1& e, const X2& f) { return Tuple<X0, X1, X2>(a, b, c) != Tuple<X0, X1, X2>(d, e, f); }
inline bool leneq01(const X0& a) { return Tuple<>() == Tuple<X0>(a); }
inline bool leneq10(const X0& a) { return Tuple<X0>(a) == Tuple<>(); }
inline bool leneq12(const X0& a, const X0& b, const X0& c) { return Tuple<X0>(a) == Tuple<X0, X0>(b, c); }
inline bool leneq21(const X0& a, const X0& b, const X0& c) { return Tuple<X0, X0>(a, b) == Tuple<X0>(c); }
inline bool leneq02(const X0& a, const X0& b) { return Tuple<>() == Tuple<X0, X0>(a, b); }
inline bool leneq20(const X0& a, const X0& b) { return Tuple<X0, X0>(a, b) == Tuple<>(); }
inline bool lenne01(const X0& a) { return Tuple<>() != Tuple<X0>(a); }
inline bool lenne10(const X0& a) { return Tuple<X0>(a) != Tuple<>(); }
inline bool lenne12(const X0& a, const X0& b, const X0& c) { return Tuple<X0>(a) != Tuple<X0, X0>(b, c); }
inline bool lenne21(const X0& a, const X0& b, const X0& c) { return Tuple<X0, X0>(a, b) != Tuple<X0>(c); }
inline bool typeq1(const X0& a, const X1& b) { return Tuple<X0>(a) == Tuple<X1>(b); }
inline bool typeq2(const X0& a, const X1& b, const X0& c, const X2& d) { return Tuple<X0, X1>(a, b) == Tuple<X0, X2>(c, d); }
inline bool typeq3(const X0& a, const X1& b, const X1& c, const X0& d) { return Tuple<X0, X1>(a, b) == Tuple<X1, X0>(c, d); }
inline bool typne2(const X0& a, const X1& b, const X0& c, const X2& d) { return Tuple<X0, X1>(a, b) != Tuple<X0, X2>(c, d); }
#define CMP(N, T) \
    inline bool N##lt(const T& a, const T& b) { return a < b; } \
    inline bool N##gt(const T& a, const T& b) { return a > b; } \
    inline bool N##le(const T& a, const T& b) { return a <= b; } \
    inline bool N##ge(const T& a, const T& b) { return a >= b; } \
    inline bool N##eq(const T& a, const T& b) { return a == b; } \
    inline bool N##ne(const T& a, const T& b) { return a != b; }
CMP(fr, Fraction)
CMP(in, Int)
CMP(st, Str)
CMP(li, List<E>)
CMP(de, Deque<E>)
CMP(se, Set<E>)
inline void print0(std::ostream& os) { os << Tuple<>(); }
inline void print1(std::ostream& os, const X0& a) { os << Tuple<X0>(a); }
inline void print2(std::ostream& os, const X0& a, const X1& b) { os << Tuple<X0, X1>(a, b); }
inline void print3(std::ostream& os, const X0& a, const X1& b, const X2& c) { os << Tuple<X0, X1, X2>(a, b, c); }
inline void print4(std::ostream& os, const X0& a, const X0& b, const X0& c, const X0& d) { os << Tuple<X0, X0, X0, X0>(a, b, c, d); }
// longer tuples
inline auto t5get0(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).get<0>(); }
inline auto t5get1(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).get<1>(); }
inline auto t5get2(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).get<2>(); }
inline auto t5get3(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).get<3>(); }
inline auto t5get4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).get<4>(); }
inline auto r5get0(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).rest().get<0>(); }
inline auto r5get1(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).rest().get<1>(); }
inline auto r5get2(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).rest().get<2>(); }
inline auto r5get3(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).rest().get<3>(); }
inline int size5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4).size(); }
inline void print5(std::ostream& os, const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4) { os << Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4); }
inline auto t6get0(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).get<0>(); }
inline auto t6get1(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).get<1>(); }
inline auto t6get2(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).get<2>(); }
inline auto t6get3(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).get<3>(); }
inline auto t6get4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).get<4>(); }
inline auto t6get5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).get<5>(); }
inline auto r6get0(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).rest().get<0>(); }
inline auto r6get1(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).rest().get<1>(); }
inline auto r6get2(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).rest().get<2>(); }
inline auto r6get3(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).rest().get<3>(); }
inline auto r6get4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).rest().get<4>(); }
inline int size6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5).size(); }
inline void print6(std::ostream& os, const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5) { os << Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5); }
inline auto t8get0(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<0>(); }
inline auto t8get1(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<1>(); }
inline auto t8get2(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<2>(); }
inline auto t8get3(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<3>(); }
inline auto t8get4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<4>(); }
inline auto t8get5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<5>(); }
inline auto t8get6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<6>(); }
inline auto t8get7(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).get<7>(); }
inline auto r8get0(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<0>(); }
inline auto r8get1(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<1>(); }
inline auto r8get2(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<2>(); }
inline auto r8get3(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<3>(); }
inline auto r8get4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<4>(); }
inline auto r8get5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<5>(); }
inline auto r8get6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).rest().get<6>(); }
inline int size8(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7).size(); }
inline void print8(std::ostream& os, const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7) { os << Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7); }
inline bool eq4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X0& p4, const X1& p5, const X2& p6, const X0& p7) { return Tuple<X0, X1, X2, X0>(p0, p1, p2, p3) == Tuple<X0, X1, X2, X0>(p4, p5, p6, p7); }
inline bool ne4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X0& p4, const X1& p5, const X2& p6, const X0& p7) { return Tuple<X0, X1, X2, X0>(p0, p1, p2, p3) != Tuple<X0, X1, X2, X0>(p4, p5, p6, p7); }
inline bool eq5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X0& p5, const X1& p6, const X2& p7, const X0& p8, const X1& p9) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4) == Tuple<X0, X1, X2, X0, X1>(p5, p6, p7, p8, p9); }
inline bool ne5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X0& p5, const X1& p6, const X2& p7, const X0& p8, const X1& p9) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4) != Tuple<X0, X1, X2, X0, X1>(p5, p6, p7, p8, p9); }
inline bool eq6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7, const X2& p8, const X0& p9, const X1& p10, const X2& p11) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5) == Tuple<X0, X1, X2, X0, X1, X2>(p6, p7, p8, p9, p10, p11); }
inline bool ne6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7, const X2& p8, const X0& p9, const X1& p10, const X2& p11) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5) != Tuple<X0, X1, X2, X0, X1, X2>(p6, p7, p8, p9, p10, p11); }
inline bool eq8(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7, const X0& p8, const X1& p9, const X2& p10, const X0& p11, const X1& p12, const X2& p13, const X0& p14, const X1& p15) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7) == Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p8, p9, p10, p11, p12, p13, p14, p15); }
inline bool ne8(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7, const X0& p8, const X1& p9, const X2& p10, const X0& p11, const X1& p12, const X2& p13, const X0& p14, const X1& p15) { return Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4, p5, p6, p7) != Tuple<X0, X1, X2, X0, X1, X2, X0, X1>(p8, p9, p10, p11, p12, p13, p14, p15); }
inline bool leneq34(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6) { return Tuple<X0, X0, X0>(p0, p1, p2) == Tuple<X0, X0, X0, X0>(p3, p4, p5, p6); }
inline bool lenne34(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6) { return Tuple<X0, X0, X0>(p0, p1, p2) != Tuple<X0, X0, X0, X0>(p3, p4, p5, p6); }
inline bool leneq43(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6) { return Tuple<X0, X0, X0, X0>(p0, p1, p2, p3) == Tuple<X0, X0, X0>(p4, p5, p6); }
inline bool lenne43(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6) { return Tuple<X0, X0, X0, X0>(p0, p1, p2, p3) != Tuple<X0, X0, X0>(p4, p5, p6); }
inline bool leneq45(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8) { return Tuple<X0, X0, X0, X0>(p0, p1, p2, p3) == Tuple<X0, X0, X0, X0, X0>(p4, p5, p6, p7, p8); }
inline bool lenne45(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8) { return Tuple<X0, X0, X0, X0>(p0, p1, p2, p3) != Tuple<X0, X0, X0, X0, X0>(p4, p5, p6, p7, p8); }
inline bool leneq54(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8) { return Tuple<X0, X0, X0, X0, X0>(p0, p1, p2, p3, p4) == Tuple<X0, X0, X0, X0>(p5, p6, p7, p8); }
inline bool lenne54(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8) { return Tuple<X0, X0, X0, X0, X0>(p0, p1, p2, p3, p4) != Tuple<X0, X0, X0, X0>(p5, p6, p7, p8); }
inline bool leneq56(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8, const X0& p9, const X0& p10) { return Tuple<X0, X0, X0, X0, X0>(p0, p1, p2, p3, p4) == Tuple<X0, X0, X0, X0, X0, X0>(p5, p6, p7, p8, p9, p10); }
inline bool lenne56(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8, const X0& p9, const X0& p10) { return Tuple<X0, X0, X0, X0, X0>(p0, p1, p2, p3, p4) != Tuple<X0, X0, X0, X0, X0, X0>(p5, p6, p7, p8, p9, p10); }
inline bool leneq65(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8, const X0& p9, const X0& p10) { return Tuple<X0, X0, X0, X0, X0, X0>(p0, p1, p2, p3, p4, p5) == Tuple<X0, X0, X0, X0, X0>(p6, p7, p8, p9, p10); }
inline bool lenne65(const X0& p0, const X0& p1, const X0& p2, const X0& p3, const X0& p4, const X0& p5, const X0& p6, const X0& p7, const X0& p8, const X0& p9, const X0& p10) { return Tuple<X0, X0, X0, X0, X0, X0>(p0, p1, p2, p3, p4, p5) != Tuple<X0, X0, X0, X0, X0>(p6, p7, p8, p9, p10); }
inline bool typeql4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X0& p4, const X1& p5, const X2& p6, const X1& p7) { return Tuple<X0, X1, X2, X0>(p0, p1, p2, p3) == Tuple<X0, X1, X2, X1>(p4, p5, p6, p7); }
inline bool typnel4(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X0& p4, const X1& p5, const X2& p6, const X1& p7) { return Tuple<X0, X1, X2, X0>(p0, p1, p2, p3) != Tuple<X0, X1, X2, X1>(p4, p5, p6, p7); }
inline bool typeql5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X0& p5, const X1& p6, const X2& p7, const X0& p8, const X2& p9) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4) == Tuple<X0, X1, X2, X0, X2>(p5, p6, p7, p8, p9); }
inline bool typnel5(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X0& p5, const X1& p6, const X2& p7, const X0& p8, const X2& p9) { return Tuple<X0, X1, X2, X0, X1>(p0, p1, p2, p3, p4) != Tuple<X0, X1, X2, X0, X2>(p5, p6, p7, p8, p9); }
inline bool typeql6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7, const X2& p8, const X0& p9, const X1& p10, const X0& p11) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5) == Tuple<X0, X1, X2, X0, X1, X0>(p6, p7, p8, p9, p10, p11); }
inline bool typnel6(const X0& p0, const X1& p1, const X2& p2, const X0& p3, const X1& p4, const X2& p5, const X0& p6, const X1& p7, const X2& p8, const X0& p9, const X1& p10, const X0& p11) { return Tuple<X0, X1, X2, X0, X1, X2>(p0, p1, p2, p3, p4, p5) != Tuple<X0, X1, X2, X0, X1, X0>(p6, p7, p8, p9, p10, p11); }
}

// member templates and operators that are only instantiated by use
inline void use(List<E>& l, const List<E>& cl, Deque<E>& d, const Deque<E>& cd, Set<E>& s, const Set<E>& cs, Dict<K, E>& m, const Dict<K, E>& cm,
                It i, It j, Pit p, Pit q, std::ostream& os, std::istream& is, Int& n, const Int& cn, Str& t, const Str& ct, Fraction& f, const Fraction& cf,
                Complex& c, const Complex& cc, const E& e, const Tuple<X0, X1, X2>& t3, const Tuple<X0, X1>& t2, const Tuple<X0>& t1, const Tuple<>& t0)
{
    List<E> l2(i, j);
    Deque<E> d2(i, j);
    Set<E> s2(i, j);
    Dict<K, E> m2(p, q);
    l.extend(i, j);
    d.extend_back(i, j);
    d.extend_front(i, j);
    s.extend(i, j);
    m.extend(p, q);
    l.map(Act{});
    l.filter(Pred{});
    l.sort();
    os << cl << cd << cs << cm << cn << ct << cf << cc << t3 << t2 << t1 << t0;
    is >> n; is >> t; is >> f; is >> c;
    ct.format(e, cn);
    cn.to_integer<int>();
    (void)(cl == cl); (void)(cl < cl); (void)(cd == cd); (void)(cd < cd); (void)(cs == cs); (void)(cm == cm);
    (void)(cn == cn); (void)(cn < cn); (void)(ct == ct); (void)(ct < ct); (void)(cf == cf); (void)(cf < cf); (void)(cc == cc);
    (void)(t3 == t3); (void)(t3 == t2); (void)(t2 == t3); (void)(t3 != t3); (void)(t1 == t0); (void)(t0 == t1); (void)(t0 == t0); (void)(t0 != t1); (void)(t1 != t0);
    (void)(t2 == t2); (void)(t1 == t1); (void)(t3 != t2); (void)(t0 != t0);
    (void)(t2 == Tuple<X1, X0>(X1{}, X0{}));
    t3.get<0>(); t3.get<1>(); t3.get<2>(); t2.get<0>(); t2.get<1>(); t1.get<0>();
    t3.rest(); t3.size(); t0.size();
    pyincpp::make_tuple(X0{}, X1{}, X2{});
    pyincpp::make_tuple();
    (void)std::hash<Int>{}(cn); (void)std::hash<Str>{}(ct); (void)std::hash<Fraction>{}(cf); (void)std::hash<Complex>{}(cc);
    List<E> l3(cl); l3 = cl; List<E> l4(std::move(l3)); l3 = std::move(l4);
    Deque<E> d3(cd); d3 = cd; Deque<E> d4(std::move(d3)); d3 = std::move(d4);
    Set<E> s3(cs); s3 = cs; Set<E> s4(std::move(s3)); s3 = std::move(s4);
    Dict<K, E> m3(cm); m3 = cm; Dict<K, E> m4(std::move(m3)); m3 = std::move(m4);
}
}
