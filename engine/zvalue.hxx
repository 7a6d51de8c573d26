// Z: the value type of the obligations. Exact (integer) arithmetic with a top element, so that what an
// obligation proves is about the algorithm and not about floating-point rounding.
#ifndef OGM_ZVALUE_HXX
#define OGM_ZVALUE_HXX
#include <limits>
#include <type_traits>
#include <ostream>
struct Z {
   long v;
   Z() : v(0) {}
   template<class A, class = typename std::enable_if<std::is_arithmetic<A>::value>::type> Z(const A a) : v(static_cast<long>(a)) {}
   template<class A, class = typename std::enable_if<std::is_arithmetic<A>::value && !std::is_same<A,bool>::value>::type> explicit operator A() const { return static_cast<A>(v); }
   explicit operator bool() const { return v!=0; }
   Z& operator+=(const Z& o){ v+=o.v; return *this; }
   Z& operator-=(const Z& o){ v-=o.v; return *this; }
   Z& operator*=(const Z& o){ v*=o.v; return *this; }
   Z& operator/=(const Z& o){ v/=o.v; return *this; }
   Z operator-() const { Z r; r.v=-v; return r; }
   friend Z operator+(Z a,const Z& b){ a.v+=b.v; return a; }
   friend Z operator-(Z a,const Z& b){ a.v-=b.v; return a; }
   friend Z operator*(Z a,const Z& b){ a.v*=b.v; return a; }
   friend Z operator/(Z a,const Z& b){ a.v/=b.v; return a; }
   friend bool operator<(const Z& a,const Z& b){ return a.v<b.v; }
   friend bool operator>(const Z& a,const Z& b){ return a.v>b.v; }
   friend bool operator<=(const Z& a,const Z& b){ return a.v<=b.v; }
   friend bool operator>=(const Z& a,const Z& b){ return a.v>=b.v; }
   friend bool operator==(const Z& a,const Z& b){ return a.v==b.v; }
   friend bool operator!=(const Z& a,const Z& b){ return a.v!=b.v; }
   friend std::ostream& operator<<(std::ostream& o,const Z& a){ return o<<a.v; }
};
namespace std {
template<> struct numeric_limits<Z> {
   static const bool is_specialized=true, has_infinity=true, is_integer=false, is_signed=true, is_exact=true, has_quiet_NaN=false;
   static Z infinity(){ return Z(1L<<60); }
   static Z max(){ return Z(1L<<59); }
   static Z min(){ return Z(1L); }
   static Z lowest(){ return Z(-(1L<<59)); }
   static Z quiet_NaN(){ return Z(1L<<61); }
   static Z epsilon(){ return Z(0L); }
};
inline Z abs(const Z& a){ return a.v<0 ? Z(-a.v) : a; }
inline Z fabs(const Z& a){ return a.v<0 ? Z(-a.v) : a; }
inline bool isnan(const Z&){ return false; }
inline bool isinf(const Z&){ return false; }
}
#endif
