// controls: bad__ algorithms behave differently without a visitor, with the empty or with an unknown one; good_ do not
#include "../flow.hxx"
#include <typeinfo>
#include <type_traits>
struct Base { int n_; double x_; double value() const { return x_; } double bound() const { return x_; } typedef double ValueType; void reset() { x_ = n_; } };
struct BadState : Base { typedef opengm::visitors::EmptyVisitor<BadState> EmptyVisitorType; int infer() { n_ = 0; EmptyVisitorType v; return infer(v); } template<class V> int infer(V& v) { v.begin(*this); while (n_-- > 0) { x_ *= 2; if (v(*this)) break; } v.end(*this); return 0; } };
struct BadType : Base { typedef opengm::visitors::EmptyVisitor<BadType> EmptyVisitorType; int infer() { EmptyVisitorType v; return infer(v); } template<class V> int infer(V& v) { v.begin(*this); while (n_-- > 0) { if (std::is_same<V, EmptyVisitorType>::value) x_ += 1; else x_ *= 2; if (v(*this)) break; } v.end(*this); return 0; } };
struct BadTypeid : Base { typedef opengm::visitors::EmptyVisitor<BadTypeid> EmptyVisitorType; int infer() { EmptyVisitorType v; return infer(v); } template<class V> int infer(V& v) { v.begin(*this); while (n_-- > 0) { x_ *= 2; if (v(*this)) break; if (typeid(V) == typeid(EmptyVisitorType)) break; } v.end(*this); return 0; } };
struct BadResult : Base { typedef opengm::visitors::EmptyVisitor<BadResult> EmptyVisitorType; int infer() { EmptyVisitorType v; infer(v); return 0; } template<class V> int infer(V& v) { v.begin(*this); while (n_-- > 0) { x_ *= 2; if (v(*this)) return 2; } v.end(*this); return 1; } };
struct BadTwice : Base { typedef opengm::visitors::EmptyVisitor<BadTwice> EmptyVisitorType; int infer() { EmptyVisitorType v; if (n_ > 7) infer(v); return infer(v); } template<class V> int infer(V& v) { v.begin(*this); while (n_-- > 0) { x_ *= 2; if (v(*this)) return 2; } v.end(*this); return 1; } };
template<class V> struct Steps { static int get(int n) { return n; } };
template<class S> struct Steps<opengm::visitors::EmptyVisitor<S> > { static int get(int n) { return n < 5 ? n : 5; } };
struct BadHelper : Base { typedef opengm::visitors::EmptyVisitor<BadHelper> EmptyVisitorType; int infer() { EmptyVisitorType v; return infer(v); } template<class V> __attribute__((noinline)) bool step(V& v, int i) { x_ += i; return v(*this) != 0 || i > Steps<V>::get(n_); } template<class V> int infer(V& v) { v.begin(*this); for (int i = 0; i < n_; ++i) if (step(v, i)) break; v.end(*this); return 1; } };
struct Good : Base { typedef opengm::visitors::EmptyVisitor<Good> EmptyVisitorType; int infer() { EmptyVisitorType v; int r = infer(v); return r; } template<class V> int infer(V& v) { v.begin(*this); while (n_-- > 0) { x_ *= 2; if (v(*this)) return 2; } v.end(*this); return 1; } };
struct GoodShared : Base { typedef opengm::visitors::EmptyVisitor<GoodShared> EmptyVisitorType; int infer() { EmptyVisitorType v; return inferImpl(v); } template<class V> int infer(V& v) { return inferImpl(v); } template<class V> int inferImpl(V& v) { v.begin(*this); while (n_-- > 0) { if (step(v)) return 2; } v.end(*this); return 1; } template<class V> bool step(V& v) { x_ *= 2; const bool stop = v(*this) != 0; return stop; } };
struct GoodReset : Base { typedef opengm::visitors::EmptyVisitor<GoodReset> EmptyVisitorType; int infer() { EmptyVisitorType visitor; return this->infer(visitor); } template<class V> int infer(V& v) { this->reset(); v.begin(*this); int r = 0; do { x_ *= 2; r = v(*this); if (r == 1) return 2; } while (r == 0 && n_-- > 0); v.end(*this); return 1; } };
ALG(bad__state, BadState) ALG(bad__type, BadType) ALG(bad__typeid, BadTypeid) ALG(bad__result, BadResult) ALG(bad__twice, BadTwice) ALG(bad__helper, BadHelper) ALG(good_plain, Good) ALG(good_shared, GoodShared) ALG(good_reset, GoodReset)
