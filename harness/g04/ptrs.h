#include <string>
#include <vector>
#ifdef _CLASSDESC
#pragma graphnode GN
#pragma treenode TN
#endif
struct GN {int id; std::string s; GN *l, *r; GN* a[2]; double d; GN(): id(0), l(0), r(0), d(0) {a[0]=a[1]=0;}};
struct TN {int id; TN *l, *r; std::vector<int> v; TN(): id(0), l(0), r(0) {}};
struct RN {int id; std::string s; classdesc::ref<RN> l, r; RN(): id(0) {}};
struct Obj: public classdesc::Object<Obj> {int n; std::string s; Obj(): n(0) {}};
struct Obj2: public classdesc::Object<Obj2,Obj> {std::vector<std::string> v;};
struct Holder4 {std::vector<classdesc::shared_ptr<Obj> > v; classdesc::shared_ptr<Obj> o; classdesc::poly<Obj> p; int last; Holder4(): last(0) {}};
struct PB: public classdesc::PolyBase<int>, virtual public classdesc::PolyPackBase {int b; static PB* create(int); PB(): b(0) {}};
template <int t> struct PD: public classdesc::Poly<PD<t>,PB>, public classdesc::PolyPack<PD<t> > {int d; std::string s; PD(): d(0) {} int type() const {return t;}};
inline PB* PB::create(int t) {switch (t) {case 0: return new PD<0>; case 1: return new PD<1>; case 2: return new PD<2>;} throw classdesc::exception("bad type");}
