// Oracle for polymorphic handles; included behind the generated hierarchy, before its ops.
#include "ops.h"
#include <typeinfo>
typedef classdesc::shared_ptr<Base> SP;
static VTLS int polyDepth=0; static VTLS bool allowNullInContainers=true; static VTLS int polyBudget=60;
inline void genDyn(Rng& r, Base& b); inline void showDyn(std::ostream& o, Base& b); inline Base* mk(unsigned);
extern const unsigned ncls;
inline void gen_int(Rng& r, int& x) {vgen(r,x);} inline void show_int(std::ostream& o, int x) {vshow(o,x);}
inline void gen_llong(Rng& r, long long& x) {vgen(r,x);} inline void show_llong(std::ostream& o, long long x) {vshow(o,x);}
inline void gen_bool(Rng& r, bool& x) {vgen(r,x);} inline void show_bool(std::ostream& o, bool x) {vshow(o,x);}
inline void gen_double(Rng& r, double& x) {x=int(r.next())/64.0;} inline void show_double(std::ostream& o, double x) {vshow(o,x);}
inline void gen_string(Rng& r, std::string& x) {vgen(r,x);} inline void show_string(std::ostream& o, const std::string& x) {vshow(o,x);}
inline void gen_vint(Rng& r, std::vector<int>& x) {vgen(r,x);} inline void show_vint(std::ostream& o, const std::vector<int>& x) {vshow(o,x);}
inline void gen_arr(Rng& r, short (&x)[3]) {for (int i=0; i<3; ++i) vgen(r,x[i]);} inline void show_arr(std::ostream& o, short (&x)[3]) {for (int i=0; i<3; ++i) o<<x[i]<<",";}
inline void gen_inner(Rng& r, Inner& x) {vgen(r,x.a); vgen(r,x.b);} inline void show_inner(std::ostream& o, const Inner& x) {o<<"("; vshow(o,x.a); vshow(o,x.b); o<<")";}
inline void gen_enum(Rng& r, Colour& x) {static const Colour c[]={red,green,blue}; x=c[r.below(3)];} inline void show_enum(std::ostream& o, Colour x) {o<<int(x);}
inline void gen_handle(Rng& r, SP& x) {
  if (r.coin(4) || polyDepth>3 || polyBudget<=0) {x.reset(); return;}
  ++polyDepth; --polyBudget; x.reset(mk(r.below(ncls))); genDyn(r,*x); --polyDepth;
}
inline void gen_item(Rng& r, SP& x) {do gen_handle(r,x); while (!x && !allowNullInContainers && polyBudget>0 && polyDepth<=3); }
inline void show_handle(std::ostream& o, const SP& x) {if (x.get()) {o<<"->"; showDyn(o,*x);} else o<<"null";}
template <class C> void genSeq(Rng& r, C& x) {x.clear(); unsigned n=r.below(4); for (unsigned i=0; i<n; ++i) {SP p; gen_item(r,p); if (p||allowNullInContainers) x.push_back(p);}}
template <class C> void showSeq(std::ostream& o, const C& x) {o<<"["; for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {show_handle(o,*i); o<<",";} o<<"]";}
inline void gen_handles(Rng& r, std::vector<SP>& x) {genSeq(r,x);} inline void show_handles(std::ostream& o, const std::vector<SP>& x) {showSeq(o,x);}
inline void gen_hlist(Rng& r, std::list<SP>& x) {genSeq(r,x);} inline void show_hlist(std::ostream& o, const std::list<SP>& x) {showSeq(o,x);}
inline void gen_hmap(Rng& r, std::map<int,SP>& x) {x.clear(); unsigned n=r.below(4); for (unsigned i=0; i<n; ++i) {SP p; gen_item(r,p); if (p||allowNullInContainers) x[r.below(50)]=p;}}
inline void show_hmap(std::ostream& o, const std::map<int,SP>& x) {o<<"{"; for (std::map<int,SP>::const_iterator i=x.begin(); i!=x.end(); ++i) {o<<i->first<<":"; show_handle(o,i->second); o<<",";} o<<"}";}
inline std::string str(const SP& p) {std::ostringstream o; show_handle(o,p); return o.str();}
inline std::string str(const std::vector<SP>& p) {std::ostringstream o; showSeq(o,p); return o.str();}
inline std::string str(const std::list<SP>& p) {std::ostringstream o; showSeq(o,p); return o.str();}
inline std::string str(const std::map<int,SP>& p) {std::ostringstream o; show_hmap(o,p); return o.str();}
