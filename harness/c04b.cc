// Hostile bytes for pointer structures, object handles and iterators.
#include "ref.h"
#include "object.h"
#include "poly.h"
#include "polyBase.h"
#include "polyPackBase.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "ops.h"
#include "h_hostile.h"
#include "ptrs.h"
#include "gen4.cd"
#include "classdesc_epilogue.h"
#include <set>
using namespace classdesc;
template <class N> struct Del {std::vector<N*> all; ~Del() {for (size_t i=0; i<all.size(); ++i) delete all[i];}};
static void fill(Rng& r, GN& n) {n.id=r.below(100); Ops<std::string>::gen(r,n.s); n.d=r.below(9);}
static void fill(Rng& r, TN& n) {n.id=r.below(100); n.v.resize(r.below(4));}
template <class N> N* build(Rng& r, Del<N>& d, unsigned k, bool tree) {
  for (unsigned i=0; i<k; ++i) {d.all.push_back(new N); fill(r,*d.all.back());}
  for (unsigned i=0; i<k; ++i) {N*& q=r.coin()? d.all[i]->l: d.all[i]->r; if (tree) {if (i+1<k) q=d.all[i+1+r.below(k-i-1)];} else q=d.all[r.below(k)];}
  return k? d.all[0]: 0;
}
static void link(Rng& r, std::vector<GN*>& v) {for (size_t i=0; i<v.size(); ++i) v[i]->a[r.below(2)]=v[r.below(v.size())];}
static void link(Rng&, std::vector<TN*>&) {}
static long sum(GN* n, std::set<GN*>& s) { // touches everything reachable
  if (!n || !s.insert(n).second || s.size()>5000) return 0; long t=n->id+n->s.size(); for (size_t i=0; i<n->s.size(); ++i) t+=n->s[i];
  return t+sum(n->l,s)+sum(n->r,s)+sum(n->a[0],s)+sum(n->a[1],s);
}
static long sum(TN* n, std::set<TN*>& s) {if (!n || !s.insert(n).second) return 0; long t=n->id; for (size_t i=0; i<n->v.size(); ++i) t+=n->v[i]; return t+sum(n->l,s)+sum(n->r,s);}
// the hostile bytes in an exactly sized block
template <class B> void load(B& b, const std::string& s) {b.resize(s.size()); if (!s.empty()) memcpy(b.data(),s.data(),s.size());}
template <class B> std::string hostile(Rng& r, B& g, const char* where) {
  std::string s=mutate(r,std::string(g.data()? g.data(): "",g.size())); report().distinct(s); report().count("hostile_inputs");
  report().progress(std::string(where)+Report::esc(s.substr(0,500))); return s;
}
static void outcome(bool t) {report().count("checks"); report().count(t? "rejected": "accepted");}
static volatile long sink;
template <class N, class B> void ptrs(Rng& r, const char* where, bool tree) {
  Del<N> d; N* root=build(r,d,1+r.below(8),tree); if (!tree) link(r,d.all);
  B g; g.recur_max=r.coin()? 500: 3; g<<*root; std::string s=hostile(r,g,where);
  B b; load(b,s); N x; bool t=false;
  try {b>>x;} catch (const std::exception&) {t=true;}
  outcome(t);
  if (!t) {std::set<N*> seen; sink=sum(&x,seen);}
  g.reseto(); N y; g>>y; CHECK(g.pos()==g.size(),"good-data-refused-afterwards",where); // later operations are unaffected
  std::set<N*> sy; sink=sum(&y,sy);
}
template <class B> void refs(Rng& r, const char* where) {
  classdesc::ref<RN> a[4]; for (int i=0; i<4; ++i) {a[i]->id=i; Ops<std::string>::gen(r,a[i]->s);}
  for (int i=0; i<4; ++i) {int j=i+1+r.below(3), k=i+1+r.below(3); if (j<4) a[i]->l=a[j]; if (k<4) a[i]->r=a[k];} // acyclic
  B g; g<<a[0]; std::string s=hostile(r,g,where); B b; load(b,s); bool t=false;
  // corrupt links may form cycles of counted references, which are reclaimed here
  std::vector<classdesc::ref<RN> > st; std::set<RN*> seen; classdesc::ref<RN> x;
  try {b>>x;} catch (const std::exception&) {t=true;}
  if (x) st.push_back(x);
  for (size_t i=0; i<st.size() && i<10000; ++i) {classdesc::ref<RN> n=st[i]; if (!seen.insert(&*n).second) continue; sink+=n->id+n->s.size(); if (n->l) st.push_back(n->l); if (n->r) st.push_back(n->r);}
  for (size_t i=0; i<st.size(); ++i) {st[i]->l.nullify(); st[i]->r.nullify();}
  outcome(t);
}
template <class B> void objs(Rng& r, const char* where) {
  Holder4 h; for (unsigned i=r.below(5); i; --i) if (r.coin(4)) h.v.push_back(classdesc::shared_ptr<Obj>()); else {classdesc::shared_ptr<Obj> o(r.coin()? new Obj: new Obj2); o->n=r.below(99); Ops<std::string>::gen(r,o->s); h.v.push_back(o);}
  if (r.coin()) h.o.reset(new Obj2); if (r.coin()) h.p.addObject<Obj2>(); h.last=7;
  B g; g<<h; std::string s=hostile(r,g,where); B b; load(b,s); Holder4 x; if (r.coin()) x.o.reset(new Obj); bool t=false;
  try {b>>x;} catch (const std::exception&) {t=true;}
  for (size_t i=0; i<x.v.size(); ++i) if (x.v[i]) sink+=x.v[i]->n+x.v[i]->s.size();
  if (x.o) sink+=x.o->n; if (x.p) sink+=x.p->n; outcome(t);
  {pack_t again; again<<x;} g.reseto(); g>>x; CHECK(x.last==7 && x.v.size()==h.v.size() && g.pos()==g.size(),"good-data-refused-afterwards",where);
}
template <class B> void polys(Rng& r, const char* where) {
  typedef std::vector<classdesc::shared_ptr<PB> > V; V h; for (unsigned i=1+r.below(5); i; --i) h.push_back(r.coin(4)? classdesc::shared_ptr<PB>(): classdesc::shared_ptr<PB>(PB::create(r.below(3))));
  B g; g<<h; std::string s=hostile(r,g,where); B b; load(b,s); V x; bool t=false;
  try {b>>x;} catch (const std::exception&) {t=true;}
  for (size_t i=0; i<x.size(); ++i) if (x[i]) sink+=long(x[i]->b)+x[i]->type();
  outcome(t); {pack_t again; again<<x;} g.reseto(); g>>x; CHECK(x.size()==h.size() && g.pos()==g.size(),"good-data-refused-afterwards",where);
}
template <class C, class B> void iters(Rng& r, const char* where) {
  C c; for (unsigned n=r.below(6); n; --n) c.insert(c.end(),typename C::value_type()); unsigned k=r.below(c.size()+1);
  Iterator<C> a(c); typename C::iterator p=c.begin(); for (unsigned i=0; i<k; ++i) ++p; a=p;
  B g; g<<a; Iterator<C> q(c); q=c.begin(); g>>q; CHECK(q.iter()==p && g.pos()==g.size(),"iterator-position",where);
  std::string s=hostile(r,g,where); B b; load(b,s); Iterator<C> x(c), z; x=c.begin(); bool t=false;
  try {b>>x;} catch (const std::exception&) {t=true;}
  typename C::iterator e=x; bool ok=false; for (typename C::iterator i=c.begin(); ; ++i) {if (i==e) ok=true; if (i==c.end()) break;}
  CHECK(ok,"iterator-outside-container",where); outcome(t);
  b.reseto(); try {b>>z;} catch (const std::exception&) {}
}
template <class B> void all(Rng& r, std::string w) {
  switch (r.below(6)) {
  case 0: ptrs<GN,B>(r,("graph|"+w).c_str(),false); break;
  case 1: ptrs<TN,B>(r,("tree|"+w).c_str(),true); break;
  case 2: refs<B>(r,("ref|"+w).c_str()); break;
  case 3: objs<B>(r,("object|"+w).c_str()); break;
  case 4: polys<B>(r,("poly|"+w).c_str()); break;
  default: switch (r.below(3)) {case 0: iters<std::vector<int>,B>(r,("iter|"+w).c_str()); break; case 1: iters<std::list<double>,B>(r,("iter|"+w).c_str()); break; default: iters<std::multiset<int>,B>(r,("iter|"+w).c_str());}
  }
}
int main(int argc, char** argv) {
  uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]), from=atoi(argv[3]);
  {Obj a; Obj2 b; a.type(); b.type(); poly<Obj> p; p.addObject<Obj>(); p.addObject<Obj2>();}
  for (unsigned i=from; i<n; ++i) {char w[32]; snprintf(w,32,"%u|",i); Rng r(seed*999983+i); r.long32=true; if (r.coin(3)) all<xdr_pack>(r,w); else all<pack_t>(r,w);}
  std::vector<Obj*>& tt=SimpleTypeTable<Obj>::data; for (size_t i=0; i<tt.size(); ++i) delete tt[i]; tt.clear();
  report().done(); return 0;
}
