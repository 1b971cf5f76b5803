// threads working on independent graphs, trees, references, enums and functional objects
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "ref.h"
#include "function.h"
#include "multiArray.h"
#include "Realloc.h"
#include "gen.h"
#include "gen.cd"
#include "classdesc_epilogue.h"
#include "h_thr.h"
#include <math.h>
using namespace classdesc;
template <class N> std::vector<N> nodes(Rng& r, size_t n) {std::vector<N> v(n); for (size_t i=0; i<n; ++i) {v[i].id=int(i); Ops<std::string>::gen(r,v[i].s); v[i].l=r.coin(4)? 0: &v[r.below(n)]; v[i].r=r.coin(4)? 0: &v[r.below(n)];} return v;}
static std::string walk(GN* n, std::map<GN*,int>& seen) {
  if (!n) return "0"; if (seen.count(n)) {return "^"+vstr(seen[n]);}
  int k=int(seen.size()); seen[n]=k; return "("+vstr(n->id)+n->s+"/"+vstr(int(n->c))+walk(n->l,seen)+walk(n->r,seen)+walk(n->a[0],seen)+walk(n->a[1],seen)+")";
}
static void graph(uint64_t seed, TLog& log)
{
  Rng r(seed); size_t n=1+r.below(30); std::vector<GN> v=nodes<GN>(r,n); for (size_t i=0; i<n; ++i) {v[i].c=r.coin()? green: blue; v[i].a[r.below(2)]=&v[r.below(n)];}
  pack_t b; b.recur_max=r.coin()? 2+r.below(6): 500; GN* root=&v[0]; b<<root; log.add(bytes(b)); GN* y=0; b>>y; std::map<GN*,int> s; log.add(walk(y,s));
  std::map<GN*,int> s0; log.add(walk(root,s0));
}
static std::string walk(GM* n, std::map<GM*,int>& seen) {
  if (!n) return "0"; if (seen.count(n)) return "^"+vstr(seen[n]);
  int k=int(seen.size()); seen[n]=k; std::string o="("+vstr(n->id); for (size_t i=0; i<n->v.size(); ++i) o+=walk(n->v[i],seen); return o+")";
}
static void graphv(uint64_t seed, TLog& log)
{
  Rng r(seed); size_t n=1+r.below(20); std::vector<GM> v(n); for (size_t i=0; i<n; ++i) {v[i].id=int(i); for (unsigned k=r.below(4); k; --k) v[i].v.push_back(r.coin(5)? 0: &v[r.below(n)]);}
  pack_t b; GM* root=&v[0]; b<<root; GM* y=0; b>>y; std::map<GM*,int> s; log.add(walk(y,s)); log.add(bytes(b));
}
static std::string walk(TN* n) {return n? "("+vstr(n->id)+n->s+walk(n->l)+walk(n->r)+")": "0";}
static void tree(uint64_t seed, TLog& log)
{
  Rng r(seed); size_t n=1+r.below(20); std::vector<TN> v(n); for (size_t i=0; i<n; ++i) {v[i].id=int(i); Ops<std::string>::gen(r,v[i].s); if (i) {TN* p=&v[r.below(unsigned(i))]; (r.coin()? p->l: p->r)=&v[i];}}
  pack_t b; TN* root=&v[0]; b<<root; TN* y=0; b>>y; log.add(walk(y)); log.add(bytes(b));
}
static std::string walk(ref<RN>& n, std::map<RN*,int>& seen) {
  if (!n) return "0"; if (seen.count(&*n)) return "^"+vstr(seen[&*n]);
  int k=int(seen.size()); seen[&*n]=k; return "("+vstr(n->id)+walk(n->l,seen)+walk(n->r,seen)+")";
}
static void refs(uint64_t seed, TLog& log)
{
  Rng r(seed); size_t n=1+r.below(15); std::vector<ref<RN> > v(n);
  for (size_t i=0; i<n; ++i) v[i]->id=int(i); for (size_t i=0; i<n; ++i) {if (r.coin()) v[i]->l=v[r.below(unsigned(n))]; if (r.coin()) v[i]->r=v[r.below(unsigned(n))];}
  ref<RN> a=v[0]; std::map<RN*,int> s0, s; pack_t b; b<<a; ref<RN> y; b>>y; log.add(walk(y,s)); log.add(bytes(b)); log.add(walk(a,s0));
  for (size_t i=0; i<n; ++i) {v[i]->l.nullify(); v[i]->r.nullify();}
  std::vector<ref<RN> > all; for (std::map<RN*,int>::iterator i=s.begin(); i!=s.end(); ++i) {i->first->l.nullify(); i->first->r.nullify(); if (s.size()>1) break;}
}
static void enums(uint64_t seed, TLog& log)
{
  Rng r(seed); Col c=r.coin()? green: blue; Lvl l=r.coin()? Lvl::mid: Lvl::high; Col d=red;
  log.add(to_string(c)); log.add(to_string(l)); std::ostringstream o; o<<c<<l; log.add(o.str());
  Enum_handle<Col> hd(d); hd=to_string(c); log.add(vstr(int(d))); log.add(typeName<Col>()); log.add(vstr(enum_keys<Lvl>().size()));
  for (EnumKeys<Col>::iterator i=enum_keys<Col>().begin(); i!=enum_keys<Col>().end(); ++i) log.add(i->second);
}
static int addUp(int a, double b, std::string s) {return a+int(b)+int(s.size());}
struct Obj {int k; int times(int x) {return k*x;} int get() const {return k;}};
static void functional_(uint64_t seed, TLog& log)
{
  using namespace classdesc::functional;
  Rng r(seed); pack_t b; int a=int(r.below(1000)); double d=r.below(1000); std::string s; Ops<std::string>::gen(r,s); b<<a<<d<<s;
  log.add(vstr(callOnBuffer(b,addUp)));
  Obj o={int(r.below(100))}; pack_t c; c<<7; log.add(vstr(callOnBuffer(c,bindMethod(o,&Obj::times)))); log.add(vstr(bindMethod(o,&Obj::get)()));
  int args[]={1,2,3}; int ret; apply(&ret,bindMethod(o,&Obj::times),args); log.add(vstr(ret));
}
static void buffers(uint64_t seed, TLog& log)
{
  Rng r(seed); pack_t b, d; for (int k=0; k<20; ++k) {
    Plain p, q; p.a=int(r.next()); p.b=r.below(100)/8.0; p.l=Lvl::mid; Ops<std::vector<std::string> >::gen(r,p.v);
    switch (r.below(4)) {
    case 0: b<<p; break;
    case 1: {pack_t e; e<<p; b.packraw(e.data(),e.size()); break;}
    case 2: b<<p; d.swap(b); break;
    default: b.reseto(); d.reseti(); while (b.pos()<b.size()) {b>>q; log.add(vstr(q.a));} b.reseti();
    }
  }
  log.add(bytes(b)); log.add(bytes(d));
}
static void xml(uint64_t seed, TLog& log)
{
  Rng r(seed); r.strMode=1; Plain p, q; p.a=int(r.next()); p.b=r.below(100)/8.0; p.l=Lvl::high; Ops<std::vector<std::string> >::gen(r,p.v);
  std::ostringstream o; {xml_pack_t t(o); t.prettyPrint=r.coin(); ::xml_pack(t,"root",p);} log.add(o.str()); std::istringstream i(o.str()); xml_unpack_t u(i); ::xml_unpack(u,"root",q);
  log.add(vstr(q.a)); log.add(vstr(q.v)); log.add(vstr(int(q.l)));
  std::istringstream bad(o.str().substr(0,r.below(unsigned(o.str().size())))); try {xml_unpack_t w(bad); log.add("read");} catch (const std::exception& e) {log.add(e.what());}
}
int main(int, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]); std::string only=argv[3];
  std::vector<std::pair<const char*,TJob> > jobs;
#define J(N,F) if (only=="all" || only==N) jobs.push_back(std::make_pair(N,&F))
  J("graph",graph); J("graphv",graphv); J("tree",tree); J("refs",refs); J("enums",enums); J("functional",functional_); J("buffers",buffers); J("xml",xml);
  runThreads("graphs",jobs,8,n,seed);
  report().done(); return 0;
}
