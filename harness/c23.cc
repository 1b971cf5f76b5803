// Hand-made types: containers' keys, arrays, pointers, constants, and the default source over a scripted rand().
#include "ops.h"
#include "random_init_base.h"
#include "c23.h"
#if __cplusplus>=201103L
#include "c23-11.h"
#else
typedef Owner0 Owner;
#endif
#include "c23.cd"
#if __cplusplus>=201103L
#include "c23-11.cd"
#endif
#include "random_init_epilogue.h"
#include "classdesc_epilogue.h"
int Hand::st=5;
static int script=0; static uint64_t rs=1;
extern "C" int rand(void) throw() {
  rs=rs*6364136223846793005ULL+1442695040888963407ULL; int u=int(rs>>33);
  switch (script) {case 1: return RAND_MAX; case 2: return 0; case 3: return u%3? u: RAND_MAX; case 4: return RAND_MAX-1; default: return u;}
}
static bool key(Col c) {return c==red || c==green || c==blue;}
static std::map<std::string,std::set<std::string> > seen;
template <class T> void note(const char* n, const T& x) {std::ostringstream o; o<<x; seen[n].insert(o.str());}
int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]); (void)argc; rs=seed*77777+1;
  size_t big=0; std::map<std::string,size_t> most;
  for (unsigned it=0; it<n; ++it) {
    char pr[60]; snprintf(pr,60,"hand|%u",it); report().progress(pr); script=it%20<5? it%5: 0;
    classdesc::random_init_t r; for (int k=0; k<5; ++k) {double u=r.rand(); CHECK(u>=0 && u<1,"default-source-out-of-range",""); }
    static Hand h; classdesc::random_init(r,"",h);
    CHECK(key(h.c) && key(h.col),"invalid-enum",""); for (int k=0; k<4; ++k) CHECK(key(h.cols[k]),"invalid-enum","array");
    for (std::list<Col>::iterator i=h.lc.begin(); i!=h.lc.end(); ++i) CHECK(key(*i),"invalid-enum","list");
    for (std::multimap<int,Col>::iterator i=h.mm.begin(); i!=h.mm.end(); ++i) CHECK(key(i->second),"invalid-enum","multimap");
    CHECK(h.k==77 && h.ptr==&Hand::st,"changed-constant-or-pointer","");
    big=h.m.size(); big=std::max(big,h.ms.size()); big=std::max(big,h.s.size()); big=std::max(big,h.mm.size()); big=std::max(big,h.ss.size()); big=std::max(big,h.mu.size()); big=std::max(big,h.v.size()); big=std::max(big,h.vv.size()); big=std::max(big,h.lc.size()); big=std::max(big,h.vp.size());
    CHECK(big<=10,"unbounded","");
#define M(x) most[#x]=std::max(most[#x],size_t(h.x.size()));
    M(m) M(ms) M(s) M(mm) M(ss) M(mu) M(v) M(vv) M(lc) M(vp)
    if (!script) {
      note("b",h.b); note("i",h.i); note("u",h.u); note("f",h.f); note("ld",h.ld); note("uc",int(h.uc)); note("ll",h.ll); note("in.a",h.in.a); note("in.s",h.in.s); note("p.first",h.p.first); note("p.second",h.p.second);
      for (int k=0; k<6; ++k) {char b[40]; snprintf(b,40,"arr[%d]",k); note(b,(&h.arr[0][0])[k]);} for (int k=0; k<8; ++k) {char b[40]; snprintf(b,40,"cube[%d]",k); note(b,(&h.cube[0][0][0])[k]);}
      for (int k=0; k<2; ++k) for (int l=0; l<3; ++l) {char b[40]; snprintf(b,40,"ins[%d].d[%d]",k,l); note(b,h.ins[k].d[l]);}
      if (!h.m.empty()) {note("m.key",h.m.begin()->first); note("m.value",h.m.begin()->second);} if (!h.ms.empty()) {note("ms.key",h.ms.begin()->first); note("ms.value",h.ms.begin()->second.a);}
      if (!h.mm.empty()) note("mm.key",h.mm.begin()->first); if (!h.v.empty()) {note("v",h.v.back().a); note("v.d",h.v.back().d[2]);} if (!h.vv.empty() && !h.vv.back().empty()) note("vv",h.vv.back().back()); if (!h.vp.empty()) note("vp",h.vp.back().first);
      note("few:t",h.t); for (int k=0; k<9; ++k) {char b[40]; snprintf(b,40,"few:flags[%d]",k); note(b,h.flags[k]);} for (int k=0; k<4; ++k) {char b[40]; snprintf(b,40,"few:cols[%d]",k); note(b,int(h.cols[k]));} for (int k=0; k<6; ++k) {char b[40]; snprintf(b,40,"text[%d]",k); note(b,h.text[k]);} note("ch",h.ch);
      note("few:c",int(h.c)); note("few:col",int(h.col));
    }
    static Owner o; Inner keep; keep.a=it; o.raw=&keep; Inner* raw=o.raw; classdesc::random_init(r,"",o); CHECK(o.raw==raw && keep.a==int(it),"touched-through-pointer","");
#if __cplusplus>=201103L
    CHECK(o.up && o.sp && o.si && o.uc,"owner-left-empty",""); if (o.up && o.sp && o.si && o.uc) {CHECK(key(*o.uc),"invalid-enum","unique_ptr"); if (!script) {note("up",o.up->a); note("sp",o.sp->a); note("si",*o.si); note("few:uc",int(*o.uc));}}
#endif
    report().count("draws"); std::ostringstream t; t<<h.i<<h.in.s<<h.m.size(); report().distinct(t.str());
  }
  for (std::map<std::string,std::set<std::string> >::iterator i=seen.begin(); i!=seen.end(); ++i) {
    size_t want=i->first.substr(0,4)=="few:"? (i->first.find("c")!=std::string::npos? 3: 2): 20; if (i->first.substr(0,5)=="few:f"||i->first=="few:t") want=2; else if (want<20) want=3;
    CHECK(i->second.size()>=want,"does-not-vary",i->first);
  }
  for (std::map<std::string,size_t>::iterator i=most.begin(); i!=most.end(); ++i) CHECK(i->second>=5,"never-large",i->first);
  report().done(); return 0;
}
