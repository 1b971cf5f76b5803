#include "classdesc_access.h"
#include <iostream>
struct P {int a; double b; char c[5]; short d;};
namespace na {struct Q {P p; float f[2][3]; bool t;}; enum Col {red,green=7,blue};}
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "ops.h"
using namespace classdesc; using std::string; using std::vector;
#include <unistd.h>

template <> struct Ops<P> {
  static void gen(Rng& r, P& x) {Ops<int>::gen(r,x.a); Ops<double>::gen(r,x.b); Ops<char[5]>::gen(r,x.c); Ops<short>::gen(r,x.d);}
  static bool same(const P& x, const P& y) {return Ops<int>::same(x.a,y.a)&&Ops<double>::same(x.b,y.b)&&Ops<char[5]>::same(x.c,y.c)&&Ops<short>::same(x.d,y.d);}
  static void show(std::ostream& o, const P& x) {o<<"P{"<<x.a<<","; Ops<double>::show(o,x.b); o<<","<<x.d; Ops<char[5]>::show(o,x.c); o<<"}";}
};
template <> struct Ops<na::Q> {
  static void gen(Rng& r, na::Q& x) {Ops<P>::gen(r,x.p); Ops<float[2][3]>::gen(r,x.f); Ops<bool>::gen(r,x.t);}
  static bool same(const na::Q& x, const na::Q& y) {return Ops<P>::same(x.p,y.p)&&Ops<float[2][3]>::same(x.f,y.f)&&x.t==y.t;}
  static void show(std::ostream& o, const na::Q& x) {o<<"Q{"; Ops<P>::show(o,x.p); Ops<float[2][3]>::show(o,x.f); o<<x.t<<"}";}
};
template <> struct Ops<na::Col> {
  static void gen(Rng& r, na::Col& x) {static const na::Col c[]={na::red,na::green,na::blue}; x=c[r.below(3)];}
  static bool same(na::Col x, na::Col y) {return x==y;}
  static void show(std::ostream& o, na::Col x) {o<<"Col:"<<int(x);}
};

template <class T> struct H {T v; H(): v() {}};
struct Item {
  size_t end; const char* name;
  virtual ~Item() {} virtual void put(BinStream&, pack_t&)=0; virtual bool get(BinStream&, pack_t&, string&)=0; virtual string str()=0;
};
template <bool BIN> struct Via {
  template <class T> static void put(BinStream& b, pack_t&, const T& x) {CHECK(&(b<<x)==&b,"returns-self","");}
  template <class T> static void get(BinStream& b, pack_t&, T& x) {b>>x;}
};
template <> struct Via<false> {
  template <class T> static void put(BinStream&, pack_t& p, const T& x) {p<<x;}
  template <class T> static void get(BinStream&, pack_t& p, T& x) {p>>x;}
};
template <class T, bool BIN> struct It: Item {
  H<T> x; uint64_t s;
  It(Rng& r, const char* n): s(r.next()) {name=n; Ops<T>::gen(r,x.v);}
  void put(BinStream& b, pack_t& p) {Via<BIN>::put(b,p,x.v);}
  bool get(BinStream& b, pack_t& p, string& got) {H<T> y; Via<BIN>::get(b,p,y.v); got=vstr(y.v); return Ops<T>::same(x.v,y.v);}
  string str() {return vstr(x.v);}
};
// vectors replace what the target held
template <class T> struct It<vector<T>,true>: Item {
  vector<T> x; uint64_t s;
  It(Rng& r, const char* n): s(r.next()) {name=n; Ops<vector<T> >::gen(r,x);}
  void put(BinStream& b, pack_t&) {b<<x;}
  bool get(BinStream& b, pack_t&, string& got) {vector<T> y; Rng r(s); Ops<vector<T> >::gen(r,y); b>>y; got=vstr(y); return Ops<vector<T> >::same(x,y);}
  string str() {return vstr(x);}
};
template <class T> Item* bin(Rng& r, const char* n) {return new It<T,true>(r,n);}
template <class T> Item* pk(Rng& r, const char* n) {return new It<T,false>(r,n);}
typedef Item* (*Maker)(Rng&, const char*);
typedef int I3[3]; typedef double D22[2][2]; typedef P P2[2]; typedef char C7[7];
struct Ent {Maker m; const char* n;};
#define B(...) {&bin<__VA_ARGS__ >,#__VA_ARGS__}
#define K(...) {&pk<__VA_ARGS__ >,"packed " #__VA_ARGS__}
static Ent kinds[]={B(bool),B(char),B(short),B(int),B(long),B(unsigned long long),B(float),B(double),B(P),B(na::Q),B(na::Col),B(I3),B(D22),B(P2),B(C7),
  B(vector<int>),B(vector<char>),B(vector<double>),B(vector<P>),B(vector<na::Q>),B(vector<short>),B(vector<na::Col>),B(std::pair<int,double>),
  B(std::deque<double>),B(std::deque<char>),B(std::list<short>),B(std::list<P>),B(std::set<int>),B(std::multiset<short>),B(std::set<double>),B(std::map<int,double>),B(std::multimap<char,long>),
  B(std::list<vector<int> >),B(std::deque<std::list<char> >),B(std::list<std::set<int> >),B(std::list<std::deque<P> >),
#if __cplusplus>=201103L
  B(std::unordered_set<int>),B(std::unordered_multiset<long>),B(std::list<std::unordered_set<int>>),
#endif
  K(int),K(string),K(vector<string>),K(std::map<int,string>),K(bool),K(long long),K(double),K(std::list<vector<int> >)};
static const unsigned NK=sizeof(kinds)/sizeof(kinds[0]);

template <class PK> void seq(Rng& r, BinStream& b, PK& p, const char* form, bool rewindable)
{
  unsigned n=1+r.below(10); vector<Item*> v; string tr=form;
  bool big=r.coin(8);
  for (unsigned i=0; i<n; ++i) {
    Ent& e=kinds[r.below(NK)]; r.maxLen=big? 300: 5; r.budget=400;
    v.push_back(e.m(r,e.n)); tr+=string(" ")+e.n; v[i]->put(b,p); v[i]->end=p.size();
  }
  for (int pass=0; pass<(rewindable? 2: 1); ++pass) {
    for (unsigned i=0; i<n; ++i) {
      string got; bool ok=false; string ex;
      try {ok=v[i]->get(b,p,got);} catch (const std::exception& e) {ex=e.what();}
      CHECK(ok,string("value:")+v[i]->name,tr+": wrote "+v[i]->str()+" read "+got+ex);
      CHECK(p.pos()==v[i]->end,string("boundary:")+v[i]->name,tr);
      report().distinct(v[i]->str()); report().count("items");
      if (!ok || p.pos()!=v[i]->end) {pass=9; break;}
    }
    // nothing is left, and reading on is refused
    if (pass==0) {char c[4]; bool t=false; try {b>>c;} catch (const pack_error&) {t=true;} CHECK(t,"read-past-end",tr);
      t=false; vector<double> w; try {b>>w;} catch (const pack_error&) {t=true;} CHECK(t && w.empty(),"read-past-end-vector",tr);}
    if (rewindable) p.reseto();
  }
  for (unsigned i=0; i<n; ++i) delete v[i];
}
struct Reader {pack_t& p; BinStream& b;};
template <class PK> void file(Rng& r, const char* form)
{
  const char* f="c06.dat"; vector<Item*> v; string tr=form; unsigned n=1+r.below(8);
  {BinStreamT<PK> w(f,"w"); for (unsigned i=0;i<n;++i) {Ent& e=kinds[r.below(NK)]; r.budget=300; v.push_back(e.m(r,e.n)); tr+=string(" ")+e.n; v[i]->put(w,w.thePack);}}
  {BinStreamT<PK> rd(f,"r"); for (unsigned i=0;i<n;++i) {
    string got,ex; bool ok=false; try {ok=v[i]->get(rd,rd.thePack,got);} catch (const std::exception& e) {ex=e.what();}
    CHECK(ok,string("file-value:")+v[i]->name,tr+": wrote "+v[i]->str()+" read "+got+ex); report().count("file_items"); if (!ok) break;}}
  for (unsigned i=0; i<n; ++i) delete v[i];
  unlink(f);
}
int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]);
  for (unsigned i=from; i<iters; ++i) {
    char s[64]; snprintf(s,64,"sequence|%u",i); report().progress(s); Rng r(seed*7001+i);
    switch (r.below(6)) {
    case 0: {pack_t p; BinStream b(p); seq(r,b,p,"pack_t",true); break;}
    case 1: {xdr_pack p; BinStream b(p); seq(r,b,p,"xdr_pack",true); break;}
    case 2: {BinStreamT<pack_t> b; seq(r,b,b.thePack,"BinStreamT<pack_t>",true); break;}
    case 3: {BinStreamT<xdr_pack> b; seq(r,b,b.thePack,"BinStreamT<xdr_pack>",true); break;}
    case 4: file<pack_t>(r,"file pack_t"); break;
    default: file<xdr_pack>(r,"file xdr_pack");
    }
  }
  report().done(); return 0;
}
