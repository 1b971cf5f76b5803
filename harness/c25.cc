// Exclude<T> against a plain T over random operations.
#include "ops.h"
#include "classdesc.h"
#include "classdesc_epilogue.h"
using classdesc::Exclude;
template <class T> T small(Rng& r) {return T(1+r.below(9));}
template <class T> void same(const char* t, const char* op, const Exclude<T>& e, const T& p)
{
  T v=e; const T& c=e; report().count("operations");
  CHECK(v==p && c==p && e==p && !(e!=p),std::string("variable:")+op,std::string(t)+": "+vstr(v)+" for "+vstr(p));
}
template <class T> struct IsF {enum {v=0};}; template <> struct IsF<float> {enum {v=1};}; template <> struct IsF<double> {enum {v=1};}; template <> struct IsF<long double> {enum {v=2};};
template <class T,int k> struct Mod {static void eq(Exclude<T>& e, T& p, T x) {e%=x; p%=x;} static T of(const Exclude<T>& e, T x) {return e%x;} static T pl(T a, T x) {return a%x;}};
template <class T> struct Mod<T,1> {static void eq(Exclude<T>& e, T& p, T x) {e%=x; p=std::fmod(p,x);} static T of(const Exclude<T>& e, T x) {return e%x;} static T pl(T a, T x) {return std::fmod(a,x);}};
template <class T> struct Mod<T,2> {static void eq(Exclude<T>&, T&, T) {} static T of(const Exclude<T>&, T) {return 0;} static T pl(T, T) {return 0;}};
template <class T> void arith(const char* t, uint64_t seed, unsigned n)
{
  for (unsigned it=0; it<n/20; ++it) {
    Rng r(seed*131+it); char pr[80]; snprintf(pr,80,"%s|%u",t,it); report().progress(pr);
    T p=small<T>(r); Exclude<T> e(p); same(t,"construct",e,p);
    for (int k=0; k<20; ++k) {
      T x=small<T>(r); const char* op="";
      switch (r.below(16)) {
      case 0: op="="; CHECK((e=x)==x,"variable:value-of-assignment",t); p=x; break;
      case 1: op="+="; CHECK((e+=x)==T(p+=x),"variable:value-of+=",t); break;
      case 2: op="-="; CHECK((e-=x)==T(p-=x),"variable:value-of-=",t); break;
      case 3: op="*="; if (p<T(10) && p>T(-10)) {e*=x; p*=x;} break;
      case 4: op="/="; e/=x; p/=x; break;
      case 5: op="%="; Mod<T,IsF<T>::v>::eq(e,p,x); break;
      case 6: op="+"; CHECK(e+x==T(p+x),"variable:+",t); break;
      case 7: op="-"; CHECK(e-x==T(p-x),"variable:-",t); break;
      case 8: op="*"; if (p<T(10) && p>T(-10)) CHECK(e*x==T(p*x),"variable:*",t); break;
      case 9: op="/"; CHECK(e/x==T(p/x),"variable:/",t); break;
      case 10: op="%"; CHECK((Mod<T,IsF<T>::v>::of(e,x)==Mod<T,IsF<T>::v>::pl(p,x)),"variable:%",t); break;
      case 11: {op="copy"; Exclude<T> f(e), g(x); same(t,op,f,p); g=e; same(t,"copy-assign",g,p); f=x; same(t,"copies-share",e,p); CHECK(g==e && !(g!=e) && (f==e)==(x==p),"variable:==",t); break;}
      case 12: {op="reference"; T& q=e; q=x; p=x; break;}
      case 13: op="assign-int"; e=3; p=T(3); break;
      case 14: {op="assign-double"; e=2.0; p=T(2.0); break;}
      case 15: {op="container"; std::vector<Exclude<T> > v(3,e); v.push_back(Exclude<T>(x)); v.erase(v.begin()); std::vector<Exclude<T> > w(v); w[0]=x; same(t,op,v[0],p); same(t,op,v[2],x); same(t,op,w[0],x); break;}
      }
      if (p>T(90) || (p!=T(0) && p<T(0)) ) {p=small<T>(r); e=p;}
      same(t,op,e,p);
    }
    report().distinct(pr);
  }
}
static bool flip(bool b) {return !b;}
static void bools(uint64_t seed, unsigned n)
{
  Rng r(seed); report().progress("bool|0"); bool p=true; Exclude<bool> e(p);
  for (unsigned i=0; i<n; ++i) {
    bool x=r.coin(); const char* op="";
    switch (r.below(5)) {
    case 0: op="="; CHECK((e=x)==x,"variable:value-of-assignment","bool"); p=x; break;
    case 1: {op="copy"; Exclude<bool> f(e), g(x); g=f; bool b=g; CHECK(b==p,"variable:copy","bool"); break;}
    case 2: op="negate"; CHECK(!e==!p,"variable:!","bool"); break;
    case 3: op="pass"; CHECK(flip(e)==flip(p),"variable:pass","bool"); break;
    case 4: {op="reference"; bool& q=e; q=x; p=x; break;}
    }
    bool v=e; CHECK(v==p && (e? true: false)==p,std::string("variable:")+op,"bool"); report().count("operations");
  }
}
struct Pt {int x, y; Pt(int x=0, int y=0): x(x), y(y) {} int sum() const {return x+y;} bool operator==(const Pt& o) const {return x==o.x && y==o.y;}};
static void pointers(uint64_t seed, unsigned n)
{
  static Pt a[8]; for (int i=0; i<8; ++i) a[i]=Pt(i,i*i);
  Rng r(seed); report().progress("pointer|0"); Pt* p=a; Exclude<Pt*> e(p); {Exclude<Pt*> z; CHECK(z==(Pt*)0,"pointer:null-by-default","");}
  for (unsigned i=0; i<n; ++i) {
    int k=r.below(8); const char* op="";
    switch (r.below(10)) {
    case 0: op="="; p=a+k; e=p; break;
    case 1: {op="copy"; Exclude<Pt*> f(e), g; g=f; CHECK(g==e && g==p && !(g!=p),"pointer:copy",""); g=(Pt*)0; CHECK(e==p,"pointer:copies-share",""); break;}
    case 2: op="null"; e=static_cast<Pt*>(0); CHECK(e==static_cast<Pt*>(0) && !(e!=static_cast<Pt*>(0)),"pointer:null",""); e=p; break;
    case 3: op="->"; CHECK(e->sum()==p->sum() && &*e==p,"pointer:->",""); break;
    case 4: op="write"; e->y=k; CHECK(p->y==k,"pointer:write",""); p->y=(p-a)*(p-a); break;
    case 5: {op="+"; int d=k-int(p-a); CHECK(e+d==p+d && d+e==p+d,"pointer:+",""); const Exclude<Pt*> c(e); CHECK(c+d==p+d,"pointer:+",""); break;}
    case 6: op="-"; CHECK(e-(a+k)==p-(a+k) && (a+k)-e==(a+k)-p,"pointer:-",""); {const Pt* q=a+k; CHECK(q-e==q-p,"pointer:-","");} break;
    case 7: {op="convert"; Pt* q=e; const Pt* c=static_cast<const Pt*>(e); CHECK(q==p && c==p,"pointer:convert",""); break;}
#if __cplusplus>=201103L
    case 8: op="nullptr"; {Exclude<Pt*> z(nullptr); CHECK(z==nullptr && !(z!=nullptr) && (e!=nullptr),"pointer:nullptr","");} break;
#endif
    default: op="container"; {std::vector<Exclude<Pt*> > v(2,e); v.push_back(Exclude<Pt*>(a+k)); v.erase(v.begin()); CHECK(v[0]==p && v[1]==a+k,"pointer:container","");}
    }
    Pt* v=e; CHECK(v==p,std::string("pointer:")+op,""); report().count("operations");
  }
}
template <class T> const T& whole(const T& x) {return x;}
static size_t lenOf(const std::string& s) {return s.size();}
static void addTo(std::string& s, char c) {s+=c;}
static void strings(uint64_t seed, unsigned n)
{
  Rng r(seed); report().progress("string|0"); std::string p="ab"; Exclude<std::string> e(p);
  for (unsigned i=0; i<n; ++i) {
    std::string x; r.strMode=2; Ops<std::string>::gen(r,x); const char* op="";
    switch (r.below(9)) {
    case 0: op="="; e=x; p=x; break;
    case 1: op="assign-literal"; e="lit"; p="lit"; break;
    case 2: op="append"; e+=x; p+=x; e.push_back('c'); p.push_back('c'); break;
    case 3: {op="copy"; Exclude<std::string> f(e), g; g=f; CHECK(g==p && g==e,"class:copy",""); g="other"; CHECK(e==p && f==p,"class:copies-share",""); break;}
    case 4: op="pass"; CHECK(lenOf(e)==lenOf(p),"class:pass",""); addTo(e,'z'); addTo(p,'z'); break;
    case 5: op="method"; CHECK(e.size()==p.size() && e.find('a')==p.find('a') && e+x==p+x && (e<x)==(p<x),"class:method",""); break;
    case 6: {op="reference"; std::string& q=e; q=x; p=x; break;}
    case 7: {op="container"; std::vector<Exclude<std::string> > v(2,e); v.push_back(Exclude<std::string>(x)); v.erase(v.begin()); CHECK(v[0]==p && v[1]==x,"class:container",""); break;}
    case 8: {op="from-wrapped"; Exclude<std::string> f(x); p=f; e=f; break;}
    }
    if (p.size()>300) {p.clear(); e=p;}
    const std::string& v=e; CHECK(v==p && e==p && !(e!=p),std::string("class:")+op,std::string(e)+" for "+p); report().count("operations"); report().distinct(p);
  }
  Exclude<std::vector<int> > ev; std::vector<int> pv;
  for (unsigned i=0; i<n; ++i) {
    switch (r.below(6)) {
    case 0: ev.push_back(i); pv.push_back(i); break;
    case 1: {std::vector<int> w(r.below(5),i); ev=w; pv=w; break;}
    case 2: {Exclude<std::vector<int> > f(ev), g; g=f; g.push_back(1); CHECK(ev==pv && f==pv,"class:vector-copy",""); break;}
    case 3: if (!pv.empty()) {ev[0]=i; pv[0]=i; CHECK(ev.front()==pv.front(),"class:vector-index","");} break;
    case 4: {std::vector<int> w(ev); CHECK(w==pv,"class:vector-convert",""); break;}
    case 5: ev.insert(ev.begin(),3); pv.insert(pv.begin(),3); if (pv.size()>40) {ev.clear(); pv.clear();} break;
    }
    CHECK(ev==pv,"class:vector",""); report().count("operations");
  }
  Exclude<Pt> q; Pt z; for (unsigned i=0; i<n/4; ++i) {Pt w(r.below(99),r.below(99)); q=w; z=w; CHECK(q.sum()==z.sum() && q==z && whole<Pt>(q)==z,"class:own",""); q.x=i; z.x=i; Exclude<Pt> c(q); CHECK(c==z,"class:own-copy",""); report().count("operations");}
#if __cplusplus>=201103L
  {Exclude<Pt> m(3,4); CHECK(m.sum()==7,"class:several-arguments",""); Exclude<std::string> s(3,'x'); CHECK(s=="xxx","class:several-arguments",s); Exclude<std::vector<int>> v(std::vector<int>{1,2,3}); CHECK(v.size()==3,"class:move",""); Exclude<std::vector<int>> w(std::move(v)); CHECK(w.size()==3,"class:move","");
   Exclude<std::shared_ptr<int>> a(std::make_shared<int>(4)), b(a); CHECK(*a==4 && a.get()==b.get() && a.use_count()==2,"class:shared_ptr",""); a=std::shared_ptr<int>(); CHECK(!a && b.use_count()==1,"class:shared_ptr-assign","");}
#endif
}
int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]); (void)argc;
#define A(T) arith<T >(#T,seed,n);
  A(char) A(signed char) A(unsigned char) A(short) A(unsigned short) A(int) A(unsigned) A(long) A(unsigned long) A(long long) A(unsigned long long) A(float) A(double)
  bools(seed,n); pointers(seed,n); strings(seed,n);
  report().done(); return 0;
}
