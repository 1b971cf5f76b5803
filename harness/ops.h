// Independent value generation / comparison / canonical printing for the
// generated types.  Shares no code with classdesc.  C++98 compatible.
#ifndef VERIF_OPS_H
#define VERIF_OPS_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <set>
#include <map>
#include <sstream>
#include <iostream>
#include <limits>
#include <algorithm>
#if __cplusplus>=201103L
#include <memory>
#include <array>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#define VSHARED std::shared_ptr
#else
#include <tr1/memory>
#define VSHARED std::tr1::shared_ptr
#endif

struct Rng
{
  uint64_t s;
  // knobs
  bool long32;      // keep long within the 32 bits XDR gives it
  bool nonfinite;   // allow inf/nan/denormals
  int strMode;      // 0: full bytes, 1: XML-expressible text, 2: identifier-like
  unsigned maxLen;  // container length bound
  int depth;        // pointer nesting guard
  bool noNull;      // the next pointer may not be null
  int budget;       // number of container elements left to generate
  unsigned len() {unsigned n=below(maxLen+1); if (int(n)>budget) n=budget; budget-=n; return n;}
  explicit Rng(uint64_t seed=1): s(seed*0x9E3779B97F4A7C15ULL+0x1234567), long32(false), nonfinite(true), strMode(0), maxLen(4), depth(0), noNull(false), budget(250) {next(); next();}
  uint64_t next() {
    uint64_t z=(s+=0x9E3779B97F4A7C15ULL);
    z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL;
    return z^(z>>31);
  }
  unsigned below(unsigned n) {return n? unsigned(next()%n): 0;}
  bool coin(unsigned n=2) {return below(n)==0;}
};

#if __cplusplus>=201103L
#define VTLS thread_local
#else
#define VTLS
#endif
inline size_t& biggest() {static VTLS size_t n=0; return n;}      // largest container shown
inline unsigned& badEnums() {static VTLS unsigned n=0; return n;}  // values which name no enumerator
inline const char* noKey() {++badEnums(); return "?";}
template <class T, class E=void> struct Ops;   // gen(Rng&,T&), same(const T&,const T&), show(ostream&,const T&)

template <class T> void vgen(Rng& r, T& x) {Ops<T>::gen(r,x);}
template <class T> bool vsame(const T& x, const T& y) {return Ops<T>::same(x,y);}
template <class T> void vshow(std::ostream& o, const T& x) {Ops<T>::show(o,x);}
template <class T> std::string vstr(const T& x) {std::ostringstream o; vshow(o,x); return o.str();}

template <class T> void genInt(Rng& r, T& x)
{
  switch (r.below(7))
    {
    case 0: x=T(0); break;
    case 1: x=std::numeric_limits<T>::min(); break;
    case 2: x=std::numeric_limits<T>::max(); break;
    case 3: x=T(1); break;
    case 4: x=T(~uint64_t(0)); break;
    case 5: x=T(r.below(200)); break;
    default: x=T(r.next()); break;
    }
}
template <class T> void clampLong(T&) {}
template <> inline void clampLong(long& x) {x=int(x);}
template <> inline void clampLong(unsigned long& x) {x=unsigned(x);}
#define VINT(T) template <> struct Ops<T> { \
  static void gen(Rng& r, T& x) {genInt(r,x); if (r.long32) clampLong(x);}                          \
  static bool same(const T& a, const T& b) {return a==b;}               \
  static void show(std::ostream& o, const T& x) {o<<#T<<":"; if (x<(T)1 && x!=(T)0) o<<(long long)(x); else o<<(unsigned long long)(x);} };
VINT(short) VINT(unsigned short)
VINT(int) VINT(unsigned) VINT(long) VINT(unsigned long) VINT(long long) VINT(unsigned long long)

template <> struct Ops<char> {
  static void gen(Rng& r, char& x) {
    if (r.strMode==0) {int i; genInt(r,i); x=char(i);}
    else if (r.strMode==1) {static const char p[]="az09<>&\"'-_/;#%][ "; x=r.coin(4)? char(32+r.below(96)): p[r.below(sizeof(p)-1)];}
    else x=char('a'+r.below(26));
  }
  static bool same(char a, char b) {return a==b;}
  static void show(std::ostream& o, char x) {o<<"char:"<<int(x);}
};
#define VSCHAR(T) template <> struct Ops<T> { \
  static void gen(Rng& r, T& x) {if (r.strMode==0) genInt(r,x); else {char c; Ops<char>::gen(r,c); x=(T)c;}} \
  static bool same(const T& a, const T& b) {return a==b;}               \
  static void show(std::ostream& o, const T& x) {o<<#T<<":"<<int(x);} };
VSCHAR(signed char) VSCHAR(unsigned char)
template <> struct Ops<wchar_t> {
  static void gen(Rng& r, wchar_t& x) {x=wchar_t(r.below(0x10000));}
  static bool same(wchar_t a, wchar_t b) {return a==b;}
  static void show(std::ostream& o, wchar_t x) {o<<"wchar_t:"<<long(x);}
};
template <> struct Ops<bool> {
  static void gen(Rng& r, bool& x) {x=r.coin();}
  static bool same(bool a, bool b) {return a==b;}
  static void show(std::ostream& o, bool x) {o<<"bool:"<<int(x);}
};
template <class T, class U> void genFloat(Rng& r, T& x, U)
{
  switch (r.below(r.nonfinite? 10: 7))
    {
    case 0: x=0; break;
    case 1: x=T(-1.5); break;
    case 2: x=std::numeric_limits<T>::max(); break;
    case 3: x=std::numeric_limits<T>::min(); break;
    case 4: x=T(int(r.next()))/T(1+r.below(1000)); break;
    case 5: x=T(r.below(1000)); break;
    case 6: x=T(1)/T(3+r.below(97)); break;
    case 7: x=std::numeric_limits<T>::infinity(); break;
    case 8: x=std::numeric_limits<T>::denorm_min()*T(1+r.below(5)); break;
    default: x=std::numeric_limits<T>::quiet_NaN(); break;
    }
  if (r.coin(4) && (x==x || r.strMode==0)) x=-x; // text formats have one NaN
}
#define VFLT(T,N) template <> struct Ops<T> { \
  static void gen(Rng& r, T& x) {genFloat(r,x,0);}                      \
  static bool same(const T& a, const T& b) {return memcmp(&a,&b,N)==0;} \
  static void show(std::ostream& o, const T& x) {char b[64]; snprintf(b,64,"%La",(long double)x); o<<#T<<":"<<b;} };
VFLT(float,4) VFLT(double,8) VFLT(long double,10)

template <> struct Ops<std::string> {
  static void gen(Rng& r, std::string& x) {
    x.clear();
    unsigned n;
    switch (r.below(6)) {case 0: n=0; break; case 1: n=1; break; case 2: n=20+r.below(60); break; default: n=r.below(9);}
    if (r.strMode==2 && n==0) n=1;
    for (unsigned i=0; i<n; ++i)
      switch (r.strMode)
        {
        case 0: x+=char(r.coin(5)? 0: r.next()); break;
        case 1: {
          static const char* p[]={"<",">","&","\"","'"," ","  ","\n","\t","\r","]]>","]]","<!--","-->","&amp;","&#65;","<![CDATA[","/>","</","<?","a","b","Z","0","9",".",";","#","=","\\","%","\xc3\xa9","\xe2\x82\xac","\xf0\x9f\x98\x80","\x7f"};
          x+=p[r.below(sizeof(p)/sizeof(p[0]))]; break;}
        default: x+=char('a'+r.below(26));
        }
  }
  static bool same(const std::string& a, const std::string& b) {return a==b;}
  static void show(std::ostream& o, const std::string& x) {
    o<<"\"";
    for (size_t i=0; i<x.size(); ++i) {
      unsigned char c=x[i];
      if (c<32||c>126||c=='"'||c=='\\') {char b[8]; snprintf(b,8,"\\x%02x",c); o<<b;} else o<<c;
    }
    o<<"\"";
  }
};

// text formats cannot tell a null pointer from no pointer: items of sequences are then never null
template <class T> struct IsPtrItem {enum {value=0};};
template <class T> struct IsPtrItem<VSHARED<T> > {enum {value=1};};
template <class C> struct SeqOps {
  typedef typename C::value_type V;
  static void gen(Rng& r, C& x) {
    x.clear();
    unsigned n=r.len();
    for (unsigned i=0; i<n; ++i) {V v=V(); r.noNull=r.strMode!=0 && IsPtrItem<V>::value; Ops<V>::gen(r,v); x.push_back(v);}
  }
  static bool same(const C& a, const C& b) {
    if (a.size()!=b.size()) return false;
    typename C::const_iterator i=a.begin(), j=b.begin();
    for (; i!=a.end(); ++i,++j) if (!Ops<V>::same(*i,*j)) return false;
    return true;
  }
  static void show(std::ostream& o, const C& x) {
    biggest()=std::max(biggest(),size_t(x.size())); o<<"["; for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {if (i!=x.begin()) o<<","; const V& v=*i; Ops<V>::show(o,v);} o<<"]";
  }
};
template <class T,class A> struct Ops<std::vector<T,A> >: public SeqOps<std::vector<T,A> > {};
template <class T,class A> struct Ops<std::deque<T,A> >: public SeqOps<std::deque<T,A> > {};
template <class T,class A> struct Ops<std::list<T,A> >: public SeqOps<std::list<T,A> > {};

template <class T> struct NonConst {typedef T t;};
template <class T> struct NonConst<const T> {typedef T t;};
template <class K,class V> struct NonConst<std::pair<const K,V> > {typedef std::pair<K,V> t;};

template <class C, bool Ordered> struct AssocOps {
  typedef typename NonConst<typename C::value_type>::t V;
  static void gen(Rng& r, C& x) {
    x.clear();
    unsigned n=r.len();
    bool nf=r.nonfinite; r.nonfinite=false; // NaN keys break the ordering
    V last=V();
    for (unsigned i=0; i<n; ++i) {V v=V(); Ops<V>::gen(r,v); if (i>0 && r.coin(3)) v=last; x.insert(v); last=v;}
    r.nonfinite=nf;
  }
  static bool same(const C& a, const C& b) {
    if (a.size()!=b.size()) return false;
    if (Ordered) {
      typename C::const_iterator i=a.begin(), j=b.begin();
      for (; i!=a.end(); ++i,++j) {V p(*i), q(*j); if (!Ops<V>::same(p,q)) return false;}
      return true;
    }
    return vec(a)==vec(b);
  }
  static std::vector<std::string> vec(const C& x) {
    std::vector<std::string> r;
    for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {V v(*i); r.push_back(vstr(v));}
    std::sort(r.begin(),r.end());
    return r;
  }
  static void show(std::ostream& o, const C& x) {
    o<<"{"; biggest()=std::max(biggest(),size_t(x.size()));
    if (Ordered) {for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {if (i!=x.begin()) o<<","; V v(*i); Ops<V>::show(o,v);}}
    else {std::vector<std::string> s=vec(x); for (size_t i=0; i<s.size(); ++i) o<<(i?",":"")<<s[i];}
    o<<"}";
  }
};
template <class T,class C,class A> struct Ops<std::set<T,C,A> >: public AssocOps<std::set<T,C,A>,true> {};
template <class T,class C,class A> struct Ops<std::multiset<T,C,A> >: public AssocOps<std::multiset<T,C,A>,true> {};
template <class K,class V,class C,class A> struct Ops<std::map<K,V,C,A> >: public AssocOps<std::map<K,V,C,A>,true> {};
template <class K,class V,class C,class A> struct Ops<std::multimap<K,V,C,A> >: public AssocOps<std::multimap<K,V,C,A>,true> {};
#if __cplusplus>=201103L
template <class... A> struct Ops<std::unordered_set<A...> >: public AssocOps<std::unordered_set<A...>,false> {};
template <class... A> struct Ops<std::unordered_multiset<A...> >: public AssocOps<std::unordered_multiset<A...>,false> {};
template <class... A> struct Ops<std::unordered_map<A...> >: public AssocOps<std::unordered_map<A...>,false> {};
template <class... A> struct Ops<std::unordered_multimap<A...> >: public AssocOps<std::unordered_multimap<A...>,false> {};
template <class T, size_t N> struct Ops<std::array<T,N> > {
  static void gen(Rng& r, std::array<T,N>& x) {for (auto& i: x) {r.noNull=r.strMode!=0 && IsPtrItem<T>::value; Ops<T>::gen(r,i);}}
  static bool same(const std::array<T,N>& x, const std::array<T,N>& y) {for (size_t i=0; i<N; ++i) if (!Ops<T>::same(x[i],y[i])) return false; return true;}
  static void show(std::ostream& o, const std::array<T,N>& x) {o<<"["; for (size_t i=0; i<N; ++i) {if (i) o<<","; Ops<T>::show(o,x[i]);} o<<"]";}
};
template <class... A> struct Ops<std::tuple<A...> > {
  typedef std::tuple<A...> T;
  static void gen(Rng& r, T& x) {AtX<sizeof...(A)>::gen(r,x);}
  static bool same(const T& x, const T& y) {return AtX<sizeof...(A)>::same(x,y);}
  static void show(std::ostream& o, const T& x) {o<<"("; AtX<sizeof...(A)>::show(o,x); o<<")";}
  template <size_t I, class Dummy=void> struct AtX {
    static void gen(Rng& r, T& x) {AtX<I-1>::gen(r,x); Ops<typename std::tuple_element<I-1,T>::type>::gen(r,std::get<I-1>(x));}
    static bool same(const T& x, const T& y) {return AtX<I-1>::same(x,y) && Ops<typename std::tuple_element<I-1,T>::type>::same(std::get<I-1>(x),std::get<I-1>(y));}
    static void show(std::ostream& o, const T& x) {AtX<I-1>::show(o,x); o<<(I>1?",":""); Ops<typename std::tuple_element<I-1,T>::type>::show(o,std::get<I-1>(x));}
  };
  template <class Dummy> struct AtX<0,Dummy> {
    static void gen(Rng&, T&) {} static bool same(const T&, const T&) {return true;} static void show(std::ostream&, const T&) {}
  };
};
#endif
template <class A,class B> struct Ops<std::pair<A,B> > {
  static void gen(Rng& r, std::pair<A,B>& x) {Ops<A>::gen(r,x.first); Ops<B>::gen(r,x.second);}
  static bool same(const std::pair<A,B>& x, const std::pair<A,B>& y) {return Ops<A>::same(x.first,y.first)&&Ops<B>::same(x.second,y.second);}
  static void show(std::ostream& o, const std::pair<A,B>& x) {o<<"<"; Ops<A>::show(o,x.first); o<<"|"; Ops<B>::show(o,x.second); o<<">";}
};
template <class T,size_t N> struct Ops<T[N]> {
  static void gen(Rng& r, T (&x)[N]) {for (size_t i=0; i<N; ++i) Ops<T>::gen(r,x[i]);}
  static bool same(const T (&x)[N], const T (&y)[N]) {for (size_t i=0; i<N; ++i) if (!Ops<T>::same(x[i],y[i])) return false; return true;}
  static void show(std::ostream& o, const T (&x)[N]) {o<<"a["; for (size_t i=0; i<N; ++i) {if (i) o<<","; Ops<T>::show(o,x[i]);} o<<"]";}
};
template <class P> struct PtrOps {
  typedef typename P::element_type V;
  static void gen(Rng& r, P& x) {
    bool null=(r.coin(3)||r.depth>3) && !r.noNull; r.noNull=false;
    if (null) x=P(); else {++r.depth; x=P(new V()); r.noNull=r.strMode!=0 && IsPtrItem<V>::value; Ops<V>::gen(r,*x); --r.depth;}
  }
  static bool same(const P& a, const P& b) {if (!a.get()||!b.get()) return !a.get()&&!b.get(); return Ops<V>::same(*a,*b);}
  static void show(std::ostream& o, const P& x) {if (x.get()) {o<<"->"; const V& v=*x; Ops<V>::show(o,v);} else o<<"null";}
};
template <class T> struct Ops<VSHARED<T> >: public PtrOps<VSHARED<T> > {};
#if __cplusplus>=201103L
template <class T> struct Ops<std::unique_ptr<T> >: public PtrOps<std::unique_ptr<T> > {};
#endif
template <class T> struct EnumOps {   // derive with static tables
};

// ---------------------------------------------------------------- reporting
// line protocol on stdout:  V<TAB>key<TAB>detail   |  N<TAB>counter<TAB>n  | S<TAB>sample | H<TAB>hash (distinct case)
struct Report
{
  std::map<std::string,unsigned long long> n;
  std::set<uint64_t> seen;
  unsigned nv, ns;
  FILE* st;       // progress file
  Report(): nv(0), ns(0), st(0) {}
  static std::string esc(const std::string& s) {
    std::string r; for (size_t i=0; i<s.size(); ++i) {unsigned char c=s[i]; if (c=='\n') r+="\\n"; else if (c=='\t') r+="\\t"; else if (c<32||c>126) {char b[8]; snprintf(b,8,"\\x%02x",c); r+=b;} else r+=c;} return r;
  }
  void viol(const std::string& key, const std::string& detail) {
    if (nv++<200) {printf("V\t%s\t%s\n",esc(key).c_str(),esc(detail.substr(0,3000)).c_str()); fflush(stdout);}
  }
  void sample(const std::string& s) {if (ns++<3) printf("S\t%s\n",esc(s.substr(0,600)).c_str());}
  void count(const std::string& c, unsigned long long k=1) {n[c]+=k;}
  void distinct(const std::string& s) {uint64_t h=1469598103934665603ULL; for (size_t i=0; i<s.size(); ++i) h=(h^(unsigned char)s[i])*1099511628211ULL; if (seen.size()<2000000) seen.insert(h);}
  void progress(const std::string& what) { // survives a crash
    if (!st) {const char* f=getenv("VERIF_PROGRESS"); if (!f) return; st=fopen(f,"w"); if (!st) return;}
    rewind(st); std::string s=esc(what.substr(0,1500))+"\n"; fwrite(s.data(),1,s.size(),st); fflush(st);
    if (ftruncate_(s.size())) {}
  }
  int ftruncate_(size_t n);
  void done() {
    for (std::map<std::string,unsigned long long>::iterator i=n.begin(); i!=n.end(); ++i) printf("N\t%s\t%llu\n",i->first.c_str(),i->second);
    printf("N\tdistinct\t%llu\n",(unsigned long long)seen.size());
    printf("DONE\n"); fflush(stdout);
  }
};
#include <unistd.h>
inline int Report::ftruncate_(size_t n) {return ftruncate(fileno(st),n);}
inline Report& report() {static Report r; return r;}
#define CHECK(cond,key,detail) do {report().count("checks"); if (!(cond)) report().viol(key,detail);} while(0)
#endif
