// A descriptor that records what a generated descriptor visits, and the recording
// of what it should visit (struct Expect<>, written by the header generator).
#ifndef PROBE_BASE_H
#define PROBE_BASE_H
#include "classdesc.h"
#include <typeinfo>
#include <vector>
#include <string>
#include <cstdio>
#include <cstring>
#include <cstdarg>
template <class T> struct Tag {};
template <class T, class X> struct Expect {template <class Y> static void go(X&, const std::string&, Y&) {}};

namespace classdesc
{
  template <class T> const void* probeAddr(T& a) {return const_cast<const char*>(&reinterpret_cast<const volatile char&>(a));}
  struct probe_t
  {
    std::vector<std::string> log;
    const char* base; size_t size;
    bool isEnum; int value, setTo; bool set;    // probing an enumeration: the value seen, and one to assign
    probe_t(): base(0), size(0), isEnum(false), value(0), setTo(0), set(false) {}
    template <class T> void seen(T&) {}
    void seen(int& v) {value=v; if (set) v=setTo;}
    void seen(const int& v) {value=v;}
    template <class T> static std::string ty() {return typeid(Tag<T>).name();}
    std::string at(const void* p) const {
      char s[40]; const char* q=(const char*)p;
      if (q>=base && q<base+size) snprintf(s,40,"+%ld",long(q-base)); else snprintf(s,40,"%p",p);
      return s;
    }
    static std::string bytes(const void* p, size_t n) {
      std::string r; char s[4];
      for (size_t i=0; i<n; ++i) {snprintf(s,4,"%02x",((const unsigned char*)p)[i]); r+=s;}
      return r;
    }
    void put(const char* kind, const std::string& d, const std::string& type, const std::string& where) {log.push_back(std::string(kind)+" "+d+" "+type+" "+where);}
  };
  template <class X> struct PIsFn {template <class Y> struct K {static const bool v=true;}; template <class Y> struct K<const Y> {static const bool v=false;}; static const bool value=K<const X>::v;};
  template <class X> struct PIsFn<X&> {static const bool value=false;};
  template <bool b, class T=void> struct PIf {}; template <class T> struct PIf<true,T> {typedef T type;};
  template <class T> struct PNoC {typedef T type;}; template <class T> struct PNoC<const T> {typedef T type;};
}
namespace classdesc_access
{
  template <class T> struct access_probe {typedef int undescribed; template <class U> void operator()(classdesc::probe_t&, const classdesc::string&, U&) {} template <class U> void type(classdesc::probe_t&, const classdesc::string&) {}};
}
namespace classdesc
{
  template <class T> void probeBase(probe_t& t, const string& d, T& a, const char* kind="B") {
    t.put(kind,d,probe_t::ty<T>(),t.at(classdesc::probeAddr(a)));
    classdesc_access::access_probe<typename PNoC<T>::type>()(t,d,a);
  }
  inline bool probeIsBase(const string& d) {return d.empty() || d[d.size()-1]=='!';}
  template <bool e> struct PVisit {template <class T> static void go(probe_t& t, const string& d, T& a) {classdesc_access::access_probe<typename PNoC<T>::type>()(t,d,a);}};
  template <> struct PVisit<true> {template <class T> static void go(probe_t&, const string&, T&) {}};   // the enumerations are probed separately
  template <class T> void probeMember(probe_t& t, const string& d, T& a) {
    t.put("M",d,probe_t::ty<T>(),t.at(probeAddr(a)));
    PVisit<__is_enum(T)>::go(t,d+"!",a);
  }
  // members and bases. The name of the object probed ends in '!', so that bases are seen not to add to it.
  template <class T> void probe(probe_t& t, const string& d, T& a) {
    if (t.isEnum) {t.put("B",d,probe_t::ty<typename PNoC<T>::type>(),""); t.seen(a);}
    else if (probeIsBase(d)) probeBase(t,d,a); else probeMember(t,d,a);
  }
  template <class E> typename PIf<!PIsFn<const E>::value>::type probe(probe_t& t, const string& d, const Enum_handle<E>& h) {
    t.put("H",d,probe_t::ty<E>(),t.isEnum? "": t.at(probeAddr(h.ref))); t.value=int(h); if (t.set) const_cast<Enum_handle<E>&>(h)=t.setTo;
  }
  template <class E> void probe(probe_t& t, const string& d, const Enum_handle<const E>& h) {t.put("H",d,probe_t::ty<E>(),t.isEnum? "": t.at(probeAddr(h.ref))); t.value=int(h);}
  template <class T> void probe_onbase(probe_t& t, const string& d, T& a) {probeBase(t,d,a,"O");}
  template <class R> typename PIf<PIsFn<R>::value>::type probe(probe_t& t, const string& d, R* const& f) {t.put("F",d,probe_t::ty<R*>(),probe_t::bytes(&f,sizeof(f)));}
  template <class R> typename PIf<PIsFn<R>::value>::type probe(probe_t& t, const string& d, R*& f) {t.put("F",d,probe_t::ty<R*>(),probe_t::bytes(&f,sizeof(f)));}   // -overload
  template <class T> void probe(probe_t& t, const string& d, is_array, T& a, int dims, size_t n, ...) {
    std::string s; char b[30]; va_list ap; va_start(ap,n);
    for (int i=0; i<dims; ++i) {snprintf(b,30,"[%ld]",i? (long)va_arg(ap,int): (long)n); s+=b;}
    va_end(ap);
    t.put("A",d,probe_t::ty<T>()+s,t.at(classdesc::probeAddr(a)));
  }
  template <class T> void probe(probe_t& t, const string& d, is_const_static, T a) {t.put("K",d,probe_t::ty<T>(),probe_t::bytes(&a,sizeof(a)));}
  template <class T> void probe(probe_t& t, const string& d, is_const_static, const T* a) {t.put("K",d,probe_t::ty<T>(),probe_t::bytes(a,sizeof(*a)));}
  // member pointers
  template <class X, bool fn=PIsFn<X>::value> struct PMbr {
    template <class M, class C> static void go(probe_t& t, const string& d, C& o, X M::*m) {t.put("F",d,probe_t::ty<X M::*>(),probe_t::bytes(&m,sizeof(m)));}
  };
  template <class X> struct PMbr<X,false> {
    template <class M, class C> static void go(probe_t& t, const string& d, C& o, X M::*m) {probeMember(t,d,o.*m);}
  };
  template <class X, bool fn=PIsFn<X>::value> struct PSMbr {static void go(probe_t& t, const string& d, X* m) {t.put("F",d,probe_t::ty<X*>(),probe_t::bytes(&m,sizeof(m)));}};
  template <class X> struct PSMbr<X,false> {static void go(probe_t& t, const string& d, X* m) {probeMember(t,d,*m);}};
  template <class C, class M, class X> void probe(probe_t& t, const string& d, C& o, X M::*m) {PMbr<X>::template go<M>(t,d,o,m);}
  template <class C, class X> void probe(probe_t& t, const string& d, C& o, X* m) {PSMbr<X>::go(t,d,m);}
  // the class-level interface
  template <class C, class B, class M> void probe_type(probe_t& t, const string& d, M m) {t.put("T",d,probe_t::ty<C>()+probe_t::ty<B>()+probe_t::ty<M>(),probe_t::bytes(&m,sizeof(m)));}
  template <class C, class B, class M> void probe_type(probe_t& t, const string& d, is_constructor, M) {t.put("TC",d,probe_t::ty<C>()+probe_t::ty<M>(),"");}
  template <class C, class B, class M> void probe_type(probe_t& t, const string& d, is_const_static, M m) {t.put("TK",d,probe_t::ty<C>()+probe_t::ty<M>(),"");}
  template <class C, class B> void probe(probe_t& t, const string& d) {t.put("TB",d,probe_t::ty<C>()+probe_t::ty<B>(),"");}
}
using classdesc::probe; using classdesc::probe_onbase;

/// what should be visited, recorded by code that the header generator writes
struct Exp
{
  classdesc::probe_t t; bool onbase;
  Exp(bool o=false): onbase(o) {}
  template <class B> void base(const std::string& d, B& b) {
    t.put(onbase? "O": "B",d,classdesc::probe_t::ty<B>(),t.at(classdesc::probeAddr(b)));
    Expect<typename classdesc::PNoC<B>::type,Exp>::go(*this,d,b);
  }
  template <class T> void mem(const std::string& d, const char* n, T& a) {
    t.put("M",d+"."+n,classdesc::probe_t::ty<T>(),t.at(classdesc::probeAddr(a)));
    Expect<typename classdesc::PNoC<T>::type,Exp>::go(*this,d+"."+n+"!",a);
  }
  template <class T> struct Dims {typedef T E; static std::string s() {return "";}};
  template <class T, size_t N> struct Dims<T[N]> {typedef typename Dims<T>::E E; static std::string s() {char b[30]; snprintf(b,30,"[%ld]",long(N)); return b+Dims<T>::s();}};
  template <class T> void arr(const std::string& d, const char* n, T& a) {t.put("A",d+"."+n,classdesc::probe_t::ty<typename Dims<T>::E>()+Dims<T>::s(),t.at(classdesc::probeAddr(a)));}
  template <class T> void uni(const std::string& d, const char* n, T& a) {char b[30]; snprintf(b,30,"[%ld]",long(sizeof(a))); t.put("A",d+"."+n,classdesc::probe_t::ty<char>()+b,t.at(classdesc::probeAddr(a)));}
  template <class T> void kst(const std::string& d, const char* n, T a) {t.put("K",d+"."+n,classdesc::probe_t::ty<T>(),t.bytes(&a,sizeof(a)));}
  template <class F> void fn(const std::string& d, const char* n, F f) {t.put("F",d+"."+n,classdesc::probe_t::ty<F>(),t.bytes(&f,sizeof(f)));}
};
#define CLASSDESC_ACCESS(type) template <class PT, class PX> friend struct ::Expect; template <class PT> friend struct classdesc::base_cast; template <class PT> friend struct classdesc_access::access_probe

template <class C> void probeClass(const char* name, bool onbase=false)
{
  report().progress(name);
  static C obj;
  for (int cst=0; cst<2; ++cst) {
    classdesc::probe_t got; Exp want(onbase);
    got.base=want.t.base=(const char*)&obj; got.size=want.t.size=sizeof(obj);
    if (cst) {
      const C& k=obj;
      classdesc_access::access_probe<C>()(got,"!",k);
      Expect<C,Exp>::go(want,"!",k);
    } else {
      classdesc_access::access_probe<C>()(got,"!",obj);
      Expect<C,Exp>::go(want,"!",obj);
    }
    std::string w, g, d="(no difference)"; const std::vector<std::string> &a=got.log, &b=want.t.log;
    size_t i=0; while (i<a.size() && i<b.size() && a[i]==b[i]) ++i;
    for (size_t j=0; j<a.size(); ++j) g+=a[j]+"\n";
    for (size_t j=0; j<b.size(); ++j) w+=b[j]+"\n";
    const char* key="wrong";
    if (i<a.size() || i<b.size()) {
      if (a.size()>b.size()) key="visits-too-many"; else if (a.size()<b.size()) key="visits-too-few";
      d="class "+std::string(name)+": visit "+(i<a.size()? a[i]: "(none)")+" expected "+(i<b.size()? b[i]: "(none)")+"\nvisited:\n"+g+"expected:\n"+w;
    }
    CHECK(a==b,key,d);
    report().count("visits",b.size()); report().count("objects"); report().distinct(w); if (!cst) report().sample(w.substr(0,600));
  }
}

/// the descriptor of an enumeration gives access to the value as an integer, or as a symbol
template <class E> void probeEnum(const char* name, bool symbolic, const E* keys, int n)
{
  report().progress(name);
  for (int i=0; i<n; ++i)
    for (int cst=0; cst<2; ++cst) {
      struct {unsigned char before[8]; E e; unsigned char after[8];} o; memset(&o,0x5a,sizeof(o)); o.e=keys[i];
      classdesc::probe_t got; got.isEnum=true;
      if (cst) {const E& k=o.e; classdesc_access::access_probe<E>()(got,"!",k);}
      else {got.set=true; got.setTo=int(keys[n-1-i]); classdesc_access::access_probe<E>()(got,"!",o.e);}
      std::string want=symbolic? "H ! "+classdesc::probe_t::ty<E>()+" ": "B ! "+classdesc::probe_t::ty<int>()+" ";
      CHECK(got.log.size()==1 && got.log[0]==want && got.value==int(keys[i]),"enum","enumeration "+std::string(name)+" visit "+(got.log.size()? got.log[0]: "(none)")+" expected "+want);
      CHECK(o.e==keys[cst? i: n-1-i],"enum-value","enumeration "+std::string(name)+" not assigned, or altered, through its descriptor");
      for (int j=0; j<8; ++j) CHECK(o.before[j]==0x5a && o.after[j]==0x5a,"enum-overrun","enumeration "+std::string(name)+": write beyond it");
    }
  report().count("enumerations");
}
#endif
