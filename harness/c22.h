// recording targets for the functional layer
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <iostream>
#include <stdio.h>
#include <memory>
#include "pack_base.h"
#include "function.h"
#include "pack_epilogue.h"
using namespace classdesc::functional;
enum E {e0,e1,e2,e3};
struct Pt {int a; std::string b; Pt(): a(-1) {}};
namespace classdesc {template <> inline std::string typeName<Pt>() {return "Pt";} template <> inline std::string typeName<E>() {return "E";}}
inline classdesc::pack_t& operator<<(classdesc::pack_t& p, const Pt& x) {return p<<x.a<<x.b;}
inline classdesc::pack_t& operator>>(classdesc::pack_t& p, Pt& x) {return p>>x.a>>x.b;}
inline classdesc::pack_t& operator<<(classdesc::pack_t& p, const E& x) {return p<<int(x);}
inline classdesc::pack_t& operator>>(classdesc::pack_t& p, E& x) {int i; p>>i; x=E(i); return p;}
namespace classdesc_access {
  template <> struct access_pack<Pt> {template <class U> void operator()(classdesc::pack_t& p, const classdesc::string&, U& x) {p<<x.a<<x.b;}};
  template <> struct access_unpack<Pt> {template <class U> void operator()(classdesc::pack_t& p, const classdesc::string&, U& x) {p>>x.a>>x.b;}};
}
// values
template <class T> struct Mk;
template <class T> T make(unsigned s) {return Mk<T>::f(s*2654435761u+12345);}
#define MK(T,X) template <> struct Mk<T> {static T f(unsigned s) {(void)s; X;}}
MK(int,return int(s)); MK(bool,return s&64); MK(char,return char('!'+s%90)); MK(unsigned char,return (unsigned char)(s>>7)); MK(long,return long(s)*-77777); MK(double,return s*1.0009765625e-3); MK(float,return float(s%100000)/8);
MK(short,return short(s)); MK(E,return E((s>>5)%4));
MK(std::string,std::ostringstream o; o<<s; return (s&256)? o.str(): std::string(s%60,'q')+o.str());
MK(Pt,Pt p; p.a=int(s); p.b=Mk<std::string>::f(s+7); return p);
MK(std::vector<int>,std::vector<int> v; for (unsigned i=0; i<s%5; ++i) v.push_back(int(s+i)); return v);
MK(std::vector<std::string>,std::vector<std::string> v; for (unsigned i=0; i<s%4; ++i) v.push_back(Mk<std::string>::f(s+i)); return v);
#if __cplusplus>=201103L
MK(std::unique_ptr<int>,return std::unique_ptr<int>(new int(s)));
#endif
template <class T> std::string show(const T& x) {std::ostringstream o; o.precision(18); o<<x; return o.str();}
inline std::string show(const Pt& x) {return show(x.a)+"/"+x.b;}
inline std::string show(const char* x) {return x? x: "(null)";}
inline std::string show(unsigned char x) {return show(int(x));}
template <class T> std::string show(const std::vector<T>& x) {std::string r="["; for (size_t i=0; i<x.size(); ++i) r+=show(x[i])+";"; return r+"]";}
#if __cplusplus>=201103L
inline std::string show(const std::unique_ptr<int>& x) {return x? show(*x): "none";}
#endif
// what the targets saw
template <class T> T init() {return T();}
struct Boom {int k; Boom(int k): k(k) {}};
struct Rec {int k; const void* obj; std::vector<std::string> args; std::vector<const void*> at;};
std::vector<Rec> calls; bool boom=false;
struct Call
{
  Call(int k, const void* obj) {Rec r; r.k=k; r.obj=obj; calls.push_back(r);}
  template <class T> void arg(const T& x) {calls.back().args.push_back(show(x)); calls.back().at.push_back(&x);}
  void end() {if (boom) throw Boom(calls.back().k);}
};
template <class R> struct Result {static R& slot(int k) {static R r; r=make<R>(900+k); return r;} static R of(int k) {return make<R>(900+k);}};
template <class R> struct Result<R&> {static R& slot(int k) {static R r; (void)k; return r;} static R& of(int k) {R& r=slot(k); r=make<R>(900+k); return r;}};
// an argument array: element i converts to whatever is asked for
struct Val {unsigned s; template <class T> operator T() const {return make<T>(s);}};
struct Vals {std::vector<unsigned> s; Val operator[](size_t i) const {Val v; v.s=s.at(i); return v;}};
long ncalls=0, ncases=0;
struct Case
{
  int k; const char* form; const void* obj; std::vector<std::string> want; std::vector<const void*> at; bool gone, refused;
  Case(int k, const char* form, const void* obj, bool b): k(k), form(form), obj(obj), gone(false), refused(false) {calls.clear(); boom=b; ++ncases;}
  void bad(const std::string& what) {if (!gone) printf("V\t%d\t%s\t%s\n",k,form,what.c_str()); gone=true;}
  template <class R> void ret(const R& r) {std::string w=show(make<R>(900+k)); if (show(r)!=w) bad("result is "+show(r)+" instead of "+w);}
  template <class R> void same(R& r) {if (&r!=&Result<R&>::slot(k)) bad("the returned reference refers to another object"); ret(r);}
  void end()
  {
    boom=false;
    if (refused) {if (!calls.empty()) bad("called in spite of the exception"); return;}
    if (calls.size()!=1) {bad("called "+show(calls.size())+" times"); return;}
    ++ncalls;
    const Rec& r=calls[0];
    if (r.k!=k) bad("called "+show(r.k));
    if (r.obj!=obj) bad("called on another object");
    if (r.args.size()!=want.size()) bad("another number of arguments");
    for (size_t i=0; i<want.size() && i<r.args.size(); ++i)
      {
        if (r.args[i]!=want[i]) bad("argument "+show(i+1)+" is \""+r.args[i]+"\" instead of \""+want[i]+"\"");
        if (i<at.size() && at[i] && r.at[i]!=at[i]) bad("argument "+show(i+1)+" does not refer to the caller's object");
      }
  }
};
