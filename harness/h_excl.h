// What lies in excluded members (XO), and a program that prints what every descriptor makes of an object.
#ifndef H_EXCL_H
#define H_EXCL_H
#include "h_xml.h"
template <class T, class E=void> struct XO {static void gen(Rng&, T&) {} static void show(std::ostream&, const T&) {}};
template <class T, size_t N> struct XO<T[N]> {
  static void gen(Rng& r, T (&x)[N]) {for (size_t i=0; i<N; ++i) XO<T>::gen(r,x[i]);}
  static void show(std::ostream& o, const T (&x)[N]) {for (size_t i=0; i<N; ++i) XO<T>::show(o,x[i]);}
};
#if __cplusplus>=201103L
template <class T, size_t N> struct XO<std::array<T,N> > {
  static void gen(Rng& r, std::array<T,N>& x) {for (size_t i=0; i<N; ++i) XO<T>::gen(r,x[i]);}
  static void show(std::ostream& o, const std::array<T,N>& x) {for (size_t i=0; i<N; ++i) XO<T>::show(o,x[i]);}
};
#endif
template <class T> struct XInner {   // classes: the wrapper is one
  static T& of(classdesc::Exclude<T>& x) {return static_cast<T&>(x);} static const T& of(const classdesc::Exclude<T>& x) {return static_cast<const T&>(x);}
};
#define XI(T) template <> struct XInner<T > {static T& of(classdesc::Exclude<T >& x) {return x.val;} static const T& of(const classdesc::Exclude<T >& x) {return x.val;}};
XI(bool) XI(char) XI(signed char) XI(unsigned char) XI(short) XI(unsigned short) XI(int) XI(unsigned) XI(long) XI(unsigned long) XI(long long) XI(unsigned long long) XI(float) XI(double) XI(long double)
template <class T> struct XO<classdesc::Exclude<T> > {
  static void gen(Rng& r, classdesc::Exclude<T>& x) {Ops<T>::gen(r,XInner<T>::of(x)); report().count("excluded_members_set");}
  static void show(std::ostream& o, const classdesc::Exclude<T>& x) {o<<" "; Ops<T>::show(o,XInner<T>::of(x));}
};
template <class T> struct XO<classdesc::Exclude<T*> > {
  static void gen(Rng& r, classdesc::Exclude<T*>& x) {static T v[4]={T(),T(),T(),T()}; x.val=r.coin(3)? 0: v+r.below(4); report().count("excluded_members_set");}
  static void show(std::ostream& o, const classdesc::Exclude<T*>& x) {o<<" "<<(const void*)x.val;}
};
template <class T> std::string xstr(const T& x) {std::ostringstream o; XO<T>::show(o,x); return o.str();}
inline std::string hex(const classdesc::pack_t& b) {std::string r; char h[4]; for (size_t i=0; i<b.size(); ++i) {snprintf(h,4,"%02x",(unsigned char)b.data()[i]); r+=h;} return r;}
struct Lcg: public classdesc::random_init_t {uint64_t s; Lcg(uint64_t s): s(s) {} double rand() {s=s*6364136223846793005ULL+1442695040888963407ULL; return double(s>>11)/9007199254740992.0;}};
inline void out(FILE* f, const char* name, unsigned it, const char* what, const std::string& s) {fprintf(f,"%s.%u.%s\t%s\n",name,it,what,Report::esc(s).c_str());}
// the same for both twins: f receives what each descriptor wrote or read
template <class T> void exclType(FILE* f, const char* name, uint64_t seed, unsigned iters)
{
  {char p[80]; snprintf(p,80,"%s|schema",name); report().progress(p);
    static T z; classdesc::xsd_generate_t g; ::xsd_generate(g,"root",z); std::ostringstream o; g.output(o,"urn:demo:x"); out(f,name,0,"xsd",o.str());}
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*9973+it), e(seed*77+it), e2(seed*177+it), q(seed*911+it); r.strMode=q.strMode=1; r.nonfinite=q.nonfinite=false; r.maxLen=q.maxLen=3; r.long32=q.long32=true; r.budget=q.budget=80;
    char p[80]; snprintf(p,80,"%s|%u",name,it); report().progress(p);
    static T x, y, u, v; XHolder<T> w; Ops<T>::gen(r,x); Ops<T>::gen(q,y); Ops<T>::gen(q,u); Ops<T>::gen(q,v); Ops<T>::gen(q,w.v);
    XO<T>::gen(e,x); XO<T>::gen(e2,y); XO<T>::gen(e2,u); XO<T>::gen(e2,v); XO<T>::gen(e2,w.v);
    std::string bx=vstr(x), ex=xstr(x), ey=xstr(y), eu=xstr(u), ev=xstr(v), ew=xstr(w.v); const T& cx=x;
    classdesc::pack_t b; b<<cx; out(f,name,it,"pack",hex(b)); {classdesc::pack_t c; c<<x; CHECK(hex(c)==hex(b),"const-pack-differs",bx);}
    classdesc::xdr_pack xb; xb<<cx; out(f,name,it,"xdr",hex(xb));
    std::string doc=xmlDoc(x,"root",it%2,"",it%3==0); out(f,name,it,"xml",doc);
    {std::ostringstream o; classdesc::dump_t t(o); t.precision(18); classdesc::dump(t,"",it%2? cx: x); out(f,name,it,"dump",o.str());}
    CHECK(vstr(x)==bx && xstr(x)==ex,"writing-changed",bx);
    b>>y; CHECK(xstr(y)==ey,"unpack-touched-excluded",bx+": was "+ey+" now "+xstr(y)); CHECK(Ops<T>::same(x,y),"unpack-lost",bx);
    xb>>u; CHECK(xstr(u)==eu,"xdr-touched-excluded",bx+": was "+eu+" now "+xstr(u)); CHECK(Ops<T>::same(x,u),"xdr-lost",bx);
    {std::istringstream i(doc); classdesc::xml_unpack_t t(i); t.missingException=it%2; bool ok=true; try {::xml_unpack(t,"root",w.v);} catch (const std::exception& x) {ok=false; CHECK(false,"exception",x.what()+doc);}
      CHECK(xstr(w.v)==ew,"xml-touched-excluded",doc+": was "+ew+" now "+xstr(w.v)); CHECK(!ok || Ops<T>::same(x,w.v),"xml-lost",doc+" read as "+vstr(w.v));}
    {Lcg l(seed+it); classdesc::random_init(l,"",v); out(f,name,it,"random",vstr(v)); CHECK(xstr(v)==ev,"random-touched-excluded","was "+ev+" now "+xstr(v));}
    report().count("objects"); report().distinct(bx+ex); if (it==0) report().sample(ex+" in "+bx.substr(0,300));
  }
}
#endif
