// StringKeyMap: the entries are elements named by their keys.
#ifndef H_SKM_H
#define H_SKM_H
#include "h_xml.h"
template <class T> struct Ops<classdesc::StringKeyMap<T> > {
  typedef classdesc::StringKeyMap<T> C;
  static std::string key(Rng& r) {
    static const char* w[]={"a","b","a-b","ab","ab-c","_","A","int","string","pair","second","k1","k-","StringKeyMap","vector","zz"};
    if (r.coin(3)) return w[r.below(sizeof(w)/sizeof(*w))];
    static const char f[]="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-";
    std::string k(1,f[r.below(53)]); for (unsigned n=r.below(6); n; --n) k+=f[r.below(sizeof(f)-1)];
    return k=="root" || k=="xml"? "rx": k;
  }
  static void gen(Rng& r, C& x) {x.clear(); for (unsigned n=r.below(5); n; --n) {std::string k=key(r); if (x.count(k)) continue; T v=T(); r.noNull=IsPtrItem<T>::value; Ops<T>::gen(r,v); x[k]=v;}}
  static bool same(const C& a, const C& b) {
    if (a.size()!=b.size()) return false;
    typename C::const_iterator i=a.begin(), j=b.begin();
    for (; i!=a.end(); ++i,++j) if (i->first!=j->first || !Ops<T>::same(i->second,j->second)) return false;
    return true;
  }
  static void show(std::ostream& o, const C& x) {o<<"{"; for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {o<<(i==x.begin()? "": ",")<<i->first<<"="; Ops<T>::show(o,i->second);} o<<"}";}
};
template <class T> struct XName<classdesc::StringKeyMap<T> > {static std::string s() {return "StringKeyMap";}};
template <class T> struct XExp<classdesc::StringKeyMap<T> > {
  typedef classdesc::StringKeyMap<T> C;
  static void kids(std::string& o, const C& x) {for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) XExp<T>::elem(o,i->first,i->second);}
  static void elem(std::string& o, const std::string& n, const C& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";}
};
// a document which lacks the map leaves it alone; one which holds it replaces it
template <class T> void skmAbsent(const char* name, uint64_t seed, unsigned iters)
{
  typedef classdesc::StringKeyMap<T> C;
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*100003+it); xmlRng(r); char p[80]; snprintf(p,80,"%s|%u",name,it); report().progress(p);
    C x; Ops<C>::gen(r,x); std::string b=vstr(x);
    {std::istringstream i("<root><n>1</n></root>"); classdesc::xml_unpack_t t(i); ::xml_unpack(t,"root.m",x);}
    CHECK(vstr(x)==b,"absent-map-changed",b+" became "+vstr(x));
    {std::istringstream i(r.coin()? "<root><m/></root>": "<root><m>  </m><n>3</n></root>"); classdesc::xml_unpack_t t(i); ::xml_unpack(t,"root.m",x);}
    CHECK(x.empty(),"empty-map-kept-entries",vstr(x));
    std::istringstream i("<root><n>1</n></root>"); classdesc::xml_unpack_t t(i); t.missingException=true; bool thrown=false;
    try {::xml_unpack(t,"root.m",x);} catch (const std::exception&) {thrown=true;}
    CHECK(thrown,"missing-map-not-reported",b); report().count("absent");
  }
}
#endif
