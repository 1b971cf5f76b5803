// Hostile text for the XML reader.
#ifndef H_XMLHOSTILE_H
#define H_XMLHOSTILE_H
#include "h_xml.h"
static const char* xfrag[]={"<",">","/>","</","<!--","-->","<![CDATA[","]]>","<!","<!-","<![","<![CDAT","<?","?>","&","&#","&#x","&#;","&#x;","&#1114112;","&#99999999999999999999;","&#x110000;","&#-1;","&#-200;","&lt","&;","&foo;","&amp",
  "\"","'","=","= ","=\"","a=b","a","/","<a>","</a>","<a/>","<root>","</root>","<a b='c'","<!DOCTYPE a [","]>","#","#0",".","<.>","<#1>","<a#0>","<root.a>"," ","\n","\t","xmlns=\"","NaN","INF","-INF","1e999","-","99999999999999999999999","true","0x10"};
inline std::string xmutate(Rng& r, std::string s)
{
  for (unsigned k=1+r.below(3); k; --k)
    switch (r.below(10)) {
    case 0: s.resize(r.below(s.size()+1)); break;
    case 1: if (!s.empty()) s[r.below(s.size())]^=char(1u<<r.below(8)); break;
    case 2: if (!s.empty()) s.erase(r.below(s.size()),1+r.below(12)); break;
    case 3: case 4: case 5: s.insert(r.below(s.size()+1),xfrag[r.below(sizeof(xfrag)/sizeof(*xfrag))]); break;
    case 6: {size_t a=r.below(s.size()+1); std::string p=s.substr(a,1+r.below(60)); s.insert(r.below(s.size()+1),p); break;}
    case 7: if (!s.empty()) s[r.below(s.size())]=char(r.next()); break;
    case 8: {std::string::size_type a=s.find(r.coin()? '<': '>',r.below(s.size()+1)); if (a!=std::string::npos) s.insert(a+r.below(2),xfrag[r.below(sizeof(xfrag)/sizeof(*xfrag))]); break;}
    default: if (r.coin(6)) {s.clear(); for (unsigned n=r.below(30); n; --n) if (r.coin()) s+=xfrag[r.below(sizeof(xfrag)/sizeof(*xfrag))]; else s+=char(r.next());}
    }
  return s;
}
template <class T> void xmlHostile(const char* name, uint64_t seed, unsigned iters)
{
  XHolder<T> y;
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*100003+it); xmlRng(r); r.budget=30;
    XHolder<T> x; r.noNull=IsPtrItem<T>::value; Ops<T>::gen(r,x.v);
    std::string good=xmlDoc(x.v,"root",r.coin(),"",r.coin()), bad=xmutate(r,good);
    char p[60]; snprintf(p,60,"%s|%u|",name,it); report().progress(p+Report::esc(bad.substr(0,800)));
    bool threw=false; unsigned how=r.below(6);
    if (bad.empty()) bad=" ";
    try {xmlRead(how,bad,"root",y.v,how>=3);} catch (const std::exception&) {threw=true;}
    report().count("checks"); report().count(threw? "rejected": "accepted"); report().distinct(bad);
    std::string s=vstr(y.v);                       // everything in it can be looked at
    if (r.coin(3)) xmlDoc(y.v,"root",false,"",false);
    if (r.coin(4)) {
      try {xmlRead(r.below(3),good,"root",y.v); CHECK(Ops<T>::same(x.v,y.v),"target-unusable-afterwards",s+" then "+vstr(x.v)+" read as "+vstr(y.v)+" from "+good);}
      catch (const std::exception& e) {CHECK(false,"good-document-refused",std::string(e.what())+": "+good);}
    }
    if (r.coin(6)) Ops<T>::gen(r,y.v);
  }
}
#endif
