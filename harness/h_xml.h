// Monitors for the XML serialiser.
#ifndef H_XML_H
#define H_XML_H
#include "h_xmlexp.h"
#include <fstream>
#include <time.h>
template <class T> struct XHolder {T v; XHolder(): v() {}};
static const char* xroots[]={"root","a","Root_1","object.x","x-y"};
inline const char* xroot(Rng& r) {static const char* n[]={"root","a","Root_1","x-y"}; return n[r.below(4)];}
template <class T> std::string xmlDoc(T& x, const char* root, bool pretty, const char* schema, bool cst)
{
  std::ostringstream o; o.precision(18);
  classdesc::xml_pack_t t(o,schema); t.prettyPrint=pretty;
  const T& c=x;
  if (cst && !strcmp(root,"root")) t<<c; else if (cst) ::xml_pack(t,root,c); else ::xml_pack(t,root,x);
  return o.str();
}
// reads a document by one of the supported means
template <class T> void xmlRead(unsigned how, const std::string& doc, const char* root, T& y, bool strict=false)
{
  if (how%3==0) {
    FILE* f=fmemopen(const_cast<char*>(doc.data()),doc.size()? doc.size(): 1,"r"); struct C {FILE* f; ~C() {fclose(f);}} c={f}; (void)c;
    classdesc::xml_unpack_t t(f); t.missingException=strict; ::xml_unpack(t,root,y);
  } else if (how%3==1) {
    std::istringstream i(doc); classdesc::xml_unpack_t t(i); t.missingException=strict; if (strcmp(root,"root")) ::xml_unpack(t,root,y); else t>>y;
  } else {
    std::istringstream j("<other><root><z>1</z></root></other>"); classdesc::xml_unpack_t t; t.parse(j); t.clear();
    std::istringstream i(doc); t.parse(i); t.missingException=strict; ::xml_unpack(t,root,y);
  }
}
inline void xmlRng(Rng& r) {r.strMode=1; r.maxLen=4; r.budget=80;}
template <class T> void xmlRoundTrip(const char* name, uint64_t seed, unsigned iters, bool deterministic)
{
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*100003+it); xmlRng(r);
    char p[80]; snprintf(p,80,"%s|%u",name,it); report().progress(p);
    XHolder<T> x; r.noNull=IsPtrItem<T>::value; Ops<T>::gen(r,x.v); std::string before=vstr(x.v);
    const char* root=xroot(r); bool pretty=r.coin(); const char* schema=r.coin()? "urn:demo:x": ""; bool cst=r.coin();
    std::string doc=xmlDoc(x.v,root,pretty,schema,cst);
    CHECK(vstr(x.v)==before,"writing-changed-source",before+" became "+vstr(x.v));
    if (deterministic) CHECK(xmlDoc(x.v,root,pretty,schema,!cst)==doc,"not-deterministic",doc);
    XHolder<T> y; bool used=r.coin(); if (used) Ops<T>::gen(r,y.v);
    std::string prior=vstr(y.v); unsigned how=r.below(6);
    try {
      xmlRead(how,doc,root,y.v,how>=3);
      CHECK(Ops<T>::same(x.v,y.v),std::string("value:")+(used? "used": "fresh"),before+" read back as "+vstr(y.v)+" (target held "+prior+") from "+doc);
    } catch (const std::exception& e) {CHECK(false,std::string("exception:")+(how>=3? "strict": "plain"),before+": "+e.what()+" on "+doc);}
    report().count("round_trips"); report().distinct(before); if (it==0) report().sample(doc);
  }
}
// one line per document for an outside reader: type, root, pretty, schema, document, expected tree
template <class T> void xmlDocs(FILE* out, const char* name, uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*100003+it); xmlRng(r);
    char p[80]; snprintf(p,80,"%s|%u",name,it); report().progress(p);
    XHolder<T> x; r.noNull=IsPtrItem<T>::value; Ops<T>::gen(r,x.v);
    const char* root=xroot(r); bool pretty=r.coin(); const char* schema=r.coin()? "urn:demo:x": "";
    std::string doc=xmlDoc(x.v,root,pretty,schema,r.coin()), exp;
    XExp<T>::elem(exp,root,x.v);
    fprintf(out,"%s\t%u\t%s\t%d\t%s\t%s\t%s\n",name,it,root,int(pretty),schema,xhex(doc).c_str(),xhex(exp).c_str());
    report().count("checks"); report().count("documents"); report().distinct(doc); if (it==0) report().sample(doc);
  }
}
inline std::string unhex(const std::string& s);
// read documents somebody else wrote: expect the value of that seed (kind full), or that value
// with the part called path as it was in the target before (kind drop)
template <class T, class E=void> struct XTops {static void go(std::map<std::string,std::string>&, const T&) {}};
template <class T> struct XHasTops {
  template <class U> static char f(void (*)(std::map<std::string,std::string>&, const U&), int);
  template <class U> static char g(U*, char (*)[sizeof(f<U>(&Ops<U>::tops,0))]); template <class U> static long g(...);
  enum {value=sizeof(g<T>(0,0))==1};
};
template <bool> struct XIf {}; template <> struct XIf<true> {typedef void type;};
template <class T> struct XTops<T,typename XIf<XHasTops<T>::value>::type> {static void go(std::map<std::string,std::string>& o, const T& x) {Ops<T>::tops(o,x);}};
inline bool xunder(const std::string& k, const std::string& p) {return k.size()>p.size() && k[p.size()]=='.' && k.compare(0,p.size(),p)==0;}
template <class T> void xmlReads(const char* file, const char* name, uint64_t seed)
{
  typedef std::map<std::string,std::string> M;
  std::ifstream f(file); std::string line;
  while (std::getline(f,line)) {
    std::vector<std::string> w; std::string::size_type a=0, b;
    while ((b=line.find('\t',a))!=std::string::npos) {w.push_back(line.substr(a,b-a)); a=b+1;}
    w.push_back(line.substr(a));
    if (w.size()!=7 || w[0]!=name) continue;
    unsigned it=atoi(w[1].c_str()), no=atoi(w[5].c_str()); const char* root=w[2].c_str(); bool drop=w[3]!="full"; const std::string& path=w[4];
    Rng r(seed*100003+it); xmlRng(r);
    char p[80]; snprintf(p,80,"%s|%u|%u",name,it,no); report().progress(p);
    XHolder<T> x; r.noNull=IsPtrItem<T>::value; Ops<T>::gen(r,x.v);
    Rng q(seed*7+it*131+no); xmlRng(q);
    XHolder<T> y; if (drop || q.coin()) {q.noNull=IsPtrItem<T>::value; Ops<T>::gen(q,y.v);}
    std::string doc=unhex(w[6]), prior=vstr(y.v);
    M want, was, got; XTops<T>::go(want,x.v); XTops<T>::go(was,y.v);
    if (drop && !want.count(path)) {report().count("drop_skipped"); continue;}
    bool strict=q.coin(3), throws=drop && strict && w[3]=="dropleaf" && was[path].compare(0,2,"->") && was[path]!="null";
    if (drop && strict && !throws) strict=false;
    try {
      xmlRead(q.below(3),doc,root,y.v,strict);
      if (throws) {CHECK(false,"missing-not-reported",path+" from "+doc); continue;}
      if (!drop) {CHECK(Ops<T>::same(x.v,y.v),"value",vstr(x.v)+" read back as "+vstr(y.v)+" (target held "+prior+") from "+doc); report().count("variants"); report().distinct(doc);}
      else {
        XTops<T>::go(got,y.v);
        for (M::iterator i=want.begin(); i!=want.end(); ++i) {
          if (xunder(path,i->first)) continue;
          std::string e=i->second; bool gone=i->first==path || xunder(i->first,path);
          if (gone) {e=was[i->first]; if (e.compare(0,2,"->")==0) e="null"; else if (e.find("->")!=std::string::npos) continue;}
          CHECK(got[i->first]==e,gone? "absent-changed": "other-changed",i->first+"="+got[i->first]+" instead of "+e+"; "+path+" absent from "+doc);
        }
        report().count("absent");
      }
    } catch (const std::exception& e) {
      if (throws) {report().count("checks"); report().count("strict_refusals");}
      else CHECK(false,"exception",vstr(x.v)+": "+e.what()+" on "+doc);
    }
  }
}
inline std::string unhex(const std::string& s) {std::string r; for (size_t i=0; i+1<s.size(); i+=2) r+=char(strtol(s.substr(i,2).c_str(),0,16)); return r;}
#endif
