// Schemas and documents for an outside validator.
#ifndef H_XSD_H
#define H_XSD_H
#include "h_xml.h"
// dir/<name>.xsd, dir/<name>.<it>.xml
template <class T> void xsdDocs(const std::string& dir, const char* name, uint64_t seed, unsigned iters)
{
  char p[80]; snprintf(p,80,"%s|schema",name); report().progress(p);
  std::string first;
  for (int v=0; v<2; ++v) {
    Rng r(seed+v); xmlRng(r); XHolder<T> x; if (v) Ops<T>::gen(r,x.v);
    std::string b=vstr(x.v); std::ostringstream o;
    classdesc::xsd_generate_t g; ::xsd_generate(g,"root",x.v); g.output(o,"urn:demo:x");
    CHECK(vstr(x.v)==b,"schema-changed-object",b);
    std::ostringstream o2; g.output(o2,"urn:demo:x"); CHECK(o2.str()==o.str(),"schema-output-not-repeatable",o.str());
    if (!v) {first=o.str(); std::ofstream f((dir+"/"+name+".xsd").c_str()); f<<first; report().sample(first);}
    else CHECK(o.str()==first,"schema-depends-on-value",first+"\nversus\n"+o.str());
  }
  report().count("schemas"); report().distinct(first);
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*100003+it); xmlRng(r); snprintf(p,80,"%s|%u",name,it); report().progress(p);
    XHolder<T> x; Ops<T>::gen(r,x.v);
    std::string doc=xmlDoc(x.v,"root",r.coin(),"urn:demo:x",r.coin());
    char q[40]; snprintf(q,40,".%u.xml",it); std::ofstream f((dir+"/"+name+q).c_str()); f<<doc;
    report().count("documents"); report().distinct(doc);
  }
}
#endif
