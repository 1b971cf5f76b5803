// CDATA members and null items: round trips that need hand-made classes.
#include "classdesc_access.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include <list>
#include <vector>
#include "g10/cd.h"
#include "h_xml.h"
#include "g10.cd"
#include "classdesc_epilogue.h"
using namespace g10;
static std::string cdtext(Rng& r)
{
  static const char* p[]={"]]>","]]","]",">","<","&","&amp;","<![CDATA[","<a>","</a>"," ","\n","\t","x","yz","\xc3\xa9","\"","'","-->","?>"};
  std::string s; for (unsigned n=r.below(9); n; --n) s+=p[r.below(sizeof(p)/sizeof(p[0]))]; return s;
}
static void set(classdesc::CDATA& c, const std::string& s) {static_cast<std::string&>(c)=s;}
static std::string show(const Inner& x) {std::ostringstream o; o<<x.n<<":"; Ops<std::string>::show(o,x.text); return o.str();}
static std::string show(const WithCData& x)
{
  std::ostringstream o; Ops<std::string>::show(o,x.a); Ops<std::string>::show(o,x.b); o<<show(x.i); Ops<std::string>::show(o,x.z);
  for (size_t k=0; k<x.v.size(); ++k) o<<","<<show(x.v[k]); return o.str();
}
static void fill(Rng& r, WithCData& x)
{
  set(x.a,cdtext(r)); Ops<std::string>::gen(r,x.b); x.i.n=r.below(100); set(x.i.text,cdtext(r)); set(x.z,cdtext(r)); x.v.clear();
  for (unsigned n=r.below(3); n; --n) {Inner i; i.n=r.below(9); set(i.text,cdtext(r)); x.v.push_back(i);}
}
static std::string show(const Items& x)
{
  std::ostringstream o; for (size_t k=0; k<x.p.size(); ++k) if (x.p[k].get()) o<<*x.p[k]<<","; else o<<"null,";
  o<<";"; for (std::list<classdesc::shared_ptr<Inner> >::const_iterator k=x.q.begin(); k!=x.q.end(); ++k) if (k->get()) o<<show(**k)<<","; else o<<"null,";
  o<<";"<<x.after; return o.str();
}
int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]); FILE* out=fopen(argv[3],"w");
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*7001+it); xmlRng(r);
    char p[80]; snprintf(p,80,"cdata|%u",it); report().progress(p);
    WithCData x, y; fill(r,x); if (r.coin()) fill(r,y);
    bool pretty=r.coin(); std::string b=show(x), doc=xmlDoc(x,"root",pretty,r.coin()? "urn:a": "",r.coin());
    fprintf(out,"%s\t%s\t%s\n",xhex(doc).c_str(),xhex(x.a).c_str(),xhex(x.i.text).c_str());
    try {xmlRead(r.below(6),doc,"root",y,r.coin()); CHECK(show(y)==b,std::string("cdata-value:")+(pretty? "pretty": "plain"),b+" read back as "+show(y)+" from "+doc);}
    catch (const std::exception& e) {CHECK(false,"cdata-exception",b+": "+e.what()+" on "+doc);}
    report().count("cdata"); report().distinct(b);
    snprintf(p,80,"items|%u",it); report().progress(p);
    Items s, t; bool nulls=false;
    for (unsigned n=r.below(5); n; --n) {classdesc::shared_ptr<int> q; if (r.coin(3)) nulls=true; else q.reset(new int(r.below(9))); s.p.push_back(q);}
    for (unsigned n=r.below(4); n; --n) {classdesc::shared_ptr<Inner> q; if (r.coin(3)) nulls=true; else {q.reset(new Inner); q->n=r.below(7); set(q->text,cdtext(r));} s.q.push_back(q);}
    s.after=r.below(1000); b=show(s); doc=xmlDoc(s,"root",pretty,"",false);
    try {xmlRead(r.below(6),doc,"root",t); bool same=show(t)==b;
      if (nulls) {CHECK(t.after==s.after,"items-after","member after the items lost: "+doc); CHECK(same,"null-items-lost",b+" read back as "+show(t)+" from "+doc);}
      else CHECK(same,"items",b+" read back as "+show(t)+" from "+doc);}
    catch (const std::exception& e) {CHECK(false,"items-exception",b+": "+e.what()+" on "+doc);}
    report().count("items");
  }
  fclose(out); report().done(); return 0;
}
