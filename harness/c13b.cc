// Whole documents of extreme shape: the reader must end, in time proportionate
// to their size, and its stack must not overflow.
#include "classdesc_access.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include <list>
#include <vector>
#include <string>
#include <map>
#include "g13/rec.h"
#include "h_xml.h"
#include "g13.cd"
#include "classdesc_epilogue.h"
#include <time.h>
#include <sys/resource.h>
static double now() {struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID,&t); return t.tv_sec+1e-9*t.tv_nsec;}
static std::string rep(const std::string& s, size_t n) {std::string r; r.reserve(s.size()*n); for (; n; --n) r+=s; return r;}
static std::string num(size_t i) {char b[30]; snprintf(b,30,"%lu",(unsigned long)i); return b;}
struct Shape {const char* name; std::string (*f)(size_t);};
static std::string wide(size_t n) {return "<root><v>"+rep("<int>7</int>",n/12)+"</v></root>";}
static std::string widePretty(size_t n) {return "<root>\n  <v>\n"+rep("    <int> 7 </int>\n",n/19)+"  </v>\n</root>\n";}
static std::string strings(size_t n) {return "<root><s>"+rep("<string>a b c</string>",n/22)+"</s></root>";}
static std::string text(size_t n) {return "<root><t>"+rep("lorem ipsum ",n/12)+"</t></root>";}
static std::string space(size_t n) {return "<root>"+rep(" ",n)+"</root>";}
static std::string ents(size_t n) {return "<root><t>"+rep("&amp;&#65;",n/10)+"</t></root>";}
static std::string cdatas(size_t n) {return "<root><t>"+rep("<![CDATA[x]]>",n/13)+"</t></root>";}
static std::string cdata1(size_t n) {return "<root><t><![CDATA["+rep("]",n)+"]]></t></root>";}
static std::string comments(size_t n) {return "<root>"+rep("<!-- - -->",n/10)+"</root>";}
static std::string comment1(size_t n) {return "<root><!--"+rep("- ",n/2)+"--></root>";}
static std::string attrs(size_t n) {std::string r="<root"; for (size_t i=0; i<n/14; ++i) r+=" a"+num(i)+"=\"x\""; return r+"></root>";}
static std::string attr1(size_t n) {return "<root a=\""+rep("x",n)+"\"></root>";}
static std::string names(size_t n) {std::string r="<root>"; for (size_t i=0; i<n/20; ++i) r+="<e"+num(i)+">1</e"+num(i)+">"; return r+"</root>";}
static std::string name1(size_t n) {return "<root><"+rep("n",n/2)+">1</"+rep("n",n/2)+"></root>";}
static std::string pis(size_t n) {return "<root>"+rep("<?p ?>",n/6)+"</root>";}
static std::string doctype(size_t n) {return "<!DOCTYPE r ["+rep("<!ELEMENT a ANY>",n/16)+"]><root><t>x</t></root>";}
static std::string maps(size_t n) {std::string r="<root><m>"; for (size_t i=0; i<n/64; ++i) r+="<pair><first>"+num(i)+"</first><second>x</second></pair>"; return r+"</m></root>";}
static std::string recs(size_t n) {return "<root><kids>"+rep("<Rec><n>1</n><kids></kids></Rec>",n/32)+"</kids></root>";}
static Shape shapes[]={{"wide",wide},{"widePretty",widePretty},{"strings",strings},{"text",text},{"space",space},{"ents",ents},{"cdatas",cdatas},{"cdata1",cdata1},{"comments",comments},{"comment1",comment1},{"attrs",attrs},{"attr1",attr1},
  {"names",names},{"name1",name1},{"pis",pis},{"doctype",doctype},{"maps",maps},{"recs",recs}};
static double timed(const std::string& d, std::string& res)
{
  double best=1e9;
  for (int k=0; k<3; ++k) {
    g13::Big b; double t=now();
    try {std::istringstream i(d); classdesc::xml_unpack_t u(i); ::xml_unpack(u,"root",b); res="ok";} catch (const std::exception& e) {res=e.what();}
    best=std::min(best,now()-t);
    if (best>2) break;
  }
  return best;
}
int main(int argc, char** argv)
{
  size_t base=strtoul(argv[1],0,10); bool timing=!strcmp(argv[2],"time"); int from=atoi(argv[3]);
  int k=0;
  if (timing) for (size_t i=0; i<sizeof(shapes)/sizeof(*shapes); ++i,++k) {
    if (k<from) continue;
    char p[80]; snprintf(p,80,"%d|%s",k,shapes[i].name); report().progress(p);
    std::string r1,r2, a=shapes[i].f(base), b=shapes[i].f(base*8);
    double t1=timed(a,r1), t2=timed(b,r2);
    CHECK(r1=="ok" && r2=="ok",std::string("refused:")+shapes[i].name,r1+" / "+r2);
    // eight times the input: a proportionate reader needs about 8 times the time, a quadratic one 64 times.
    CHECK(t2<28*std::max(t1,0.002),std::string("superlinear:")+shapes[i].name,num(a.size())+" bytes took "+num(size_t(t1*1e6))+"us, "+num(b.size())+" bytes "+num(size_t(t2*1e6))+"us");
    report().count("shapes"); report().distinct(shapes[i].name); char s[160]; snprintf(s,160,"%s: %lu bytes %.1f ms, %lu bytes %.1f ms",shapes[i].name,(unsigned long)a.size(),t1*1e3,(unsigned long)b.size(),t2*1e3); report().sample(s);
  }
  else {
    // depth: everything nested, terminated or not
    size_t deep[]={10,100,500,1000,1900,1999,2000,2001,3000,100000,1000000};
    const char* open[]={"<kids><Rec>","<a>","<Rec b='c'>","<p>"}; const char* close[]={"</Rec></kids>","</a>","</Rec>","</p>"};
    for (size_t q=0; q<4; ++q) for (size_t i=0; i<sizeof(deep)/sizeof(*deep); ++i) for (int c=0; c<3; ++c,++k) {
      if (k<from) continue;
      char p[80]; snprintf(p,80,"%d|depth|%lu|%s|%d",k,(unsigned long)deep[i],open[q],c); report().progress(p);
      std::string d="<root>"+rep(open[q],deep[i])+(c? rep(close[q],c==1? deep[i]: deep[i]/2): "")+(c==1? "</root>": "");
      g13::Rec x; std::string res="ok";
      try {std::istringstream in(d); classdesc::xml_unpack_t u(in); ::xml_unpack(u,"root",x);} catch (const std::exception& e) {res=e.what();}
      if (c!=1) CHECK(res!="ok","truncated-accepted",p);
      if (c==1 && deep[i]<=500) CHECK(res=="ok","nested-refused",std::string(p)+": "+res);
      if (c==1 && deep[i]<=500 && q==0) {size_t n=0; const g13::Rec* y=&x; while (!y->kids.empty()) {y=&y->kids.front(); ++n;} CHECK(n==deep[i],"nested-lost",std::string(p)+" depth read "+num(n));}
      if (c==1 && deep[i]<=500 && q==3) {size_t n=0; const g13::Rec* y=&x; while (y->p.get()) {y=y->p.get(); ++n;} CHECK(n==deep[i],"nested-lost",std::string(p)+" depth read "+num(n));}
      report().count("deep_documents"); report().count("checks"); report().distinct(p);
    }
    // every prefix of every construct
    std::string all="<?xml version=\"1.0\"?><!DOCTYPE a [<!ELEMENT a \"x>\">]><!-- c - --><root a='1' b = \"&lt;&#65;\" ><!----><n> &#x41;1</n><s><string><![CDATA[ ]] ]]></string><string/></s ><?pi x?></root>";
    for (size_t i=0; i<all.size(); ++i,++k) for (int c=0; c<3; ++c) {
      if (k<from) continue;
      std::string d=all.substr(0,i); if (c==1) d+=d; if (c==2) d+=std::string(1,'\0')+all.substr(i);
      report().progress(num(k)+"|prefix|"+num(c)+"|"+d);
      g13::Big x; if (d.empty()) continue;
      bool ok=true; try {xmlRead(c,d,"root",x,false);} catch (const std::exception&) {ok=false;}
      report().count(ok? "prefix_accepted": "prefix_rejected"); report().count("checks"); report().distinct(d);
      // up to the root element's name nothing may be taken for a document
      if (c==0 && i>all.find("<root") && i+1<all.size()) CHECK(!ok,"truncated-accepted",d);
    }
  }
  report().done(); return 0;
}
