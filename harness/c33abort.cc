// an XML writer cancelled from outside, at every point of the document
#include "classdesc_access.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "ref.h"
#include "ops.h"
#include "gen.h"
#include "gen.cd"
#include "classdesc_epilogue.h"
#include <thread>
#include <atomic>
using namespace classdesc;
struct Buf: public std::streambuf
{
  std::string s; size_t at; xml_pack_t* x; size_t after; bool fired;
  Buf(): at(~size_t(0)), x(0), after(0), fired(false) {}
  int overflow(int c) {s+=char(c); if (s.size()>=at && x && !fired) {x->abort=true; fired=true; after=s.size();} return c;}
  std::streamsize xsputn(const char* p, std::streamsize n) {for (std::streamsize i=0; i<n; ++i) overflow((unsigned char)p[i]); return n;}
};
static std::string tbrief_(const std::string& s) {return s.substr(0,400);}
typedef std::map<std::string,std::vector<Plain> > Doc;
static std::string closers(const std::string& s)
{ // end tags, and nothing else
  size_t i=0; while (i<s.size()) {if (isspace((unsigned char)s[i])) {++i; continue;} if (s.compare(i,2,"</")) return s.substr(i,60); size_t e=s.find('>',i); if (e==std::string::npos) return s.substr(i,60); i=e+1;}
  return "";
}
static bool wellFormed(const std::string& s) {
  std::vector<std::string> st; size_t i=0;
  while ((i=s.find('<',i))!=std::string::npos) {
    size_t e=s.find('>',i); if (e==std::string::npos) return false; std::string t=s.substr(i+1,e-i-1);
    if (t[0]=='/') {if (st.empty() || st.back()!=t.substr(1)) return false; st.pop_back();} else st.push_back(t.substr(0,t.find(' ')));
    i=e+1;
  }
  return st.empty();
}
int main(int, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]);
  for (unsigned it=0; it<n; ++it) {
    char p[40]; snprintf(p,40,"abort|%u",it); report().progress(p);
    Rng r(seed*1009+it); r.strMode=2; Doc d; for (unsigned k=1+r.below(3); k; --k) {std::string s; Ops<std::string>::gen(r,s); d[s].resize(r.below(3)); for (auto& x: d[s]) {x.a=int(r.next()); x.b=r.below(9); Ops<std::vector<std::string> >::gen(r,x.v);}}
    bool pretty=r.coin();
    Buf full; {std::ostream o(&full); xml_pack_t t(o); t.prettyPrint=pretty; ::xml_pack(t,"root",d);}
    for (unsigned k=0; k<12; ++k) {
      Buf b; b.at=k==0? 0: 1+r.below(unsigned(full.s.size())); std::ostream o(&b); bool aborted=false;
      { xml_pack_t t(o); t.prettyPrint=pretty; b.x=&t; if (k==0) t.abort=true;
        try {::xml_pack(t,"root",d);} catch (const xml_pack_t::PackAborted& e) {aborted=*e.what()!=0;} b.x=0; }
      size_t c=0; while (c<b.s.size() && c<full.s.size() && b.s[c]==full.s[c]) ++c;
      if (!aborted) CHECK(b.s==full.s && b.fired,"not-aborted-but-incomplete",tbrief_(b.s));
      else {
        // what was being written may be finished, then only what is open is closed
        std::string rest=b.s.substr(c); size_t lt=rest.find('<'); if (c && b.s[c-1]=='<') rest="<"+rest; else if (lt!=std::string::npos && lt && c && rest[0]=='/') rest="<"+rest;
        CHECK(closers(rest)=="","wrote-on-after-abort",tbrief_(rest)+" in "+tbrief_(b.s));
        CHECK(b.s.size()<=full.s.size(),"longer-after-abort",tbrief_(b.s));
        CHECK(wellFormed(b.s),"aborted-document-not-closed",tbrief_(b.s));
        report().count("aborted");
      }
      // a leaf which begins after the cancellation is an item too many
      if (b.fired) {
        size_t leaves=0, i=b.after; while ((i=b.s.find('<',i))!=std::string::npos) {size_t e=b.s.find('>',i); if (e==std::string::npos) break; size_t f=b.s.find('<',e); if (b.s[i+1]!='/' && f!=std::string::npos && b.s[f+1]=='/' && b.s.substr(e+1,f-e-1).find_first_not_of(" \n")!=std::string::npos) ++leaves; i=e;}
        CHECK(leaves<=1,"items-written-after-abort",vstr(leaves)+tbrief_(b.s.substr(b.after)));
      }
      report().distinct(b.s); report().count("cancellations");
    }
  }
  // from another thread
  for (unsigned it=0; it<n; ++it) {
    char p[40]; snprintf(p,40,"thread|%u",it); report().progress(p);
    Rng r(seed*2003+it); std::vector<std::vector<int> > big(3000,std::vector<int>(20,7)); std::ostringstream o; xml_pack_t t(o); bool aborted=false; unsigned us=r.below(3000); std::atomic<bool> go(false);
    std::thread k([&]() {while (!go) {} std::this_thread::sleep_for(std::chrono::microseconds(us)); t.abort=true;});
    go=true; try {::xml_pack(t,"root",big);} catch (const xml_pack_t::PackAborted&) {aborted=true;} k.join();
    CHECK(wellFormed(o.str()),"aborted-document-not-closed","thread"); report().count(aborted? "aborted_by_thread": "completed_before_abort");
  }
  report().done(); return 0;
}
