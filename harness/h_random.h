// Random initialisation under scripted sources of random numbers.
#ifndef H_RANDOM_H
#define H_RANDOM_H
#include "h_xmlexp.h"
struct Src: public classdesc::random_init_t
{
  int mode; uint64_t s; unsigned n; std::string bad;
  Src(int m, uint64_t seed): mode(m), s(seed*2654435761u+12345), n(0) {}
  double uni() {s=s*6364136223846793005ULL+1442695040888963407ULL; return double(s>>11)/9007199254740992.0;}
  double rand() {
    ++n; const double top=1-1.0/9007199254740992.0;
    switch (mode) {
    case 0: return 0;
    case 1: return n<3000? top: 0;      // nests no further once large
    case 2: return n<3000 && n%2? top: 0;
    case 3: return n%3==0? 5e-324: uni();
    case 4: return n%2? top: uni()*(n<2000);
    default: return n<20000? uni(): uni()/20;
    }
  }
};
static const char* srcName[]={"zero","almost-one","alternating","denormal","half-almost-one","uniform"};
template <class T> void randomType(const char* name, uint64_t seed, unsigned iters)
{
  std::map<std::string,std::set<std::string> > drawn, possible;
  for (unsigned it=0; it<iters; ++it) {
    int mode=it<10? it%5: 5; char pr[80]; snprintf(pr,80,"%s|%u",name,it); report().progress(pr);
    static T x, y; Rng r(seed*4099+it), q(seed*8123+it); r.nonfinite=q.nonfinite=false; r.maxLen=q.maxLen=3; r.budget=q.budget=80; Ops<T>::gen(r,x); Ops<T>::gen(q,y);
    std::map<std::string,std::string> m; Ops<T>::tops(m,x); for (std::map<std::string,std::string>::iterator i=m.begin(); i!=m.end(); ++i) possible[i->first].insert(i->second);
    Src a(mode,seed+it*7), b(mode,seed+it*7), c(mode,seed+it*7+3); std::string was=vstr(x);
    badEnums()=0; biggest()=0;
    classdesc::random_init(a,"",x); classdesc::random_init(b,it%2? "obj": "",y);
    std::string got=vstr(x); std::string w=std::string(name)+" source "+srcName[mode]+": ";
    CHECK(badEnums()==0,"invalid-enum",w+got);
    {char s[20]; snprintf(s,20,"%lu",(unsigned long)biggest()); CHECK(biggest()<=10,"unbounded",w+s);}
    if (!Ops<T>::same(x,y)) {
      std::map<std::string,std::string> p, q; Ops<T>::tops(p,x); Ops<T>::tops(q,y); std::string d;
      for (std::map<std::string,std::string>::iterator i=p.begin(); i!=p.end(); ++i) if (q[i->first]!=i->second) d+=i->first+": "+i->second.substr(0,300)+" / "+q[i->first].substr(0,300)+"; ";
      CHECK(false,"not-assigned",w+"two objects drawn from one stream differ in "+d);
    } else CHECK(true,"","");
    report().count("draws"); report().count("random_numbers",a.n+b.n); if (got!=was) report().count("changed"); report().distinct(got);
    if (it==12) report().sample(w+got.substr(0,400));
    m.clear(); Ops<T>::tops(m,x); if (mode==5) for (std::map<std::string,std::string>::iterator i=m.begin(); i!=m.end(); ++i) drawn[i->first].insert(i->second);
  }
  for (std::map<std::string,std::set<std::string> >::iterator i=possible.begin(); i!=possible.end(); ++i)
    if (i->second.size()>iters/4) {report().count("members_varied"); CHECK(drawn[i->first].size()>=iters/8,"does-not-vary",std::string(name)+" member "+i->first+" takes few values, such as "+(drawn[i->first].empty()? "": drawn[i->first].begin()->substr(0,300)));}
}
#endif
