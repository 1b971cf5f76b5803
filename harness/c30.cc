// a master dispatching requests to slaves at random, every dispatch, execution and reply logged
#include "pack_base.h"
#include "pack_stl.h"
#include "classdescMP.h"
#include "classdesc_epilogue.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
using namespace classdesc;
using std::vector;
struct Rng
{
  unsigned long long s;
  Rng(unsigned long long x): s(x*0x9E3779B97F4A7C15ULL+0x1234567ULL) {(*this)(2); (*this)(2);}
  unsigned operator()(unsigned n) {s^=s>>12; s^=s<<25; s^=s>>27; return unsigned(((s*0x2545F4914F6CDD1DULL)>>33)%n);}
};
static FILE* lg; static int me, np; static const char* cur="start"; static long checks;
static void hang(int) {fprintf(lg,"HANG\t%s\n",cur); fflush(lg); _exit(77);}
static void bye() {fprintf(lg,"EXIT\n"); fclose(lg);}
static void V(const char* key, const char* fmt, ...)
{
  va_list a; va_start(a,fmt);
  fprintf(lg,"V\t%s\t",key); vfprintf(lg,fmt,a); fprintf(lg,"\n"); fflush(lg);
  va_end(a);
}
static void chk(bool ok, const char* key, const char* what, long a=0, long b=0) {checks++; if (!ok) V(key,"rank %d, %s: %s (%ld, %ld)",me,cur,what,a,b);}
static std::string text(unsigned id)
{
  Rng r(id); static const unsigned n[]={0,1,30,900,4090,70000,300000}; unsigned m=n[r(10)<8? r(5): 5+r(2)];
  std::string s; for (unsigned i=0; i<m; ++i) s+=char(i*7+id);
  return s;
}
static unsigned sum(const std::string& s) {unsigned h=7; for (size_t i=0; i<s.size(); ++i) h=h*31+(unsigned char)s[i]; return h;}

struct S
{
  long count;
  S(): count(0) {}
  void ran(const char* what, unsigned id, const std::string& t)
  {
    fprintf(lg,"X\t%u\t%s\t%d\n",id,what,sum(t)==sum(text(id))); fflush(lg); count++;
    Rng d(id+99); if (d(4)==0) usleep(d(1500));
  }
  void first(MPIbuf& a) {unsigned id; std::string t; a>>id>>t; ran("first",id,t); a.reset()<<id<<me<<count<<sum(t);}
  void second(MPIbuf& a) {unsigned id; std::string t; vector<int> v; a>>id>>t>>v; ran("second",id,t); unsigned h=sum(t); for (size_t i=0; i<v.size(); ++i) h+=v[i]; a.reset()<<id<<me<<count<<h<<t;}
  // replies with nothing in the message
  void third(MPIbuf& a) {unsigned id; std::string t; a>>id>>t; ran("third",id,t); a.reset();}
  // no reply
  void quiet(MPIbuf& a) {unsigned id; std::string t; a>>id>>t; ran("quiet",id,t);}
  void fourth(MPIbuf& a) {unsigned id; std::string t; a>>id>>t; ran("fourth",id,t); a.reset()<<id<<me<<count<<sum(t);}
};

static int run(int argc, char** argv)
{
  MPISPMD env(argc,argv);
  me=env.myid; np=env.nprocs;
  char name[4096]; snprintf(name,sizeof name,"%s/rank%d.log",argv[1],me);
  lg=fopen(name,"w"); atexit(bye);
  signal(SIGALRM,hang); alarm(atoi(argv[4]));
  Rng r(atoi(argv[2])); int steps=atoi(argv[3]);
  {
    MPIslave<S> slave;
    // only the master gets here
    chk(me==0,"master","a slave returned from the constructor",me);
    unsigned id=1;
    std::map<int,std::deque<std::pair<unsigned,int> > > out; // what each slave is busy with
    size_t busy=0;
    cur="initial";
    for (int st=0; st<=steps; ++st)
      {
        // the idle list at every quiescent point
        std::set<int> idle(slave.idle.begin(),slave.idle.end());
        chk(idle.size()==slave.idle.size(),"idle-duplicate","slaves listed as idle more than once",slave.idle.size(),idle.size());
        for (int s=1; s<np; ++s) chk(idle.count(s)==(out[s].empty()? 1: 0),"idle","state of a slave",s,out[s].size());
        chk(idle.count(0)==0 && (idle.empty() || *idle.rbegin()<np),"idle-range","listed",idle.empty()? 0: *idle.rbegin());
        chk(slave.all_idle()==(busy==0),"all-idle","all_idle",slave.all_idle(),busy);
        if (st==steps) break;
        unsigned k=r(20);
        if (k<10 && !slave.idle.empty())
          {
            cur="exec";
            int what=r(4), to=-1, how=r(3); std::set<int> before(slave.idle.begin(),slave.idle.end());
            unsigned n=id++;
            vector<int> v; for (int i=r(50); i>0; --i) v.push_back(i);
            void (S::*m)(MPIbuf&)=what==0? &S::first: what==1? &S::second: what==2? &S::third: &S::fourth;
            if (how==0) {MPIbuf c(what==1? slave<<m<<n<<text(n)<<v: slave<<m<<n<<text(n)); slave.exec(c);}
            else if (what==1) slave.exec(slave<<m<<n<<text(n)<<v);
            else slave.exec(slave<<m<<n<<text(n));
            for (size_t i=0; i<slave.idle.size(); ++i) before.erase(slave.idle[i]);
            chk(before.size()==1,"idle","slaves taken off the idle list by a request",before.size());
            if (before.empty()) break;
            to=*before.begin();
            fprintf(lg,"D\t%u\t%s\t%d\n",n,what==0? "first": what==1? "second": what==2? "third": "fourth",to);
            out[to].push_back(std::make_pair(n,what)); busy++;
            chk(std::find(slave.idle.begin(),slave.idle.end(),to)==slave.idle.end(),"idle","slave given a request still idle",to);
          }
        else if (k<17 && busy)
          {
            cur="reply";
            MPIbuf& b=slave.get_returnv();
            int p=b.proc;
            chk(p>0 && p<np && !out[p].empty(),"reply","reply from a slave that has nothing to do",p);
            if (p<=0 || p>=np || out[p].empty()) continue;
            std::pair<unsigned,int> e=out[p].front(); out[p].pop_front(); busy--;
            chk(std::count(slave.idle.begin(),slave.idle.end(),p)==1,"idle","slave that has replied",p,std::count(slave.idle.begin(),slave.idle.end(),p));
            if (e.second==2) chk(b.size()==0,"reply-content","empty reply holds bytes",b.size());
            else
              try
                {
                  unsigned n=0, h=0; int rk=-1; long c=0; std::string t;
                  b>>n>>rk>>c>>h;
                  if (e.second==1) b>>t;
                  chk(n==e.first,"reply-content","reply to another request",n,e.first);
                  chk(rk==p,"reply-source","reply attributed to",p,rk);
                  unsigned want=sum(text(e.first));
                  if (e.second!=1) chk(h==want,"reply-content","result",h,want); else chk(t==text(e.first),"reply-content","text returned",t.size());
                  chk(b.pos()==b.size(),"reply-content","bytes left over",b.pos(),b.size());
                }
              catch (std::exception& x) {V("reply-content","%s",x.what());}
          }
        else if (k==17)
          {
            cur="broadcast";
            unsigned n=id++; int how=r(3);
            // a long message to a slave that is sending its reply would have both wait for each other
            while (busy && text(n).size()>1000) n=id++;
            fprintf(lg,"B\t%u\tquiet\n",n);
            if (how==0) {MPIbuf c(slave<<&S::quiet<<n<<text(n)); slave<<&S::third<<0u<<std::string("not this"); slave.bcast(c);}
            else slave.bcast(slave<<&S::quiet<<n<<text(n));
          }
        else if (k==18 && busy==0)
          {
            // a request to all, each of them replying
            cur="broadcast-reply";
            unsigned n=id++; std::set<int> from;
            fprintf(lg,"B\t%u\tfirst\n",n);
            slave.bcast(slave<<&S::first<<n<<text(n));
            for (int i=1; i<np; ++i)
              {
                MPIbuf& b=slave.get_returnv(); int p=b.proc; unsigned q=0; int rk=-1; b>>q>>rk;
                chk(from.insert(p).second && rk==p && q==n,"reply-source","reply to a request to all",p,rk);
              }
          }
        else if (k==19 && r(3)==0)
          {
            cur="wait";
            slave.wait_all_idle();
            out.clear(); busy=0;
          }
      }
    cur="shutdown";
    if (r(2)) slave.wait_all_idle();
    else while (busy) {MPIbuf& b=slave.get_returnv(); out[b.proc].pop_front(); busy--;}
    fprintf(lg,"N\tchecks\t%ld\nN\trequests\t%u\nDONE\n",checks,id-1);
  }
  return 0;
}
int main(int argc, char** argv) {return run(argc,argv);}
