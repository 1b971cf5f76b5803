// random programs of MPIbuf operations, the same on every rank, each result checked where it arrives
#include "pack_base.h"
#include "pack_stl.h"
#include "classdescMP.h"
#include "classdesc_epilogue.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
using namespace classdesc;
using std::vector;

struct Rng
{
  unsigned long long s;
  Rng(unsigned long long x): s(x*0x9E3779B97F4A7C15ULL+0x1234567ULL) {(*this)(2); (*this)(2);}
  unsigned operator()(unsigned n) {s^=s>>12; s^=s<<25; s^=s>>27; return unsigned(((s*0x2545F4914F6CDD1DULL)>>33)%n);}
};
static int world, wn;
static FILE* lg;
static const char* curop="start"; static int st[6];
static long checks, msgs;
static std::map<std::string,long> kinds;
static void V(const char* key, const char* fmt, ...)
{
  va_list a; va_start(a,fmt);
  fprintf(lg,"V\t%s:%s\t",curop,key); vfprintf(lg,fmt,a); fprintf(lg,"\n"); fflush(lg);
  va_end(a);
}
static void hang(int) {fprintf(lg,"HANG\t%s\t%d %d %d %d %d %d\n",curop,st[0],st[1],st[2],st[3],st[4],st[5]); fflush(lg); _exit(77);}
static void chk(bool ok, const char* key, const char* what, long a=0, long b=0) {checks++; if (!ok) V(key,"rank %d: %s (%ld, %ld)",world,what,a,b);}

// ------------------------------------------------------------------ payloads
struct Load {int op, src, k; vector<int> v; std::string s;};
static Load load(unsigned op, int src, int k, int cls=-1)
{
  Rng r(op*1000003ULL+src*1009+k);
  Load l; l.op=op; l.src=src; l.k=k;
  static const int sz[]={0,1,3,20,300,100,7,50}, ss[]={0,0,1,40,1000,4100,70000,400000};
  unsigned c=cls>=0? cls: r(8), n=sz[c], m=ss[c]; // few but long strings: vectors are packed element by element
  l.v.resize(n); for (size_t i=0; i<l.v.size(); ++i) l.v[i]=r(1u<<30);
  for (size_t i=0; i<m; ++i) l.s+=char(i<40? r(256): i*c+src);
  return l;
}
static bool same(const Load& a, const Load& b) {return a.op==b.op && a.src==b.src && a.k==b.k && a.v==b.v && a.s==b.s;}
static void put(MPIbuf& b, const Load& l) {b<<l.op<<l.src<<l.k<<l.v<<l.s;}
static Load take(MPIbuf& b, const char* key)
{
  Load l; l.op=l.src=l.k=-1;
  try {b>>l.op>>l.src>>l.k>>l.v>>l.s;}
  catch (std::exception& e) {V(key,"rank %d: unpacking: %s",world,e.what()); checks++;}
  return l;
}
static void expect(MPIbuf& b, const Load& e, const char* key, bool last=true)
{
  Load l=take(b,key);
  chk(same(l,e),key,"contents differ, expected source and number",e.src,e.k);
  if (last) chk(b.pos()==b.size(),key,"bytes left over behind the message",b.pos(),b.size());
  msgs++;
}
// a buffer that has been used before
static void mess(MPIbuf& b, Rng& r)
{
  if (r(3)==0) return;
  b.reset(); int n=r(60); for (int i=0; i<n; ++i) b<<i;
  int x; if (n) for (int i=r(n); i>0; --i) b>>x;
}
struct Ctx {MPI_Comm c; int me, n;};
static vector<Ctx> comms;
static vector<MPIbuf*> bufs;
static void on(MPIbuf& b, const Ctx& x, bool cb=false) {b.Communicator=x.c; b.const_buffer=cb;}

// blocking messages in an order known to all
static void op_p2p(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="p2p"; Rng r(op); int m=1+r(10);
  if (x.n<2) return;
  on(b,x);
  for (int k=0; k<m; ++k)
    {
      int src=r(x.n), dst=(src+1+r(x.n-1))%x.n, tag=r(4), how=r(5), rhow=r(4); bool empty=r(8)==0; Rng r2(op+k*77+x.me);
      if (x.me==src)
        {
          if (r2(2) || b.size()) b.reset();
          if (empty)
            {
              if (how<3) b.send(dst,tag); else {b.isend(dst,tag); b.wait();}
            }
          else switch (how)
            {
            case 0: put(b,load(op,src,k)); b.send(dst,tag); break;
            case 1: put(b,load(op,src,k)); b<<classdesc::send(dst,tag); break;
            case 2: {MPIbuf t; on(t,x); put(t,load(op,src,k)); t<<classdesc::isend(dst,tag); break;}
            case 3: put(b,load(op,src,k)); b<<classdesc::isend(dst,tag); b.wait(); break;
            case 4: put(b,load(op,src,k)); b.isend(dst,tag); while (!b.sent()) usleep(100); break;
            }
          if (how!=2) chk(b.size()==0,"send-clears","buffer not cleared by sending",b.size());
        }
      else if (x.me==dst)
        {
          mess(b,r2);
          switch (rhow)
            {
            case 0: b.get(src,tag); break;
            case 1: b.get(src); break;
            case 2: b.get(MPI_ANY_SOURCE,tag); break;
            case 3: b.get(); break;
            }
          // an earlier message to this rank cannot be outstanding, a later one might
          if (rhow<2 || (b.proc==src && b.tag==tag))
            {
              chk(b.proc==src,"source","source reported",b.proc,src);
              chk(b.tag==tag,"tag","tag reported",b.tag,tag);
            }
          // only one message at a time is under way to this rank when it comes from a specified source
          if (rhow<2) {if (empty) {chk(b.size()==0,"empty","empty message has bytes",b.size()); msgs++;} else expect(b,load(op,src,k),"content");}
          else
            {
              // which of the outstanding messages it is follows from its contents: take it for what it is, and get the other
              if (b.proc==src && b.tag==tag) {if (empty) chk(b.size()==0,"empty","empty message has bytes",b.size()); else expect(b,load(op,src,k),"content");}
              else V("order","rank %d received %d/%d while %d/%d was due",world,b.proc,b.tag,src,tag);
            }
          b.reset();
        }
      if (rhow>=2) {MPI_Barrier(x.c);}
      else if (k+1<m) {Rng la(op); (void)la;}
      // a later message must not overtake an ANY receive
      MPI_Barrier(x.c);
    }
}

// all to all with asynchronous messages and groups of buffers
static void op_group(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="group"; Rng r(op);
  int rounds=1+r(3), m=1+r(6);
  MPIbuf_array arr(m);
  for (int round=0; round<rounds; ++round)
    {
      // the whole table of messages: (src,k) -> dst, tag
      vector<vector<std::pair<int,int> > > plan(x.n);
      int mode=r(3), fin=r(6);
      for (int s=0; s<x.n; ++s) for (int k=0; k<m; ++k) plan[s].push_back(std::make_pair(x.n>1 && r(6)? (s+1+r(x.n-1))%x.n: -1, r(3)));
      Rng q(op*31+x.me+round);
      int sent=0; st[0]=round; st[1]=mode; st[2]=fin; st[5]=1;
      for (int k=0; k<m; ++k)
        {
          on(arr[k],x);
          if (plan[x.me][k].first<0) continue;
          put(arr[k],load(op+round,x.me,k));
          arr[k]<<classdesc::isend(plan[x.me][k].first,plan[x.me][k].second);
          sent++;
        }
      std::set<std::pair<int,int> > due; // to me: src,k
      for (int s=0; s<x.n; ++s) for (int k=0; k<m; ++k) if (plan[s][k].first==x.me) due.insert(std::make_pair(s,k));
      vector<bool> done(m,false); int ndone=0;
      std::map<std::pair<int,int>,int> lastk;
      on(b,x);
      vector<int> tags; for (int t=0; t<3; ++t) tags.push_back(t);
      while (!due.empty())
        {
          if (q(3)==0) switch (q(3))
            {
            case 0: {bool all=arr.testall(); if (all) {for (int k=0; k<m; ++k) if (plan[x.me][k].first>=0 && !done[k]) {done[k]=true; ndone++;}} break;}
            case 1: {int i=arr.testany(); if (i!=MPI_UNDEFINED) {chk(i>=0 && i<m && plan[x.me][i].first>=0 && !done[i],"testany","completed twice, or never sent",i); if (i>=0 && i<m && !done[i]) {done[i]=true; ndone++;}} break;}
            case 2: {vector<int> c=arr.testsome(); for (size_t j=0; j<c.size(); ++j) {int i=c[j]; chk(i>=0 && i<m && plan[x.me][i].first>=0 && !done[i],"testsome","completed twice, or never sent",i); if (i>=0 && i<m && !done[i]) {done[i]=true; ndone++;}} break;}
            }
          mess(b,q); st[3]=due.size(); st[4]=q.s%1000;
          std::set<std::pair<int,int> >::iterator w=due.begin(); std::advance(w,q(due.size()));
          int ps=w->first, pt=plan[ps][w->second].second;
          if (mode==0) b.get(); else if (mode==1) b.get(ps,pt); else if (q(2)) b.get(ps); else b.get(MPI_ANY_SOURCE,pt);
          Load l=take(b,"content"); msgs++;
          std::pair<int,int> id(l.src,l.k);
          if (!due.count(id)) {V("once","rank %d received message %d of %d, which was not due",world,l.k,l.src); checks++; break;}
          due.erase(id);
          chk(same(l,load(op+round,l.src,l.k)),"content","contents differ",l.src,l.k);
          chk(b.pos()==b.size(),"content","bytes left over",b.pos(),b.size());
          chk(b.proc==l.src,"source","source reported",b.proc,l.src);
          int tg=plan[l.src][l.k].second;
          chk(b.tag==tg,"tag","tag reported",b.tag,tg);
          if (mode==1) chk(l.src==ps && tg==pt,"selection","message from another source or tag delivered",l.src,ps);
          std::pair<int,int> st(l.src,tg);
          chk(!lastk.count(st) || lastk[st]<l.k,"fifo","overtaken",l.src,l.k);
          lastk[st]=l.k;
        }
      st[5]=2;
      switch (fin)
        {
        case 0: arr.waitall(); break;
        case 1: for (int i; (i=arr.waitany())!=MPI_UNDEFINED;) {chk(i>=0 && i<m && plan[x.me][i].first>=0 && !done[i],"waitany","completed twice, or never sent",i); if (i<0 || i>=m || done[i]) break; done[i]=true; ndone++;} chk(ndone==sent,"waitany","not all completed",ndone,sent); break;
        case 2: while (ndone<sent) {vector<int> c=arr.waitsome(); chk(c.size()>0,"waitsome","none",c.size()); if (c.empty()) break; bool bad=false; for (size_t j=0; j<c.size(); ++j) {int i=c[j]; bool ok=i>=0 && i<m && plan[x.me][i].first>=0 && !done[i]; chk(ok,"waitsome","completed twice, or never sent",i); if (ok) {done[i]=true; ndone++;} else bad=true;} if (bad) break;}
          chk(arr.waitsome().empty(),"waitsome","something completed although nothing was under way"); break;
        case 3: while (!arr.testall()) usleep(50); break;
        case 4: for (int i; ndone<sent;) {i=arr.testany(); if (i==MPI_UNDEFINED) {usleep(50); if (arr.testall()) {ndone=sent; break;} continue;} bool ok=i>=0 && i<m && plan[x.me][i].first>=0 && !done[i]; chk(ok,"testany","completed twice, or never sent",i); if (!ok) break; done[i]=true; ndone++;} break;
        case 5: for (int k=0; k<m; ++k) if (plan[x.me][k].first>=0) {if (k%2) arr[k].wait(); else while (!arr[k].sent()) usleep(50);} break;
        }
      st[5]=3;
      chk(arr.testall(),"testall","not complete after all have completed");
      MPI_Barrier(x.c);
    }
}

static void op_exchange(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="exchange"; Rng r(op);
  vector<int> p(x.n), inv(x.n), tag(x.n), noise(x.n);
  for (int i=0; i<x.n; ++i) p[i]=i;
  if (r(2)) {int k=r(x.n); for (int i=0; i<x.n; ++i) p[i]=(i+k)%x.n;}
  else for (int i=x.n-1; i>0; --i) std::swap(p[i],p[r(i+1)]);
  for (int i=0; i<x.n; ++i) inv[p[i]]=i;
  int style=r(4), cls=r(3)? -1: int(r(8));
  bool uniform=r(2);
  for (int i=0; i<x.n; ++i) {tag[i]=uniform? 5: 10+i; noise[i]=r(2);}
  on(b,x); b.reset();
  int src=inv[x.me];
  MPIbuf nb; on(nb,x);
  if (style!=2 && noise[x.me] && p[x.me]!=x.me) {put(nb,load(op+1,x.me,1)); nb<<classdesc::isend(p[x.me],99);}
  put(b,load(op,x.me,0,cls));
  switch (style)
    {
    case 0: case 1: b.send_recv(p[x.me],tag[x.me],src,tag[src]); break;
    case 2: b.send_recv(p[x.me],tag[x.me],src); break;
    case 3: b.send_recv(p[x.me],tag[x.me],MPI_ANY_SOURCE,tag[src]); break;
    }
  expect(b,load(op,src,0,cls),"content");
  if (p[x.me]!=x.me) {chk(b.proc==src,"source","source reported",b.proc,src); chk(b.tag==tag[src],"tag","tag reported",b.tag,tag[src]);}
  if (style!=2 && noise[src] && src!=x.me)
    {
      MPIbuf g; on(g,x); g.get(src,99); expect(g,load(op+1,src,1),"other");
    }
  if (r(2)) b.reset();
}

static void op_bcast(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="bcast"; Rng r(op), q(op+x.me*7919);
  int root=r(x.n), how=r(2), cls=r(8); bool cb=r(3)==0, empty=r(10)==0, mani=r(2);
  if (!cb && x.me!=root) mess(b,q); else b.reset();
  on(b,x,cb);
  if (!empty && (x.me==root || cb)) put(b,load(op,x.me,how,cb? cls: -1));
  if (mani) b<<classdesc::bcast(root); else b.bcast(root);
  if (empty) chk(b.size()==0,"empty","empty message has bytes",b.size()); else expect(b,load(op,root,how,cb? cls: -1),"content");
  msgs++;
  b.reset(); b.const_buffer=false;
}

static void op_gather(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="gather"; Rng r(op);
  int root=r(x.n), cls=r(7); bool cb=r(3)==0; int none=r(3);
  vector<bool> empty(x.n); for (int i=0; i<x.n; ++i) empty[i]=!cb && (none==0? true: none==1? r(3)==0: false);
  b.reset(); on(b,x,cb);
  if (!empty[x.me]) put(b,load(op,x.me,2,cb? cls: -1));
  b.gather(root);
  if (x.me==root)
    {
      int last=-1; for (int i=0; i<x.n; ++i) if (!empty[i]) last=i;
      for (int i=0; i<x.n; ++i) if (!empty[i]) expect(b,load(op,i,2,cb? cls: -1),"content",i==last);
      if (last<0) chk(b.size()==0,"empty","bytes gathered from empty buffers",b.size());
      b.reset();
    }
  else {chk(b.size()==0,"cleared","buffer of a sender still holds the message",b.size());}
  b.const_buffer=false;
}

static void op_scatter(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="scatter"; Rng r(op), q(op+x.me*104729);
  int root=r(x.n), cls=r(7); bool cb=r(3)==0;
  vector<bool> empty(x.n); for (int i=0; i<x.n; ++i) empty[i]=!cb && r(4)==0;
  on(b,x,cb);
  if (x.me==root)
    {
      b.reset();
      for (int i=0; i<x.n; ++i)
        {
          if (!empty[i]) {put(b,load(op,root,i,cb? cls: -1)); }
          b<<mark();
        }
    }
  else mess(b,q);
  b.scatter(root);
  if (empty[x.me]) chk(b.size()==0,"empty","empty piece has bytes",b.size());
  else expect(b,load(op,root,x.me,cb? cls: -1),"piece");
  b.reset(); b.const_buffer=false;
}

static void op_waiting(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="waiting"; Rng r(op);
  if (x.n<2) return;
  int a=r(x.n), d=(a+1+r(x.n-1))%x.n, t=r(5), cls=r(5);
  on(b,x);
  if (x.me==d) {chk(!b.msg_waiting(a,t),"none","message waiting before it was sent"); chk(!b.msg_waiting(),"none","message waiting before any was sent");}
  MPI_Barrier(x.c);
  if (x.me==a) {b.reset(); put(b,load(op,a,4,cls)); b.send(d,t);}
  if (x.me==d)
    {
      for (int i=0; i<200000 && !b.msg_waiting(a,t); ++i) usleep(50);
      chk(b.msg_waiting(a,t),"waiting","message sent is not waiting");
      chk(b.msg_waiting(),"waiting","message sent is not waiting");
      chk(b.msg_waiting(MPI_ANY_SOURCE,t),"waiting","message sent is not waiting");
      chk(!b.msg_waiting(a,t+1),"othertag","message with another tag waiting");
      chk(!b.msg_waiting((a+1)%x.n,t),"othersource","message from another source waiting");
      b.get(a,t); expect(b,load(op,a,4,cls),"content");
      chk(!b.msg_waiting(),"received","message still waiting after it was received");
      b.reset();
    }
  MPI_Barrier(x.c);
}

// copies of buffers carry the message, the communicator and the marks
static void op_copy(const Ctx& x, unsigned op, MPIbuf& b)
{
  curop="copy"; Rng r(op);
  int root=r(x.n), how=r(4); bool cb=r(2);
  on(b,x,cb); b.reset();
  int cls=r(6);
  if (x.me==root || cb) put(b,load(op,x.me,5,cls));
  if (how==0)
    {
      MPIbuf c(b); chk(c.size()==b.size(),"size","copy has another size",c.size(),b.size());
      chk(c.const_buffer==cb,"flag","const_buffer not copied",c.const_buffer,cb);
      c.const_buffer=false;
      c.bcast(root); expect(c,load(op,root,5,cls),"bcast");
    }
  else if (how==1)
    {
      MPIbuf c; Rng q(op+x.me); mess(c,q);
      c=b; chk(c.size()==b.size(),"size","assigned buffer has another size",c.size(),b.size());
      if (cb && r(2)) c=*&c;
      c.bcast(root); expect(c,load(op,root,5,cls),"bcast");
    }
  else if (how==2)
    {
      b.reset(); b.const_buffer=false;
      if (x.me==root) for (int i=0; i<x.n; ++i) {put(b,load(op,root,i)); b<<mark();}
      vector<MPIbuf> vb(2,b);
      vb.push_back(b);
      vb[2].scatter(root); expect(vb[2],load(op,root,x.me),"piece");
      vb[0].scatter(root); expect(vb[0],load(op,root,x.me),"piece");
    }
  else
    {
      // a copy made with a small communicator, used with the large one
      MPIbuf c(b); c.reset(); on(c,comms[0]);
      Ctx w=comms[0];
      MPI_Barrier(w.c);
      if (w.me==0) for (int i=0; i<w.n; ++i) {put(c,load(op,0,i)); c<<mark();}
      c.scatter(0); expect(c,load(op,0,w.me),"piece");
      MPI_Barrier(w.c);
    }
  b.reset(); b.const_buffer=false;
}

int main(int argc, char** argv)
{
  MPISPMD env(argc,argv);
  world=env.myid; wn=env.nprocs;
  char name[4096]; snprintf(name,sizeof name,"%s/rank%d.log",argv[1],world);
  lg=fopen(name,"w");
  unsigned seed=atoi(argv[2]), ops=atoi(argv[3]); int limit=atoi(argv[4]);
  signal(SIGALRM,hang);
  MPI_Comm dup, rev, half;
  MPI_Comm_dup(MPI_COMM_WORLD,&dup);
  MPI_Comm_split(MPI_COMM_WORLD,0,wn-world,&rev);
  MPI_Comm_split(MPI_COMM_WORLD,world%2,world,&half);
  MPI_Comm cs[]={MPI_COMM_WORLD,dup,rev,half};
  for (int i=0; i<4; ++i) {Ctx c; c.c=cs[i]; MPI_Comm_rank(cs[i],&c.me); MPI_Comm_size(cs[i],&c.n); comms.push_back(c);}
  {
    MPIbuf b0, b1, b2; bufs.push_back(&b0); bufs.push_back(&b1); bufs.push_back(&b2);
    chk(int(b0.myid())==world && int(b0.nprocs())==wn,"id","myid or nprocs",b0.myid(),b0.nprocs());
    typedef void (*Op)(const Ctx&, unsigned, MPIbuf&);
    Op all[]={op_p2p,op_group,op_exchange,op_bcast,op_gather,op_scatter,op_waiting,op_copy};
    Rng r(seed);
    for (unsigned i=0; i<ops; ++i)
      {
        alarm(limit);
        unsigned o=r(8), opseed=r(1u<<30), cc=r(4), bi=r(4);
        const Ctx& x=comms[cc];
        if (o==7 && cc==3) MPI_Barrier(MPI_COMM_WORLD);
        if (bi<3) all[o](x,opseed,*bufs[bi]);
        else {MPIbuf fresh; all[o](x,opseed,fresh);}
        kinds[curop]++;
        if (bi<3) {bufs[bi]->Communicator=x.c; chk(int(bufs[bi]->myid())==x.me && int(bufs[bi]->nprocs())==x.n,"id","myid or nprocs within a communicator",bufs[bi]->myid(),bufs[bi]->nprocs());}
        MPI_Barrier(x.c);
        if (cc==3) MPI_Barrier(MPI_COMM_WORLD);
      }
    curop="end";
    MPI_Barrier(MPI_COMM_WORLD);
  }
  fprintf(lg,"N\tchecks\t%ld\nN\tmessages\t%ld\n",checks,msgs);
  for (std::map<std::string,long>::iterator i=kinds.begin(); i!=kinds.end(); ++i) fprintf(lg,"N\top_%s\t%ld\n",i->first.c_str(),i->second);
  fprintf(lg,"DONE\n"); fclose(lg);
  alarm(limit);
}
