// Monitors graph and tree serialisation: canonical forms, visit counts, allocation counts, recovery from failures.
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "ref.h"
#include "ops.h"
#include <deque>
#include "graph.h"

struct Boom {};
static long visits=0, failAt=-1;
namespace classdesc_access {
  template <> struct access_pack<Probe> {
    template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a)
    {if (failAt>=0 && visits==failAt) throw Boom(); visits++; ::pack(b,d,a.v);}
  };
  template <> struct access_unpack<Probe> {
    template <class U> void operator()(classdesc::pack_t& b, const classdesc::string& d, U& a)
    {if (failAt>=0 && visits==failAt) throw Boom(); visits++; ::unpack(b,d,a.v);}
  };
}
#include "gen.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
int rlive=0;


// link k of a node as an lvalue; number of links
inline GNode*& link(GNode& n, unsigned k) {return k==0? n.l: k==1? n.r: n.arr[k-2];}
inline unsigned nlinks(const GNode&) {return 5;}
inline gns::ANode*& link(gns::ANode& n, unsigned k) {return k==0? n.links.l: k==1? n.links.r: n.arr[(k-2)/2][(k-2)%2];}
inline unsigned nlinks(const gns::ANode&) {return 6;}
inline PNode*& link(PNode& n, unsigned k) {return k==0? n.l: k==1? n.r: n.arr[k-2];}
inline unsigned nlinks(const PNode&) {return 4;}
inline TNode*& link(TNode& n, unsigned k) {return k==0? n.l: k==1? n.r: n.arr[k-2];}
inline unsigned nlinks(const TNode&) {return 4;}
inline ref<RNode>& link(RNode& n, unsigned k) {return k==0? n.l: k==1? n.r: n.arr[k-2];}
inline unsigned nlinks(const RNode&) {return 4;}
inline VNode*& link(VNode& n, unsigned k) {if (k<n.v.size()) return n.v[k]; k-=n.v.size(); std::map<int,VNode*>::iterator i=n.m.begin(); while (k--) ++i; return i->second;}
inline unsigned nlinks(const VNode& n) {return n.v.size()+n.m.size();}
template <class N> N* addr(N* p) {return p;}
inline RNode* addr(ref<RNode>& p) {return p? &*p: 0;}

// canonical breadth first text of the structure reachable from a link
template <class L> std::string canon(L& root, size_t& count)
{
  typedef typename std::iterator_traits<__typeof__(addr(root))>::value_type N;
  std::map<N*,size_t> no; std::deque<N*> q; std::ostringstream o;
  N* r=addr(root);
  count=0;
  if (!r) return "null";
  no[r]=0; q.push_back(r);
  while (!q.empty()) {
    N& n=*q.front(); q.pop_front(); ++count;
    o<<n.id<<"/"<<n.p.v<<"/"<<n.s<<":";
    for (unsigned k=0; k<nlinks(n); ++k) {
      N* t=addr(link(n,k));
      if (!t) {o<<"-,"; continue;}
      if (!no.count(t)) {size_t x=no.size(); no[t]=x; q.push_back(t);}
      o<<no[t]<<",";
    }
    o<<";";
    if (count>2000000) return "runaway";
  }
  return o.str();
}
template <class L> std::string canon(L& root) {size_t c; return canon(root,c);}

template <class N> void fill(Rng& r, N& n, int id) {n.id=id; n.p.v=int(r.next()); n.s=r.coin(3)? std::string(): std::string(r.below(6),'a'+id%26);}
template <class N> void initLinks(N& n) {for (unsigned k=0; k<nlinks(n); ++k) link(n,k)=0;}
inline void initLinks(RNode&) {}
inline void initLinks(VNode&) {}

enum Shape {RANDOM, CHAIN, RING, STAR, DENSE, TREE_, DAG, COMB, NSHAPE};
static const char* shapeName[]={"random","chain","ring","star","dense","tree","dag","comb"};
// target of link k of node i, or -1
inline long target(Rng& r, int shape, size_t n, size_t i, unsigned k, unsigned nk)
{
  switch (shape) {
  case CHAIN: return k==i%nk && i+1<n? long(i+1): -1;
  case RING: return k==0? long((i+1)%n): k==1? long((i+n-1)%n): -1;
  case STAR: return i<=n/2 && k==0 && i+1<n? long(i+1): (k==1? 0: (k==2? long(n-1): -1));
  case DENSE: return r.below(n);
  case TREE_: {size_t c=i*nk+k+1; return c<n && k<nk? long(c): -1;}
  case DAG: return r.coin(3)||i+1>=n? -1: long(i+1+r.below(std::min<size_t>(n-i-1,7)));
  case COMB: return k==0 && i+1<n? long(i+1): (k==1? long(i): (k==2 && i>0? long(i-1): -1));
  default: return r.coin(3)? -1: long(r.below(n));
  }
}
template <class N> void build(Rng& r, int shape, size_t n, std::vector<N*>& v)
{
  for (size_t i=0; i<n; ++i) {v.push_back(new N); fill(r,*v[i],i); initLinks(*v[i]);}
  for (size_t i=0; i<n; ++i)
    for (unsigned k=0; k<nlinks(*v[i]); ++k) {long t=target(r,shape,n,i,k,nlinks(*v[i])); link(*v[i],k)=t<0? 0: v[t];}
}
inline void build(Rng& r, int shape, size_t n, std::vector<VNode*>& v)
{
  for (size_t i=0; i<n; ++i) {v.push_back(new VNode); fill(r,*v[i],i);}
  for (size_t i=0; i<n; ++i) {
    unsigned nk=r.below(5);
    if (shape==CHAIN||shape==RING||shape==COMB) nk=3;
    for (unsigned k=0; k<nk; ++k) {long t=target(r,shape,n,i,k,nk); VNode* x=t<0? 0: v[t]; if (k%2) v[i]->m[r.below(50)]=x; else v[i]->v.push_back(x);}
  }
}
template <class N> struct Owner {std::vector<N*> v; ~Owner() {for (size_t i=0; i<v.size(); ++i) delete v[i];}};

struct Cfg {unsigned recur; int flag; bool xdr;};
template <class N> N*& spare() {static N d; static N* p=&d; return p;}

// one buffer: several graphs interleaved with plain items
template <class N, class Buf> void pointerCase(const char* name, Rng& r, int maxn, int flag, bool tree, unsigned recur)
{
  Buf b; b.ptr_flag=Ptr_flag(flag); if (recur!=500) b.recur_max=recur;
  unsigned ng=1+r.below(3); Owner<N> o[3]; std::string want[3]; size_t cnt[3], nv[3]; long vis[3]; int shapes[3]; N* root[3];
  for (unsigned g=0; g<ng; ++g) {
    shapes[g]=tree? (r.coin()? int(TREE_): int(CHAIN)): r.below(NSHAPE);
    nv[g]=1+r.below(maxn); if (shapes[g]==DENSE) nv[g]=1+nv[g]/4;
    build(r,shapes[g],nv[g],o[g].v);
    root[g]=r.coin(12)? 0: o[g].v[tree? 0: (r.coin(3)? r.below(nv[g]): 0)];
    want[g]=canon(root[g],cnt[g]);
    visits=0; b<<root[g]; vis[g]=visits;
    b<<int(g*1000+7);
    CHECK(canon(root[g])==want[g],std::string("pack-changed-source:")+name,shapeName[shapes[g]]);
    CHECK(size_t(vis[g])==cnt[g],std::string("nodes-packed:")+name,std::string(shapeName[shapes[g]])+" nodes "+vstr(unsigned(cnt[g]))+" visits "+vstr(long(vis[g])));
    report().count("nodes",cnt[g]); report().count(std::string("shape_")+shapeName[shapes[g]]);
    report().distinct(std::string(name)+want[g]);
    if (g==0) report().sample(std::string(name)+" "+shapeName[shapes[g]]+" "+want[g].substr(0,200));
  }
  N* save=spare<N>(); std::string dwant=canon(save);
  {
    std::vector<N*> got;
    for (unsigned g=0; g<ng; ++g) {
      N* p=r.coin()? spare<N>(): 0; size_t a0=b.alloced.size(); visits=0; int z=0;
      b>>p; b>>z;
      size_t c; std::string h=canon(p,c);
      CHECK(h==want[g],std::string("not-isomorphic:")+name,std::string(shapeName[shapes[g]])+" recur "+vstr(recur)+" want "+want[g].substr(0,600)+" got "+h.substr(0,600));
      CHECK(z==int(g*1000+7),std::string("following-item:")+name,shapeName[shapes[g]]);
      CHECK(b.alloced.size()-a0==cnt[g],std::string("nodes-allocated:")+name,std::string(shapeName[shapes[g]])+vstr(unsigned(b.alloced.size()-a0))+" for "+vstr(unsigned(cnt[g])));
      CHECK(size_t(visits)==cnt[g],std::string("nodes-unpacked:")+name,shapeName[shapes[g]]);
      got.push_back(p);
      report().count("graphs");
    }
    CHECK(b.pos()==b.size(),std::string("bytes-left:")+name,"");
    // graphs stay intact until the buffer goes
    for (unsigned g=0; g<ng; ++g) CHECK(canon(got[g])==want[g],std::string("later-unpack-damaged:")+name,"");
    // independence from the source
    for (unsigned g=0; g<ng; ++g) for (size_t i=0; i<o[g].v.size(); ++i) o[g].v[i]->id=-5;
    for (unsigned g=0; g<ng; ++g) CHECK(canon(got[g])==want[g],std::string("shares-with-source:")+name,"");
  }
  CHECK(canon(save)==dwant,std::string("stale-target-written:")+name,"");
}

// failure while packing or unpacking, then everything must work as before
template <class N> void faultCase(const char* name, Rng& r, int maxn, int flag, bool tree)
{
  Owner<N> o, o2; size_t n=2+r.below(maxn);
  build(r,tree? int(TREE_): int(r.below(NSHAPE)),n,o.v); N* root=o.v[0]; size_t cnt; std::string want=canon(root,cnt);
  {
    pack_t b; b.ptr_flag=Ptr_flag(flag); b.recur_max=r.coin()? 2+r.below(10): 500;
    visits=0; failAt=r.below(cnt); bool thrown=false;
    try {b<<root;} catch (Boom&) {thrown=true;}
    failAt=-1;
    CHECK(thrown,std::string("no-exception:")+name,""); report().count("failed_packs");
  }
  {
    pack_t b; b.ptr_flag=Ptr_flag(flag); b.recur_max=r.coin()? 2+r.below(10): 500;
    N* p=0; size_t c;
    if (r.coin()) {
      visits=0; b<<root; visits=0; failAt=r.below(cnt); bool thrown=false;
      try {b>>p;} catch (Boom&) {thrown=true;}
      failAt=-1; CHECK(thrown,std::string("no-exception-unpack:")+name,"");
    } else {
      b<<root; b.seeki(-long(1+r.below(b.size()-1))); bool thrown=false;
      try {b>>p;} catch (std::exception&) {thrown=true;}
      CHECK(thrown,std::string("no-exception-truncated:")+name,"");
    }
    report().count("failed_unpacks");
    // different graph straight afterwards, in a fresh buffer while the failed one lives or not
    if (r.coin()) b.alloced.clear();
    build(r,tree? int(TREE_): int(r.below(NSHAPE)),1+r.below(maxn),o2.v); N* root2=r.coin()? root: o2.v[0]; std::string want2=canon(root2,c);
    pack_t b2; b2.ptr_flag=Ptr_flag(flag); b2.recur_max=r.coin()? 2+r.below(10): 500;
    visits=0; b2<<root2; CHECK(size_t(visits)==c,std::string("after-failure-packed:")+name,vstr(long(visits))+" of "+vstr(unsigned(c)));
    N* q=0; b2>>q; std::string h=canon(q);
    CHECK(h==want2,std::string("after-failure:")+name,"want "+want2.substr(0,500)+" got "+h.substr(0,500));
    CHECK(b2.alloced.size()==c && b2.pos()==b2.size(),std::string("after-failure-alloc:")+name,"");
    report().count("recoveries");
  }
  CHECK(canon(root)==want,std::string("failure-changed-source:")+name,"");
}
template <class N> void defaultThrows(const char* name)
{
  N n; initLinks(n); n.id=1; n.p.v=2; N* p=&n; pack_t b; bool t=false;
  try {b<<p;} catch (std::exception&) {t=true;}
  CHECK(t,std::string("default-pointer-packed:")+name,"");
}

void breakCycles(RNode* root)
{
  std::set<RNode*> seen; std::vector<ref<RNode> > hold; std::vector<RNode*> todo; if (!root) return;
  todo.push_back(root); seen.insert(root);
  while (!todo.empty()) {RNode* n=todo.back(); todo.pop_back(); for (unsigned k=0; k<nlinks(*n); ++k) {ref<RNode>& l=link(*n,k); if (l && seen.insert(&*l).second) {hold.push_back(l); todo.push_back(&*l);}}}
  for (std::set<RNode*>::iterator i=seen.begin(); i!=seen.end(); ++i) {hold.size(); for (unsigned k=0; k<4; ++k) if (*i!=root || true) {link(**i,k)=ref<RNode>();}}
}
template <class Buf> void refCase(const char* name, Rng& r, int maxn, unsigned recur, bool faults)
{
  CHECK(rlive==0,std::string("leaked-before:")+name,vstr(rlive));
  {
    size_t n=1+r.below(maxn); int shape=faults? int(DAG): int(r.below(NSHAPE)); if (shape==DENSE) n=1+n/4;
    std::vector<ref<RNode> > v(n);
    for (size_t i=0; i<n; ++i) {fill(r,*v[i],i);}
    for (size_t i=0; i<n; ++i) for (unsigned k=0; k<4; ++k) {long t=target(r,shape,n,i,k,4); if (t>=0) link(*v[i],k)=v[t];}
    ref<RNode> root=v[faults? 0: r.below(n)]; size_t cnt; std::string want=canon(root,cnt);
    Buf b; if (recur!=500) b.recur_max=recur;
    if (faults) {
      visits=0; failAt=r.below(cnt); bool t=false; try {b<<root;} catch (Boom&) {t=true;} failAt=-1; CHECK(t,"no-exception:ref","");
      Buf c; c<<root; int live=rlive; {ref<RNode> x; c.seeki(-long(1+r.below(c.size()-1))/4*4-4); t=false; try {c>>x;} catch (std::exception&) {t=true;} CHECK(t,"no-exception-truncated:ref","");}
      CHECK(rlive==live,"failed-unpack-leaks:ref",vstr(rlive-live)); report().count("failed_ref");
      b.clear();
    }
    Buf b2; if (recur!=500) b2.recur_max=recur;
    visits=0; b2<<root; CHECK(size_t(visits)==cnt,std::string("nodes-packed:")+name,"");
    int live0=rlive;
    ref<RNode> x; bool used=r.coin(); if (used) {x->id=5; x->l=r.coin()? v[0]: ref<RNode>();}
    b2>>x; size_t c; std::string h=canon(x,c);
    CHECK(h==want,std::string("not-isomorphic:")+name,std::string(shapeName[shape])+" want "+want.substr(0,500)+" got "+h.substr(0,500));
    CHECK(rlive-live0==int(cnt),std::string("nodes-allocated:")+name,vstr(rlive-live0)+" for "+vstr(unsigned(cnt)));
    CHECK(b2.pos()==b2.size(),std::string("bytes-left:")+name,"");
    // reference counts equal the number of links to the node
    std::map<RNode*,int> in; in[addr(x)]++;
    {std::set<RNode*> s; std::vector<RNode*> q(1,addr(x)); s.insert(addr(x)); while (!q.empty()) {RNode* m=q.back(); q.pop_back(); for (unsigned k=0; k<4; ++k) {RNode* t=addr(link(*m,k)); if (t) {in[t]++; if (s.insert(t).second) q.push_back(t);}}}
      bool good=x.refCount()==in[addr(x)];
      for (std::set<RNode*>::iterator i=s.begin(); i!=s.end(); ++i) for (unsigned k=0; k<4; ++k) {ref<RNode>& l=link(**i,k); if (l && l.refCount()!=in[&*l]) good=false;}
      CHECK(good,std::string("refcounts:")+name,shapeName[shape]);}
    report().count("ref_graphs"); report().distinct("ref"+want);
    breakCycles(addr(x)); x.nullify(); breakCycles(addr(root)); for (size_t i=0; i<n; ++i) breakCycles(addr(v[i]));
  }
  CHECK(rlive==0,std::string("leaked:")+name,vstr(rlive));
  rlive=0;
}

void hetero(Rng& r, unsigned it)
{ // graph over two mutually linked node types
  std::vector<HetA> a(1+r.below(6)); std::vector<HetB> b(1+r.below(6));
  for (size_t i=0; i<a.size(); ++i) {fill(r,a[i],i); a[i].l=r.coin(3)? 0: &b[r.below(b.size())]; a[i].r=r.coin(3)? 0: &b[r.below(b.size())];}
  for (size_t i=0; i<b.size(); ++i) {fill(r,b[i],i+100); b[i].l=r.coin(3)? 0: &a[r.below(a.size())]; b[i].r=r.coin(3)? 0: &a[r.below(a.size())];}
  std::set<void*> s; std::vector<HetA*> q(1,&a[0]); s.insert(&a[0]);
  while (!q.empty()) {HetA* x=q.back(); q.pop_back(); HetB* l[2]={x->l,x->r}; for (int i=0; i<2; ++i) if (l[i] && s.insert(l[i]).second) {HetA* m[2]={l[i]->l,l[i]->r}; for (int j=0; j<2; ++j) if (m[j] && s.insert(m[j]).second) q.push_back(m[j]);}}
  pack_t buf; HetA* p=&a[0]; buf<<p; HetA* g=0; buf>>g;
  CHECK(buf.alloced.size()==s.size(),"hetero-sharing",vstr(unsigned(buf.alloced.size()))+" nodes created for "+vstr(unsigned(s.size())));
  report().count("hetero");
}

int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]); std::string mode=argv[4];
  for (unsigned it=from; it<iters; ++it)
    {
      Rng r(seed*31337+it*7+mode.size());
      unsigned recs[]={2,3,4,5,7,10,50,499,500,501}; unsigned recur=recs[r.below(10)];
      bool big=argc>5; int maxn=it%40==39? (big? 200000: 2500): it%10==9? (big? 20000: 800): it%3==0? 8: 60;
      char pr[100]; snprintf(pr,100,"%s|%u",mode.c_str(),it); report().progress(pr);
      if (mode=="ptr") {
        switch (r.below(8)) {
        case 0: pointerCase<GNode,pack_t>("pragma",r,maxn,DEFAULT,false,recur); break;
        case 1: pointerCase<GNode,xdr_pack>("pragma-xdr",r,maxn,DEFAULT,false,recur); break;
        case 2: pointerCase<gns::ANode,pack_t>("aggregate",r,maxn,DEFAULT,false,recur); break;
        case 3: pointerCase<PNode,pack_t>("flag-graph",r,maxn,GRAPH,false,recur); break;
        case 4: pointerCase<PNode,xdr_pack>("flag-graph-xdr",r,maxn,GRAPH,false,recur); break;
        case 5: pointerCase<TNode,pack_t>("tree",r,std::min(maxn,800),DEFAULT,true,recur); break;
        case 6: pointerCase<PNode,pack_t>("flag-tree",r,std::min(maxn,800),TREE,true,recur); break;
        default: pointerCase<VNode,pack_t>("containers",r,30,DEFAULT,false,0); break;
        }
      } else if (mode=="fault") {
        maxn=(big? maxn: std::min(maxn,1500));
        switch (r.below(5)) {
        case 0: faultCase<GNode>("pragma",r,maxn,DEFAULT,false); break;
        case 1: faultCase<gns::ANode>("aggregate",r,maxn,DEFAULT,false); break;
        case 2: faultCase<PNode>("flag-graph",r,maxn,GRAPH,false); break;
        case 3: faultCase<TNode>("tree",r,std::min(maxn,500),DEFAULT,true); break;
        default: faultCase<PNode>("flag-tree",r,std::min(maxn,500),TREE,true); break;
        }
        if (it%10==0) defaultThrows<PNode>("PNode");
      } else if (mode=="ref") {
        maxn=(big? maxn: std::min(maxn,1500));
        if (r.coin(3)) refCase<xdr_pack>("ref-xdr",r,maxn,recur,false); else refCase<pack_t>("ref",r,maxn,recur,r.coin(3));
      } else if (mode=="hetero") hetero(r,it);
      else if (mode=="overlimit") { // a single link held in a vector, at the recursion limit
        VNode a, b2, c; fill(r,a,1); fill(r,b2,2); fill(r,c,3); a.v.push_back(&b2); b2.v.push_back(&c);
        pack_t b; b.recur_max=2; VNode* p=&a; b<<p; VNode* q=0; b>>q;
        CHECK(canon(q)==canon(p),"container-link",""); report().count("overlimit");
      }
    }
  report().done(); return 0;
}
