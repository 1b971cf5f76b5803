// Lock-step monitor of counted references and buffer owned objects.
#include "pack_base.h"
#include "pack_stl.h"
#include "pack_graph.h"
#include "ref.h"
#include "ops.h"
#include "obj.h"
#include "gen.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
typedef ref<Obj> R;

static std::set<const void*> live; static long born=0, died=0, badDeath=0;
Obj::Obj(int v): val(v) {live.insert(this); ++born;}
Obj::Obj(const Obj& x): val(x.val), kids(x.kids) {c[0]=x.c[0]; c[1]=x.c[1]; live.insert(this); ++born;}
Obj::~Obj() {if (!live.erase(this)) ++badDeath; ++died; val=-12345;}
static std::set<const void*> liveNode;
Node::Node(): val(0), l(0), r(0) {liveNode.insert(this);}
Node::~Node() {if (!liveNode.erase(this)) ++badDeath; val=-1;}

// ----------------------------------------------------------------- the model
struct MObj {int cnt, val; std::vector<int> ch; bool alive; const Obj* where; MObj(int v): cnt(0), val(v), ch(2,-1), alive(true), where(0) {}};
struct Model
{
  std::deque<MObj> o;
  int make(int v) {o.push_back(MObj(v)); return o.size()-1;}
  int copyOf(int i) {int n=make(o[i].val); o[n].ch.assign(o[i].ch.size(),-1); for (size_t k=0; k<o[i].ch.size(); ++k) {o[n].ch[k]=o[i].ch[k]; inc(o[n].ch[k]);} return n;}
  void inc(int i) {if (i>=0) o[i].cnt++;}
  void dec(int i) {if (i<0) return; if (--o[i].cnt==0) {o[i].alive=false; std::vector<int> c; c.swap(o[i].ch); for (size_t k=0; k<c.size(); ++k) dec(c[k]);}}
  void set(int& slot, int v) {inc(v); int old=slot; slot=v; dec(old);}
  size_t alive() const {size_t n=0; for (size_t i=0; i<o.size(); ++i) n+=o[i].alive; return n;}
  int clone(int i, std::map<int,int>& m) {
    if (i<0) return -1;
    if (m.count(i)) return m[i];
    int n=m[i]=make(o[i].val); o[n].ch.assign(o[i].ch.size(),-1);
    for (size_t k=0; k<o[i].ch.size(); ++k) {int c=clone(o[i].ch[k],m); inc(c); o[n].ch[k]=c;}
    return n;
  }
};
struct World
{
  std::vector<R> h; std::vector<int> m; Model mod; std::string trace;
  size_t nslots(int i) {return mod.o[i].ch.size();}
  static R& slot(Obj& x, size_t k) {return k<2? x.c[k]: x.kids[k-2];}
  static const R& slot(const Obj& x, size_t k) {return k<2? x.c[k]: x.kids[k-2];}

  // matches a real target with the model's node, recursively
  bool ok; std::string why;
  std::map<const Obj*,int> seen; std::map<int,const Obj*> seenM;
  void fail(const std::string& w) {if (ok) why=w; ok=false;}
  void match(const R& r, int i) {
    if (r.nullref()!=(i<0)) {fail("null state"); return;}
    if (i<0) {if (r.refCount()!=0 || r) fail("null refcount"); return;}
    const Obj* p=&*r;
    if (!live.count(p)) {fail("refers to a dead object"); return;}
    if (r.refCount()!=mod.o[i].cnt) fail("refCount "+vstr(r.refCount())+" want "+vstr(mod.o[i].cnt));
    if (seen.count(p)||seenM.count(i)) {if (!seen.count(p) || !seenM.count(i) || seen[p]!=i || seenM[i]!=p) fail("identity"); return;}
    seen[p]=i; seenM[i]=p; mod.o[i].where=p;
    if (p->val!=mod.o[i].val) fail("value");
    if (p->kids.size()+2!=nslots(i)) {fail("children"); return;}
    for (size_t k=0; k<nslots(i); ++k) match(slot(*p,k),mod.o[i].ch[k]);
  }
  void check(const char* op) {
    ok=true; why=""; seen.clear(); seenM.clear();
    for (size_t i=0; i<h.size(); ++i) match(h[i],m[i]);
    CHECK(ok,std::string(op)+":"+why.substr(0,why.find(' ')),why+" after "+trace);
    CHECK(live.size()==mod.alive(),std::string(op)+":live-objects",vstr(unsigned(live.size()))+" alive, want "+vstr(unsigned(mod.alive()))+" after "+trace);
    CHECK(badDeath==0,std::string(op)+":destroyed-twice",trace);
    badDeath=0;
  }
};

static bool history(uint64_t seed, unsigned len)
{
  Rng r(seed); World w; Model& M=w.mod; const size_t K=5; long nv0=report().nv;
  w.h.resize(K); w.m.assign(K,-1);
  for (unsigned s=0; s<len; ++s)
    {
      size_t a=r.below(K), b=r.below(K); int v=r.below(1000); char op[40]="";
      int kind=r.below(24);
      report().count("ops");
      switch (kind)
        {
        case 0: strcpy(op,"new"); w.h[a]=R(Obj(v)); M.set(w.m[a],M.make(v)); break;
        case 1: strcpy(op,"assign-value"); w.h[a]=Obj(v); M.set(w.m[a],M.make(v)); break;
        case 2: strcpy(op,"assign"); w.h[a]=w.h[b]; M.set(w.m[a],w.m[b]); break;
        case 3: strcpy(op,"nullify"); w.h[a].nullify(); M.set(w.m[a],-1); break;
        case 4: strcpy(op,"self-assign"); {R& x=w.h[a]; x=*&x;} break;
        case 5: strcpy(op,"assign-own-value"); if (w.m[a]>=0) {w.h[a]=*w.h[a]; M.set(w.m[a],M.copyOf(w.m[a]));} break;
        case 6: case 7: strcpy(op,"assign-own-child"); if (w.m[a]>=0) {size_t k=r.below(w.nslots(w.m[a])); w.h[a]=World::slot(*w.h[a],k); M.set(w.m[a],M.o[w.m[a]].ch[k]);} break;
        case 8: case 9: case 10: strcpy(op,"set-child"); if (w.m[a]>=0) {size_t k=r.below(w.nslots(w.m[a])); World::slot(*w.h[a],k)=w.h[b]; M.set(M.o[w.m[a]].ch[k],w.m[b]);} break;
        case 11: strcpy(op,"add-child"); if (w.m[a]>=0 && w.nslots(w.m[a])<6) {R t=w.h[b]; w.h[a]->kids.push_back(t); M.inc(w.m[b]); M.o[w.m[a]].ch.push_back(w.m[b]);} break;
        case 12: strcpy(op,"erase-child"); if (w.m[a]>=0 && w.nslots(w.m[a])>2) {
            size_t k=r.below(w.nslots(w.m[a])-2); R keep=w.h[a]; int mk=w.m[a]; M.inc(mk); keep->kids.erase(keep->kids.begin()+k); std::vector<int>& c=M.o[mk].ch; int old=c[k+2]; c.erase(c.begin()+k+2); M.dec(old); M.dec(mk);} break;
        case 13: strcpy(op,"swap"); if (r.coin()) w.h[a].swap(w.h[b]); else std::swap(w.h[a],w.h[b]); std::swap(w.m[a],w.m[b]); break;
        case 14: strcpy(op,"nullify-child"); if (w.m[a]>=0) {size_t k=r.below(w.nslots(w.m[a])); R keep=w.h[a]; int mk=w.m[a]; M.inc(mk); World::slot(*keep,k).nullify(); M.set(M.o[mk].ch[k],-1); M.dec(mk);} break;
        case 15: strcpy(op,"deref-creates"); if (r.coin()) (*w.h[a]).val=v; else w.h[a]->val=v; if (w.m[a]<0) M.set(w.m[a],M.make(v)); else M.o[w.m[a]].val=v; break;
        case 16: strcpy(op,"copies"); {std::vector<R> c(w.h.begin(),w.h.end()); c.insert(c.begin()+r.below(c.size()),w.h[a]); c.erase(c.begin()+r.below(c.size())); std::set<R> st(c.begin(),c.end()); std::map<int,R> mp; mp[3]=w.h[b]; mp[3]=w.h[a]; CHECK(mp[3]==w.h[a],"map-assign",w.trace);
            if (w.m[a]>=0) {int n=0; for (size_t i=0; i<c.size(); ++i) n+=c[i]==w.h[a]; n+=(c.empty()? 0: st.count(w.h[a])); n+=1; n+= w.m[a]==w.m[b] && 0; CHECK(w.h[a].refCount()==M.o[w.m[a]].cnt+n,"refcount-in-containers",w.trace);}} break;
        case 17: strcpy(op,"reverse"); std::reverse(w.h.begin(),w.h.end()); std::reverse(w.m.begin(),w.m.end()); break;
        case 18: strcpy(op,"compare"); {
            CHECK((w.h[a]==w.h[b])==(w.m[a]==w.m[b]),"equality",w.trace); CHECK((w.h[a]!=w.h[b])==(w.m[a]!=w.m[b]),"inequality",w.trace);
            CHECK((w.h[a]<w.h[b]||w.h[b]<w.h[a])==(w.m[a]!=w.m[b]),"order",w.trace);
            Obj o(w.m[a]>=0? M.o[w.m[a]].val: v); CHECK((w.h[a]==o)==(w.m[a]>=0),"value-equality",w.trace);
            const R& ca=w.h[a]; if (w.m[a]>=0) CHECK(&*ca==&*w.h[a] && ca.operator->()==&*w.h[a],"const-deref",w.trace);
            if (w.m[a]>=0) CHECK(w.h[a]==(const Obj*)&*w.h[a],"pointer-equality",w.trace); } break;
        case 19: strcpy(op,"roundtrip"); {pack_t buf; if (r.coin()) buf.recur_max=100; buf<<w.h[a]; R x; if (r.coin()) x=w.h[b]; buf>>x; std::map<int,int> mp; int n=M.clone(w.m[a],mp); M.set(w.m[b],n); w.h[b]=x;} break;
        case 20: strcpy(op,"roundtrip-in-place"); {pack_t buf; buf<<w.h[a]; std::map<int,int> mp; int n=M.clone(w.m[a],mp); M.set(w.m[b],n); buf>>w.h[b];} break;
        case 21: strcpy(op,"child-of-child"); if (w.m[a]>=0) {size_t k=r.below(w.nslots(w.m[a])); int c=M.o[w.m[a]].ch[k]; if (c>=0) {size_t q=r.below(w.nslots(c)); // list removal: link past the child
                R keep=w.h[a]; int mk=w.m[a]; M.inc(mk); R& l=World::slot(*keep,k); l=World::slot(*l,q); M.set(M.o[mk].ch[k],M.o[c].ch[q]); M.dec(mk);}} break;
        case 22: strcpy(op,"copy-construct"); {R* p=new R(w.h[a]); M.inc(w.m[a]); if (w.m[a]>=0) CHECK(p->refCount()==M.o[w.m[a]].cnt,"copy-refcount",w.trace); w.h[b]=*p; M.set(w.m[b],w.m[a]); delete p; M.dec(w.m[a]);} break;
        default: strcpy(op,"drop"); w.h[a]=R(); M.set(w.m[a],-1); break;
        }
      char t[80]; snprintf(t,80,"%s(%u,%u) ",op,unsigned(a),unsigned(b)); w.trace+=t;
      if (w.trace.size()>1500) w.trace="..."+w.trace.substr(w.trace.size()-1000);
      w.check(op);
      report().count(std::string("op_")+op);
      report().distinct(w.trace.substr(w.trace.size()>300? w.trace.size()-300: 0));
      if (report().nv>nv0) return false; // the world is no longer trustworthy
      if (M.o.size()>400) break;
    }
  // dismantle cycles, then everything must go
  std::vector<R> hold;
  for (size_t i=0; i<M.o.size(); ++i) if (M.o[i].alive && M.o[i].where && live.count(M.o[i].where)) {Obj& x=*const_cast<Obj*>(M.o[i].where); for (size_t k=0; k<2+x.kids.size(); ++k) hold.push_back(World::slot(x,k));}
  for (std::set<const void*>::iterator i=live.begin(); i!=live.end(); ++i) {Obj& x=*const_cast<Obj*>(static_cast<const Obj*>(*i)); x.c[0].nullify(); x.c[1].nullify(); x.kids.clear();}
  hold.clear(); w.h.clear();
  CHECK(live.empty(),"leaked-at-end",vstr(unsigned(live.size()))+" "+w.trace); CHECK(badDeath==0,"destroyed-twice-at-end",w.trace);
  badDeath=0;
  if (seed%997==1) report().sample(w.trace);
  return live.empty();
}

// ---------------------------------------------------- objects owned by buffers
typedef std::vector<PtrStoreRef> Own;
static void owners(uint64_t seed, unsigned len)
{
  Rng r(seed); const size_t K=3; pack_t* b[K]; std::vector<const void*> mb[K]; Own side; std::vector<const void*> ms; std::string trace;
  for (size_t i=0; i<K; ++i) {b[i]=new pack_t; b[i]->ptr_flag=GRAPH;}
  for (unsigned s=0; s<len; ++s)
    {
      size_t a=r.below(K), c=r.below(K); const char* op="";
      switch (r.below(13))
        {
        case 0: case 1: case 2: {op="unpack"; std::vector<Node*> n; size_t k=1+r.below(5); std::set<const void*> mine; for (size_t i=0; i<k; ++i) {n.push_back(new Node); mine.insert(n[i]);}
            for (size_t i=0; i<k; ++i) {n[i]->l=i+1<k? n[i+1]: 0; n[i]->r=n[r.below(k)]; n[i]->val=i;}
            Ptr_flag f=b[a]->ptr_flag; b[a]->ptr_flag=GRAPH; pack_t t; t.ptr_flag=GRAPH; b[a]->reseti().reseto(); *b[a]<<n[0]; Node* g=0; size_t was=b[a]->alloced.size(); *b[a]>>g;
            for (size_t i=was; i<b[a]->alloced.size(); ++i) mb[a].push_back(b[a]->alloced[i].data());
            CHECK(b[a]->alloced.size()-was==k,"owned-count",trace); for (size_t i=0; i<k; ++i) delete n[i]; break;}
        case 3: op="clear-list"; b[a]->alloced.clear(); mb[a].clear(); break;
        case 4: op="copy-list"; side=b[a]->alloced; ms=mb[a]; break;
        case 5: op="assign-list"; b[a]->alloced=b[c]->alloced; mb[a]=mb[c]; break;
        case 6: op="erase"; if (mb[a].size()) {size_t k=r.below(mb[a].size()); b[a]->alloced.erase(b[a]->alloced.begin()+k); mb[a].erase(mb[a].begin()+k);} break;
        case 7: op="swap-buffers"; b[a]->swap(*b[c]); mb[a].swap(mb[c]); break;
        case 8: op="destroy-buffer"; delete b[a]; b[a]=new pack_t; b[a]->ptr_flag=GRAPH; mb[a].clear(); break;
        case 9: op="side-to-buffer"; b[a]->alloced.insert(b[a]->alloced.begin()+r.below(mb[a].size()+1),side.begin(),side.end()), mb[a].clear(); for (size_t i=0; i<b[a]->alloced.size(); ++i) mb[a].push_back(b[a]->alloced[i].data()); break;
        case 10: op="clear-side"; side.clear(); ms.clear(); break;
        case 11: op="clear-buffer"; b[a]->clear(); break;
        default:
#if __cplusplus>=201103L
          op="move-buffer"; {pack_t t(std::move(*b[a])); CHECK(b[a]->alloced.empty(),"move-keeps-owned",trace); delete b[a]; b[a]=new pack_t(std::move(t));}
#else
          op="self-assign"; b[a]->alloced=*&b[a]->alloced; if (mb[a].size()) b[a]->alloced[0]=*&b[a]->alloced[0];
#endif
        }
      trace+=std::string(op)+" "; if (trace.size()>900) trace=trace.substr(trace.size()-600);
      std::set<const void*> want; for (size_t i=0; i<K; ++i) want.insert(mb[i].begin(),mb[i].end()); want.insert(ms.begin(),ms.end());
      CHECK(liveNode==want,std::string("owned:")+op,vstr(unsigned(liveNode.size()))+" alive, want "+vstr(unsigned(want.size()))+" after "+trace);
      CHECK(badDeath==0,std::string("owned-destroyed-twice:")+op,trace); badDeath=0;
      report().count("owner_ops"); report().distinct("own"+trace.substr(trace.size()>200? trace.size()-200: 0));
      if (liveNode!=want) break;
    }
  for (size_t i=0; i<K; ++i) delete b[i];
  side.clear();
  CHECK(liveNode.empty(),"owned-leak-at-end",vstr(unsigned(liveNode.size()))+" "+trace);
  liveNode.clear();
}

int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]); std::string mode=argv[4];
  for (unsigned it=from; it<iters; ++it)
    {
      char pr[60]; snprintf(pr,60,"%s|%u",mode.c_str(),it); report().progress(pr);
      if (mode=="ref") {if (!history(seed*100003+it,10+it%120)) break;}
      else owners(seed*100003+it,10+it%60);
    }
  report().done(); return 0;
}
