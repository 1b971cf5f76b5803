// Byte-queue reference model for pack_t.
#include "classdesc_access.h"
#include <iostream>
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "ops.h"
using namespace classdesc; using std::string; using std::vector;

struct Model {string d; size_t pos; Model(): pos(0) {}};
struct Buf {pack_t* b; Model m; Buf(): b(new pack_t) {} ~Buf() {delete b;} };
static string trace;
static void note(const char* f, long a=0, long b=0) {char s[96]; snprintf(s,96,f,a,b); trace+=s; trace+=' '; if (trace.size()>6000) trace.erase(0,3000);}

static bool agree(Buf& x, const char* what)
{
  report().count("states");
  bool ok=x.b->size()==x.m.d.size() && x.b->pos()==x.m.pos && bool(*x.b)==(x.m.pos<x.m.d.size()) &&
    (x.m.d.empty() || memcmp(x.b->data(),x.m.d.data(),x.m.d.size())==0);
  char s[200]; snprintf(s,200,"size %lu/%lu pos %lu/%lu after ",(unsigned long)x.b->size(),(unsigned long)x.m.d.size(),(unsigned long)x.b->pos(),(unsigned long)x.m.pos);
  CHECK(ok,string("state:")+what,s+trace);
  return ok;
}
template <class T> void putPrim(Rng& r, Buf& x)
{
  T v=T(); Ops<T>::gen(r,v);
  size_t was=x.m.d.size();
  *x.b<<v;
  x.m.d.append(reinterpret_cast<char*>(&v),sizeof(T));
  if (sizeof(T)==16 && x.b->size()>=was+16) x.m.d.replace(was+10,6,string(x.b->data()+was+10,6)); // long double padding
}
template <class T> bool getPrim(Rng& r, Buf& x)
{
  T v=T(); Ops<T>::gen(r,v); bool thrown=false; size_t before=x.b->pos();
  try {*x.b>>v;} catch (const pack_error&) {thrown=true;} 
  bool can=x.m.pos<=x.m.d.size() && x.m.d.size()-x.m.pos>=sizeof(T);
  CHECK(thrown==!can,can? "spurious-exception": "read-past-end","typed read: "+trace);
  if (can) {
    CHECK(memcmp(&v,x.m.d.data()+x.m.pos,sizeof(T)==16? 10: sizeof(T))==0,"typed-value",trace);
    x.m.pos+=sizeof(T);
  }
  else CHECK(x.b->pos()==before,"failed-read-moved-position",trace);
  return true;
}
static int sgn(int x) {return x<0? -1: x>0;}
static void compare(Buf& x, Buf& y)
{
  const pack_t &a=*x.b, &b=*y.b; const string &p=x.m.d, &q=y.m.d;
  bool eq=p==q;
  CHECK((a==b)==eq,"cmp:==",trace); CHECK((a!=b)==!eq,"cmp:!=",trace);
  bool lt=a<b, gt=a>b;
  CHECK(int(lt)+int(gt)+int(eq)==1,"cmp:trichotomy","exactly one of < > == must hold: "+trace);
  CHECK((b>a)==lt && (b<a)==gt,"cmp:antisymmetry",trace);
  if (p.size()==q.size()) CHECK(sgn(a.cmp(b))==sgn(p.compare(q)),"cmp:lexicographic",trace); // string compares unsigned bytes
  CHECK(a.cmp(b)>=-1 && a.cmp(b)<=1,"cmp:range","cmp() documented to return -1, 0 or 1");
  report().count("comparisons");
}

static void history(Rng& r, unsigned steps)
{
  const unsigned N=4; Buf x[N]; trace.clear();
  for (unsigned s=0; s<steps; ++s)
    {
      unsigned i=r.below(N), j=r.below(N); Buf& b=x[i]; const char* what="";
      switch (r.below(20))
        {
        case 0: case 1: case 2: {
          what="packraw"; unsigned n=r.coin(8)? r.below(5000): r.below(30);
          string v; for (unsigned k=0;k<n;++k) v+=char(r.coin(3)? 0: r.next());
          note("b%ld.packraw(%ld)",i,n); b.b->packraw(v.data(),n); b.m.d+=v; break;}
        case 3: case 4: case 5: {
          what="unpackraw"; size_t avail=b.m.pos<b.m.d.size()? b.m.d.size()-b.m.pos: 0;
          size_t n=r.coin(5)? avail+1+r.below(20): r.below(avail+1);
          if (r.coin(12)) n=size_t(-1)-r.below(40);      // a hostile length
          note("b%ld.unpackraw(%ld)",i,n);
          vector<char> t(n<100000? n+1: 1); bool thrown=false;
          try {b.b->unpackraw(&t[0],n);} catch (const pack_error&) {thrown=true;}
          bool behind=b.m.pos>b.m.d.size(); // reading nothing from behind the end may or may not throw
          CHECK(thrown==(n>avail) || (behind && n==0),n>avail? "read-past-end": "spurious-exception",trace);
          if (!thrown && n<=avail) {CHECK(memcmp(&t[0],b.m.d.data()+b.m.pos,n)==0,"raw-value",trace); b.m.pos+=n; report().count("raw_bytes_read",n);}
          break;}
        case 6: what="put"; note("b%ld<<prim",i);
          switch (r.below(8)) {case 0: putPrim<char>(r,b); break; case 1: putPrim<short>(r,b); break; case 2: putPrim<int>(r,b); break; case 3: putPrim<long>(r,b); break;
            case 4: putPrim<double>(r,b); break; case 5: putPrim<bool>(r,b); break; case 6: putPrim<float>(r,b); break; default: putPrim<unsigned long long>(r,b);}
          break;
        case 7: case 8: what="get"; note("b%ld>>prim",i);
          switch (r.below(5)) {case 0: getPrim<char>(r,b); break; case 1: getPrim<short>(r,b); break; case 2: getPrim<int>(r,b); break; case 3: getPrim<unsigned char>(r,b); break; default: getPrim<unsigned long>(r,b);}
          break;
        case 9: { // objects: bytes taken from the buffer, then read back from the right place
          what="object"; note("b%ld<<objects",i);
          string v; Ops<string>::gen(r,v); vector<short> w; Ops<vector<short> >::gen(r,w);
          size_t was=b.b->size(); *b.b<<v<<w;
          CHECK(b.b->size()>=was+v.size()+2*w.size(),"object-size",trace);
          if (b.b->size()>=was) b.m.d.append(b.b->data()+was,b.b->size()-was);
          if (r.coin()) {
            long d=long(was)-long(b.m.pos); b.b->seeko(d); b.m.pos=was;
            string v1; vector<short> w1; *b.b>>v1>>w1; b.m.pos=b.m.d.size();
            CHECK(v1==v&&w1==w,"object-value",trace);
          }
          break;}
        case 10: what="reseto"; note("b%ld.reseto",i); CHECK(&b.b->reseto()==b.b,"returns-self",""); b.m.pos=0; break;
        case 11: what="reseti"; note("b%ld.reseti",i); b.b->reseti(); b.b->reseto(); b.m.d.clear(); b.m.pos=0; break;
        case 12: {what="seeki"; unsigned k=r.below(b.m.d.size()+1); if (r.coin()) k=r.below(std::min<size_t>(b.m.d.size(),9)+1);
          note("b%ld.seeki(-%ld)",i,k); b.b->seeki(-long(k)); b.m.d.resize(b.m.d.size()-k);
          if (b.m.pos>b.m.d.size()) { // position lies behind the end now: nothing may be read
            char c; bool thrown=false; try {b.b->unpackraw(&c,1);} catch (const pack_error&) {thrown=true;} CHECK(thrown,"read-past-end",trace);
            if (r.coin()) {b.b->seeko(long(b.m.d.size())-long(b.m.pos)); b.m.pos=b.m.d.size();}
          }
          break;}
        case 13: case 14: {what="seeko"; long to=r.below(b.m.d.size()+(r.coin(6)? 20: 1)); long d=to-long(b.m.pos);
          note("b%ld.seeko(%ld)",i,d); b.b->seeko(d); b.m.pos=to; break;}
        case 15: what="clear"; if (r.coin(3)) {note("b%ld.clear",i); b.b->clear(); b.m=Model();} break;
        case 16: what="swap"; note("swap b%ld b%ld",i,j); b.b->swap(*x[j].b); if (i!=j) std::swap(b.m,x[j].m); break;
        case 17: {
          what="resize"; size_t n=b.m.d.size()+r.below(20), was=b.m.d.size(); if (r.coin(4)) n=r.below(n+1);
          note("b%ld.resize(%ld)",i,n); b.b->resize(n); b.m.d.resize(n,'\0');
          for (size_t k=was; k<n; ++k) {b.b->data()[k]=char(k*7); b.m.d[k]=char(k*7);}
          break;}
        case 18: what="compare"; if (r.coin(3)) { // make them equal, or differ in one byte only
            note("b%ld=b%ld+",i,j); if (i!=j) {b.b->reseti(); b.b->reseto(); b.m=Model(); b.b->packraw(x[j].b->data(),x[j].m.d.size()); b.m.d=x[j].m.d;
              if (!b.m.d.empty()&&r.coin()) {size_t k=r.below(b.m.d.size()); b.m.d[k]^=char(1+r.below(255)); b.b->data()[k]=b.m.d[k];}}}
          for (unsigned k=0; k<N; ++k) for (unsigned l=0; l<N; ++l) compare(x[k],x[l]);
          break;
        default:
#if __cplusplus>=201103L
          if (r.coin()) {what="move-assign"; if (i==j) break; note("b%ld=move(b%ld)",i,j); *b.b=std::move(*x[j].b);
            Model m=x[j].m; x[j].m=Model(); b.m=m;
            // the source is valid but unspecified: give it a known state again
            x[j].b->clear(); x[j].b->reseti(); x[j].b->reseto();}
          else {what="move-construct"; note("b%ld moved to new",i);
            b.b->recur_max=77+i; pack_t* n=new pack_t(std::move(*b.b));
            CHECK(n->recur_max==77+i,"move-construct-settings","recur_max not carried over");
            // the source must be a usable empty buffer
            Buf& src=b; CHECK(src.b->size()==0&&src.b->pos()==0&&!*src.b,"moved-from-state",trace);
            src.b->reseti(); src.b->reseto();
            int q=42, z=0; *src.b<<q; *src.b>>z; CHECK(z==42,"moved-from-unusable",trace);
            delete src.b; src.b=n; n->recur_max=500;}
          break;
#else
          what="none"; break;
#endif
        }
      agree(b,what); if (i!=j) agree(x[j],what);
      report().count(string("op_")+what);
    }
  for (unsigned k=0; k<N; ++k) report().distinct(x[k].m.d+trace.substr(0,300));
}

int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]);
  for (unsigned i=from; i<iters; ++i)
    {
      char p[64]; snprintf(p,64,"history|%u",i); report().progress(p);
      Rng r(seed*10007+i); r.maxLen=6; history(r,10+r.below(120));
      if (i<3) report().sample(trace.substr(0,500));
      report().count("histories");
    }
  report().done(); return 0;
}
