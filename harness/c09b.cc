// Monitors the poly/polyref handles and weak pointers.
#include "object.h"
#include "poly.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "ops.h"
#include <typeinfo>
#include "g09.h"
#include "gen.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
typedef poly<Shape> P;
static std::string str(const P& p, int d=0);
static std::string str(const Shape& s, int d=0) {
  std::ostringstream o; o<<s.n<<"/"; vshow(o,s.s);
  if (typeid(s)==typeid(Shape)) o<<"S";
  else if (typeid(s)==typeid(Circle)) {const Circle& c=dynamic_cast<const Circle&>(s); o<<"C"; vshow(o,c.r); vshow(o,c.v);}
  else if (typeid(s)==typeid(Square)) {const Square& q=dynamic_cast<const Square&>(s); o<<"Q"<<q.k<<"("<<str(q.inner,d+1)<<")";}
  else o<<"?"; return o.str();
}
static std::string str(const P& p, int d) {return p? str(*p,d): std::string("null");}
static void gen(Rng& r, P& p, int d=0) {
  switch (r.below(d>3? 2: 5)) {
  case 0: p=P(); return;
  case 1: {Shape s(r.below(100)); vgen(r,s.s); p=s; return;}
  case 2: {Circle c(r.below(100),r.below(50)/4.0); vgen(r,c.v); p=c; return;}
  case 3: {if (r.coin()) p.addObject<Circle>(int(r.below(100))); else p.addObject<Circle>(int(r.below(100)),2.5); return;}
  default: {Square q; q.n=r.below(100); q.k=r.below(10); gen(r,q.inner,d+1); p=q; return;}
  }
}
int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]);
  {P p; p.addObject<Shape>(); p.addObject<Circle>(); p.addObject<Square>();}
  for (unsigned it=from; it<iters; ++it)
    {
      char pr[40]; snprintf(pr,40,"polyh|%u",it); report().progress(pr);
      Rng r(seed*7777+it); P h[4]; std::string m[4], tr; for (int i=0; i<4; ++i) {gen(r,h[i]); m[i]=str(h[i]);}
      for (int s=0; s<30; ++s)
        {
          int a=r.below(4), b=r.below(4); char t[60]; const char* op="";
          switch (r.below(9)) {
          case 0: op="gen"; gen(r,h[a]); m[a]=str(h[a]); break;
          case 1: op="assign"; h[a]=h[b]; m[a]=m[b]; CHECK(!h[a] || a==b || &*h[a]!=&*h[b],"shallow-copy",tr); break;
          case 2: {op="self-assign"; P& x=h[a]; h[a]=x; break;}
          case 3: op="assign-own-target"; if (h[a]) h[a]=*h[a]; break;
          case 4: op="assign-inner"; if (h[a]) {Square* q=dynamic_cast<Square*>(&*h[a]); if (q) {m[a]=str(q->inner); h[a]=q->inner;}} break;
          case 5: case 6: {op="roundtrip"; pack_t p; p<<h[a]<<7; int z=0; CHECK(str(h[a])==m[a],"poly-pack-changed-source",tr); p>>h[b]>>z; m[b]=m[a]; CHECK(z==7 && p.pos()==p.size(),"poly-following-item",tr); break;}
          case 7: op="swap"; if (r.coin()) h[a].swap(h[b]); else std::swap(h[a],h[b]); std::swap(m[a],m[b]); break;
          default: op="mutate"; if (h[a]) {h[a]->n=r.below(1000); m[a]=str(h[a]);} break;
          }
          snprintf(t,60,"%s(%d,%d) ",op,a,b); tr+=t;
          bool ok=true; for (int i=0; i<4; ++i) if (str(h[i])!=m[i]) {CHECK(false,std::string("poly:")+op,"handle "+vstr(i)+" "+str(h[i])+" want "+m[i]+" after "+tr); ok=false;}
          CHECK(ok,std::string("poly-state:")+op,tr); report().count("poly_ops");
          CHECK((h[a]==h[b])==(a==b||(!h[a]&&!h[b])),"poly-equality",tr);
          if (!ok) break;
        }
      report().distinct(m[0]+m[1]+m[2]+m[3]); if (it<2) report().sample(m[0]+" "+m[1]+" "+tr);
      { // shallow handles
        polyref<Shape> x, y; x.addObject<Circle>(5); y=x; y->n=9; CHECK(x->n==9 && y.refCount()==2 && x.refCount()==2,"polyref-shared","");
        CHECK(x.cast<Circle>().n==9 && typeid(*x)==typeid(Circle),"polyref-cast",""); bool t=false; try {x.cast<Square>();} catch (std::bad_cast&) {t=true;} CHECK(t,"polyref-badcast","");
        ref<P> rx, ry; gen(r,*rx); pack_t p; p<<rx; p>>ry; CHECK(str(*rx)==str(*ry),"ref-of-poly",str(*rx)+" got "+str(*ry)); CHECK(!*rx || &**rx!=&**ry,"ref-of-poly-shared","");
      }
      { // weak pointers: the stream is consumed, a live target gets the contents
        classdesc::shared_ptr<Plain> s1(new Plain), s2(new Plain); vgen(r,s1->a); vgen(r,s1->b); s2->a=3; bool n1=r.coin(3), n2=r.coin(3);
        classdesc::weak_ptr<Plain> w1, w2; if (!n1) w1=s1; if (!n2) w2=s2; pack_t p; p<<w1<<11; int z=0; p>>w2>>z;
        CHECK(z==11 && p.pos()==p.size(),"weak-following-item",""); if (!n1 && !n2) CHECK(s2->a==s1->a && s2->b==s1->b,"weak-contents","");
        if (n1 && !n2) CHECK(s2->a==3,"weak-null-changed-target",""); report().count("weak");
      }
    }
  std::vector<Shape*>& tt=SimpleTypeTable<Shape>::data; // prototypes, owned by no-one
  for (size_t i=0; i<tt.size(); ++i) delete tt[i];
  tt.clear();
  report().done(); return 0;
}
