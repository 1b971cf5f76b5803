const unsigned ncls=NCLS;
using namespace classdesc;
static void gen(Rng& r, SP& x) {polyBudget=60; gen_handle(r,x);}
static void gen(Rng& r, std::vector<SP>& x) {polyBudget=60; gen_handles(r,x);}
static void gen(Rng& r, std::list<SP>& x) {polyBudget=60; gen_hlist(r,x);}
static void gen(Rng& r, std::map<int,SP>& x) {polyBudget=60; gen_hmap(r,x);}

template <class T> void binary(const char* nm, Rng& r)
{
  T x; gen(r,x); std::string want=str(x); report().distinct(want); if (r.coin(200)) report().sample(want);
  pack_t b; b<<x<<17;
  CHECK(str(x)==want,std::string("pack-changed-source:")+nm,want);
  for (int k=0; k<3; ++k) {
    T y; if (k) gen(r,y); T alias=y; std::string old=str(alias); int z=0;
    b.reseto(); b>>y>>z;
    CHECK(str(y)==want,std::string(k? "used-handle:": "fresh-handle:")+nm,"packed "+want+" into "+old+" got "+str(y));
    CHECK(z==17 && b.pos()==b.size(),std::string("following-item:")+nm,want);
    report().count("binary");
  }
  xdr_pack xb; xb<<x<<17; T y; gen(r,y); int z=0; xb>>y>>z;
  CHECK(str(y)==want && z==17,std::string("xdr:")+nm,want+" got "+str(y));
}
static void aliasing(Rng& r)
{ // the object the receiver held before is not overwritten through other handles
  SP x; do gen(r,x); while (!x); SP y; gen(r,y); SP keep=y; std::string old=str(keep), want=str(x);
  pack_t b; b<<x; b>>y;
  CHECK(str(y)==want,"alias-value","into "+old+" want "+want);
#ifndef STYLE_OBJECT
  CHECK(str(keep)==old && (!y || y.get()!=keep.get()),"previous-object-changed",old+" became "+str(keep)+" after reading "+want);
#endif
  CHECK(!y || y.get()!=x.get(),"not-a-copy",want);
}
#ifndef STYLE_OBJECT
template <class T> void xml(const char* nm, Rng& r)
{
  T x; gen(r,x); std::string want=str(x); report().distinct(want);
  for (int pretty=0; pretty<2; ++pretty) {
    std::ostringstream os; os.precision(18);
    {xml_pack_t p(os); p.prettyPrint=pretty; ::xml_pack(p,"root",x);}
    CHECK(str(x)==want,std::string("xml-changed-source:")+nm,want);
    for (int k=0; k<2; ++k) {
      T y; if (k) gen(r,y); std::string old=str(y);
      std::istringstream is(os.str()); xml_unpack_t u(is); ::xml_unpack(u,"root",y);
      CHECK(str(y)==want,std::string(k? "xml-used:": "xml-fresh:")+nm,"wrote "+want+" into "+old+" got "+str(y)+" from "+os.str());
      report().count("xml");
    }
  }
}
static void factory_(Rng& r)
{
  for (unsigned i=0; i<NCLS; ++i) {
    Base* b=fact().create(key(i));
    CHECK(typeid(*b)==ti(i),"factory-type",keyText(i)); CHECK(b->type()==key(i),"type-key",keyText(i)); delete b;
    SP p(Base::create(key(i))); CHECK(typeid(*p)==ti(i),"create-type",keyText(i));
    report().count("factory");
  }
  bool t=false; Base* b=0; Key bk=badKey(r); try {b=fact().create(bk);} catch (std::exception& e) {t=*e.what()!=0;} CHECK(t && !b,"unknown-key-accepted",vstr(int(0)));
  delete b;
}
#endif
static void cloning(Rng& r)
{
  SP x; do gen(r,x); while (!x); std::string want=str(x);
#ifdef STYLE_OBJECT
  SP y(x->clone());
#else
  SP y(dynamic_cast<Base*>(x->clone()));
#endif
  CHECK(str(y)==want && typeid(*y)==typeid(*x) && y.get()!=x.get(),"clone",want+" got "+str(y));
#ifndef STYLE_OBJECT
  SP z(x->template cloneT<Base>()); CHECK(z && str(z)==want && typeid(*z)==typeid(*x) && z.get()!=x.get(),"cloneT",want);
#endif
  polyBudget=60; genDyn(r,*y); CHECK(str(x)==want,"clone-shares",want+" became "+str(x));
  report().count("clones");
}
#if __cplusplus>=201103L && !defined(STYLE_OBJECT)
static void uniq(Rng& r)
{
  SP x; gen(r,x); std::string want=str(x); std::unique_ptr<Base> u; if (x) u.reset(x->cloneT<Base>());
  pack_t b; b<<u<<5; SP old; gen(r,old); std::unique_ptr<Base> v; if (old) v.reset(old->cloneT<Base>()); int z=0; b>>v>>z;
  SP got(v.release()); CHECK(str(got)==want && z==5,"unique_ptr",want+" got "+str(got)); report().count("unique");
  std::ostringstream os; os.precision(18); {xml_pack_t p(os); ::xml_pack(p,"root",u);} std::istringstream is(os.str()); xml_unpack_t xu(is);
  std::unique_ptr<Base> w; if (old) w.reset(old->cloneT<Base>()); ::xml_unpack(xu,"root",w); SP g2(w.release()); CHECK(str(g2)==want,"xml-unique_ptr",want+" got "+str(g2)+" from "+os.str());
}
#endif
#ifdef STYLE_OBJECT
static void hostile(Rng& r)
{ // type ids which were never registered
  pack_t b; int id=r.coin()? int(r.next()): r.coin()? -1-int(r.below(3)): int(NCLS+100+r.below(100)); if (id==0) id=-1;
  b<<id; for (int i=0; i<20; ++i) b<<double(i);
  SP x; bool t=false; try {b>>x;} catch (std::exception&) {t=true;}
  CHECK(t,"unknown-type-id",vstr(id)); report().count("hostile");
}
#endif
int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]);
#ifndef STYLE_OBJECT
  {Rng r(1); bool t=false; Base* b=0; try {b=fact().create(key(0));} catch (std::exception&) {t=true;} CHECK(t,"unregistered-key-accepted",""); delete b;}
  registerRest();
  if (CHECK_TYPES(fact())) {}
#endif
  for (unsigned it=from; it<iters; ++it)
    {
      char pr[40]; snprintf(pr,40,"poly|%u",it); report().progress(pr);
      Rng r(seed*65537+it); r.nonfinite=false; r.long32=true; allowNullInContainers=true;
      binary<SP>("handle",r); binary<std::vector<SP> >("vector",r); binary<std::list<SP> >("list",r); binary<std::map<int,SP> >("map",r);
      aliasing(r); cloning(r);
#ifdef STYLE_OBJECT
      hostile(r);
#else
      factory_(r);
      r.strMode=2;
      xml<SP>("handle",r); xml<std::vector<SP> >("vector",r); xml<std::list<SP> >("list",r); xml<std::map<int,SP> >("map",r);
#if __cplusplus>=201103L
      uniq(r);
#endif
      if (it%10==0) {
        std::vector<SP> v(3), w; v[0].reset(mk(0)); v[2].reset(mk(1)); std::ostringstream os; {xml_pack_t p(os); ::xml_pack(p,"root",v);} std::istringstream is(os.str()); xml_unpack_t u(is); ::xml_unpack(u,"root",w);
        CHECK(w.size()==3 && w[0] && !w[1] && w[2],"xml-null-in-container","wrote ["+str(v)+"] got "+str(w)+" from "+os.str());
      }
#endif
    }
  report().done(); return 0;
}
