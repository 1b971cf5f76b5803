// threads working on independent polymorphic objects
using namespace classdesc;
const unsigned ncls=NCLS;
static void pgen(Rng& r, SP& x) {polyBudget=30; allowNullInContainers=false; gen_item(r,x);}
static void pgen(Rng& r, std::vector<SP>& x) {polyBudget=30; allowNullInContainers=false; gen_handles(r,x);}
template <class T> void jpack(uint64_t seed, TLog& log)
{
  Rng r(seed); r.nonfinite=false; r.long32=true; T x, y; pgen(r,x); log.add(str(x));
  pack_t b; b<<x; b>>y; log.add(str(y)); xdr_pack xb; T z; xb<<x; xb>>z; log.add(str(z));
}
static void jclone(uint64_t seed, TLog& log)
{
  Rng r(seed); r.nonfinite=false; SP x; pgen(r,x); if (!x) return;
  SP y(dynamic_cast<Base*>(x->clone())); log.add(str(y)); log.add(typeid(*y).name());
}
#ifndef STYLE_OBJECT
static void jcreate(uint64_t seed, TLog& log)
{
  Rng r(seed); unsigned i=r.below(NCLS); SP p(Base::create(key(i))); log.add(typeid(*p).name()); std::unique_ptr<Base> q(fact().create(key(i))); log.add(typeid(*q).name());
}
template <class T> void jxml(uint64_t seed, TLog& log)
{
  Rng r(seed); r.nonfinite=false; r.strMode=1; T x, y; pgen(r,x);
  std::ostringstream os; os.precision(18); {xml_pack_t p(os); p.prettyPrint=r.coin(); ::xml_pack(p,"root",x);} log.add(os.str());
  std::istringstream is(os.str()); xml_unpack_t u(is); ::xml_unpack(u,"root",y); log.add(str(y));
}
#endif
int main(int, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned n=atoi(argv[2]);
#ifdef STYLE_OBJECT
  for (unsigned i=0; i<NCLS; ++i) {std::unique_ptr<Base> b(mk(i)); b->type();}  // types are registered before the threads start
#else
  registerRest();
#endif
  std::vector<std::pair<const char*,TJob> > jobs;
#define J(N,F) jobs.push_back(std::make_pair(N,F))
  J("pack handle",&jpack<SP>); J("pack handles",&jpack<std::vector<SP> >); J("clone",&jclone);
#ifndef STYLE_OBJECT
  J("create",&jcreate); J("xml handle",&jxml<SP>); J("xml handles",&jxml<std::vector<SP> >);
#endif
  runThreads("poly",jobs,8,n,seed);
  report().done(); return 0;
}
