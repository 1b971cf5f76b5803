// Hostile bytes for the binary unpackers.
#ifndef H_HOSTILE_H
#define H_HOSTILE_H
#include "h_pack.h"
inline std::string mutate(Rng& r, std::string s)
{
  static const unsigned long long nasty[]={0,1,2,3,255,256,0x7fffffffULL,0x80000000ULL,0xffffffffULL,0x100000000ULL,0x7fffffffffffffffULL,0x8000000000000000ULL,~0ULL,~0ULL-7,
    0x2000000000000000ULL,0x4000000000000001ULL,0x1fffffffffffffffULL,0x10000000000ULL,5000000ULL};
  unsigned k=1+r.below(3);
  for (unsigned q=0; q<k; ++q)
    switch (r.below(8)) {
    case 0: s.resize(r.below(s.size()+1)); break;
    case 1: for (unsigned i=1+r.below(4); i && !s.empty(); --i) s[r.below(s.size())]^=char(1u<<r.below(8)); break;
    case 2: case 3: if (s.size()>=8) {unsigned long long v=nasty[r.below(sizeof(nasty)/sizeof(*nasty))]; size_t p=r.below(s.size()-7); if (r.coin()) p&=~size_t(7);
        if (r.coin(3)) for (int i=0;i<8;++i) s[p+i]=char(v>>(56-8*i)); else memcpy(&s[p],&v,8);} break;
    case 4: s.insert(r.below(s.size()+1),std::string(1+r.below(9),char(r.next()))); break;
    case 5: if (!s.empty()) s.erase(r.below(s.size()),1+r.below(9)); break;
    case 6: if (!s.empty()) s[r.below(s.size())]=char(r.next()); break;
    default: if (r.coin(4)) {s.clear(); for (unsigned n=r.below(60); n; --n) s+=char(r.coin()? r.next(): r.below(3));}
    }
  return s;
}
template <class T, class B> void hostileOne(Rng& r, const std::string& where, bool file)
{
  Holder<T> x; r.budget=60; r.long32=true; Ops<T>::gen(r,x.v);
  B good; try {good<<x.v;} catch (const classdesc::pack_error&) {return;} // long double under XDR
  std::string valid(good.data()? good.data(): "",good.size());
  std::string bytes=mutate(r,valid);
  report().distinct(bytes);
  Holder<T> y; if (r.coin()) {r.budget=60; Ops<T>::gen(r,y.v);}
  bool thrown=false; size_t pos=0;
  report().progress(where+"|"+Report::esc(bytes.substr(0,500)));
  if (file) {
    FILE* h=fopen("c04.dat","wb"); fwrite(bytes.data(),1,bytes.size(),h); fclose(h);
    B b("c04.dat","r");
    try {b>>y.v;} catch (const std::exception& e) {thrown=true;}
    report().count(thrown? "rejected": "accepted");
    try {b.reseto(); b>>y.v;} catch (const std::exception&) {}   // the buffer is still usable
  } else {
    // the bytes live in an exactly sized heap block, so that any overrun is seen
    B b; b.resize(bytes.size()); if (!bytes.empty()) memcpy(b.data(),bytes.data(),bytes.size());
    try {b>>y.v; pos=b.pos();} catch (const std::exception& e) {thrown=true; pos=b.pos();}
    CHECK(pos<=bytes.size(),"position-beyond-data",where);
    CHECK(b.size()==bytes.size() && (bytes.empty() || memcmp(b.data(),bytes.data(),bytes.size())==0),"input-modified",where);
    report().count(thrown? "rejected": "accepted");
    if (r.coin(3)) {  // skipping it must be just as safe
      b.reseto(); Holder<T> z; try {b>>z.v;} catch (const std::exception&) {}
    }
  }
  // whatever came out can be serialised, reused for a good object, and destroyed
  {classdesc::pack_t again; again<<y.v;}
  if (r.coin()) {
    good.reseto(); good>>y.v;
    CHECK(Ops<T>::same(x.v,y.v),"target-unusable-afterwards",where+"|"+vstr(x.v)+" vs "+vstr(y.v));
  }
}
template <class T> void hostileType(const char* name, uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it) {
    char p[96]; snprintf(p,96,"%s|%u",name,it);
    Rng r(seed*1000003+it);
    switch (r.below(8)) {
    case 0: hostileOne<T,classdesc::pack_t>(r,p,true); break;
    case 1: hostileOne<T,classdesc::xdr_pack>(r,p,true); break;
    case 2: case 3: hostileOne<T,classdesc::xdr_pack>(r,p,false); break;
    default: hostileOne<T,classdesc::pack_t>(r,p,false);
    }
    report().count("hostile_inputs");
  }
}
#endif
