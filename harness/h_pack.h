// Round-trip oracle for the binary serialiser.
#ifndef H_PACK_H
#define H_PACK_H
#include "ops.h"

template <class B> std::string bytesOf(const B& b, size_t from=0) {return std::string(b.data()+from, b.size()-from);}

struct ItemBase
{
  virtual ~ItemBase() {}
  virtual void put(classdesc::pack_t&)=0;
  virtual bool get(classdesc::pack_t&)=0;    // into a dirty object, compare
  virtual bool skip(classdesc::pack_t&)=0;   // onto a const object
  virtual std::string str()=0;
};
template <class T> struct Holder {T v; Holder(): v() {}};
template <class T, bool C> struct ConstSkip {static void get(classdesc::pack_t& b, const T& c) {b>>c;}};
template <class T> struct ConstSkip<T,false> {static void get(classdesc::pack_t& b, const T& c) {Holder<T> h; b>>h.v;}};
template <class T, bool C> struct Item: public ItemBase
{
  Holder<T> x; Rng r;
  Item(Rng& q): r(q) {r.s=q.next(); Ops<T>::gen(r,x.v);}
  void put(classdesc::pack_t& b) {b<<x.v;}
  bool get(classdesc::pack_t& b) {Holder<T> y; Ops<T>::gen(r,y.v); b>>y.v; return Ops<T>::same(x.v,y.v);}
  bool skip(classdesc::pack_t& b) {Holder<T> y; Ops<T>::gen(r,y.v); std::string before=vstr(y.v); const T& c=y.v; ConstSkip<T,C>::get(b,c); return vstr(y.v)==before;}
  std::string str() {return vstr(x.v);}
};
typedef ItemBase* (*ItemMaker)(Rng&);
inline std::vector<ItemMaker>& makers() {static std::vector<ItemMaker> m; return m;}
template <class T, bool C> ItemBase* makeItem(Rng& r) {return new Item<T,C>(r);}

// detBytes: false for types with long double, whose padding bytes are unspecified
template <class T, bool C> void packType(const char* name, bool detBytes, uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it)
    {
      char pr[64]; snprintf(pr,64,"|%u",it);
      report().progress(std::string(name)+pr);
      Rng r(seed*1000003+it); r.maxLen=it%7==6? 40: 4;
      Holder<T> x; Ops<T>::gen(r,x.v);
      std::string want=vstr(x.v), where=std::string(name)+pr+" ";
      report().distinct(want); if (it==1) report().sample(want);
      classdesc::pack_t b; b<<x.v;
      CHECK(vstr(x.v)==want,"pack-changed-source",where+want);
      classdesc::pack_t b2; b2<<x.v;
      CHECK(!detBytes || bytesOf(b)==bytesOf(b2),"nondeterministic-bytes",where+want);
      {
        Holder<T> y; b>>y.v;
        CHECK(Ops<T>::same(x.v,y.v),"fresh-target",where+"packed "+want+" got "+vstr(y.v));
        CHECK(vstr(y.v)==want,"fresh-target-text",where+"packed "+want+" got "+vstr(y.v));
        CHECK(b.pos()==b.size(),"fresh-bytes-left",where);
        report().count("fresh");
      }
      for (int k=0; k<2; ++k)
        {
          Holder<T> y; r.budget=250; Ops<T>::gen(r,y.v); std::string old=vstr(y.v);
          b2.reseto(); b2>>y.v;
          CHECK(Ops<T>::same(x.v,y.v),"used-target",where+"packed "+want+" into "+old+" got "+vstr(y.v));
          CHECK(b2.pos()==b2.size(),"used-bytes-left",where);
          report().count("used");
        }
      {
        Holder<T> y; r.budget=250; Ops<T>::gen(r,y.v); std::string old=vstr(y.v); const T& c=y.v;
        b2.reseto(); ConstSkip<T,C>::get(b2,c);
        CHECK(vstr(y.v)==old,"const-target-changed",where+old+" became "+vstr(y.v));
        CHECK(b2.pos()==b2.size(),"const-skip-bytes",where+want);
        report().count(C? "const": "const_na");
      }
      { // direct ::pack / ::unpack entry points
        classdesc::pack_t b3; ::pack(b3,"",x.v); CHECK(b3.size()==b.size() && (!detBytes || bytesOf(b3)==bytesOf(b)),"entry-point-bytes",where);
        Holder<T> y; ::unpack(b3,"nm",y.v); CHECK(Ops<T>::same(x.v,y.v),"entry-point",where+want+" got "+vstr(y.v));
      }
    }
}

inline void sequences(uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it)
    {
      char pr[64]; snprintf(pr,64,"sequence|%u",it); report().progress(pr);
      Rng r(seed*7919+it); unsigned n=1+r.below(12);
      std::vector<ItemBase*> v; std::vector<size_t> off;
      classdesc::pack_t b; off.push_back(0);
      for (unsigned i=0; i<n; ++i) {v.push_back(makers()[r.below(makers().size())](r)); v[i]->put(b); off.push_back(b.size());}
      bool ok=true;
      for (unsigned i=0; i<n && ok; ++i)
        {
          bool sk=r.coin(4);
          ok = sk? v[i]->skip(b): v[i]->get(b);
          CHECK(ok,sk? "sequence-const": "sequence-value",std::string(pr)+" item "+v[i]->str());
          CHECK(b.pos()==off[i+1],"sequence-boundary",std::string(pr)+" item "+v[i]->str());
          report().count("sequence_items");
        }
      for (unsigned i=0; i<n; ++i) delete v[i];
    }
}
#endif
