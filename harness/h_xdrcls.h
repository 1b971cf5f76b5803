// Whole objects through XDR buffers.
#ifndef H_XDRCLS_H
#define H_XDRCLS_H
template <class T> void xdrType(const char* name, uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*7103+it); r.long32=true; char pr[80]; snprintf(pr,80,"%s|%u",name,it); report().progress(pr);
    static T x, y; Ops<T>::gen(r,x); Ops<T>::gen(r,y); const T& cx=x; std::string w=vstr(x);
    classdesc::xdr_pack a, b; a<<cx; b<<x; std::string sa(a.data()? a.data(): "",a.size()), sb(b.data()? b.data(): "",b.size());
    CHECK(sa==sb,"const-differs",std::string(name)+" "+w);
    CHECK(sa.size()%4==0,"not-in-units",std::string(name)+" "+w);
    int tail=it; a<<tail;
    try {int t=-1; a>>y; a>>t; CHECK(t==tail && a.pos()==a.size(),"boundary",std::string(name)+" "+w); CHECK(Ops<T>::same(x,y),"class-value",std::string(name)+" "+w+" became "+vstr(y));}
    catch (const std::exception& e) {CHECK(false,"class-exception",std::string(name)+" "+w+": "+e.what());}
    CHECK(vstr(x)==w,"source-changed",w); report().count("objects"); report().distinct(w);
  }
}
#endif
