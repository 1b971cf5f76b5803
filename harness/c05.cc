// XDR encoding model (RFC 4506) for xdr_pack.
#include "classdesc_access.h"
#include <iostream>
#include "pack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include "ops.h"
using namespace classdesc; using std::string; using std::vector;

static string trace;
static void note(const char* f, long a=0, long b=0) {char s[96]; snprintf(s,96,f,a,b); trace+=s; trace+=' '; if (trace.size()>4000) trace.erase(0,2000);}
// ---- independent encoder/decoder
static string be(uint64_t v, int n) {string r; for (int i=n-1;i>=0;--i) r+=char(v>>(8*i)); return r;}
static uint64_t unbe(const string& s, size_t p, int n) {uint64_t v=0; for (int i=0;i<n;++i) v=v<<8|(unsigned char)s[p+i]; return v;}
template <class T> string enc(const T& x) {return be(uint64_t(int64_t(x)),4);}
template <> string enc(const long long& x) {return be(x,8);}
template <> string enc(const unsigned long long& x) {return be(x,8);}
template <> string enc(const float& x) {uint32_t i; memcpy(&i,&x,4); return be(i,4);}
template <> string enc(const double& x) {uint64_t i; memcpy(&i,&x,8); return be(i,8);}
static string encRaw(const string& s) {string r=s; while (r.size()%4) r+='\0'; return r;}
static string encStr(const string& s) {return be(s.size(),8)+encRaw(s);}
template <class T> int width() {return 4;}
template <> int width<long long>() {return 8;} template <> int width<unsigned long long>() {return 8;} template <> int width<double>() {return 8;}
template <class T> T dec(const string& s, size_t p) {return T(int32_t(unbe(s,p,4)));}
template <> long long dec<long long>(const string& s, size_t p) {return unbe(s,p,8);}
template <> unsigned long long dec<unsigned long long>(const string& s, size_t p) {return unbe(s,p,8);}
template <> float dec<float>(const string& s, size_t p) {uint32_t i=unbe(s,p,4); float x; memcpy(&x,&i,4); return x;}
template <> double dec<double>(const string& s, size_t p) {uint64_t i=unbe(s,p,8); double x; memcpy(&x,&i,8); return x;}
template <class T> void fit(T&) {}
template <> void fit(long& x) {x=int(x);}             // long is a 32 bit XDR item: see the knownLong probe
template <> void fit(unsigned long& x) {x=unsigned(x);}

struct Model {string d; size_t pos; Model(): pos(0) {}};
struct Buf {xdr_pack* b; Model m; explicit Buf(Rng* r=0): b(r&&r->coin(4)? new xdr_pack(r->below(3000)): new xdr_pack) {} ~Buf() {delete b;}
private: Buf(const Buf&); void operator=(const Buf&);};

static void agree(Buf& x, const char* what)
{
  report().count("states");
  size_t n=x.m.d.size();
  bool ok=x.b->size()==n && x.b->pos()==x.m.pos && bool(*x.b)==(x.m.pos<n) && (n==0 || memcmp(x.b->data(),x.m.d.data(),n)==0);
  char s[200]; snprintf(s,200,"size %lu, expected %lu; pos %lu, expected %lu after ",(unsigned long)x.b->size(),(unsigned long)n,(unsigned long)x.b->pos(),(unsigned long)x.m.pos);
  CHECK(ok,string("state:")+what,s+trace);
}
template <class T> void put(Rng& r, Buf& x)
{
  T v=T(); Ops<T>::gen(r,v); fit(v);
  *x.b<<v; x.m.d+=enc(v); report().count("primitives_encoded");
}
template <class T> void get(Rng& r, Buf& x)
{
  T v=T(); bool thrown=false; unsigned w=width<T>();
  bool can=x.m.pos<=x.m.d.size() && x.m.d.size()-x.m.pos>=w;
  try {*x.b>>v;} catch (const pack_error&) {thrown=true;}
  CHECK(thrown==!can,can? "spurious-exception": "read-past-end","typed read: "+trace);
  if (can) {
    T e=dec<T>(x.m.d,x.m.pos);
    CHECK(memcmp(&e,&v,sizeof(T))==0,"decoded-value",trace); x.m.pos+=w; report().count("primitives_decoded");
  }
}
template <class T> void roundTrip(Rng& r, const char* nm)
{
  for (int k=0; k<400; ++k)
    {
      T x=T(),y=T(); Ops<T>::gen(r,x); fit(x); Ops<T>::gen(r,y);
      xdr_pack b; b<<x; b>>y;
      CHECK(Ops<T>::same(x,y),string("round-trip:")+nm,vstr(x)+" became "+vstr(y));
      CHECK(string(b.data(),b.size())==enc(x),string("encoding:")+nm,vstr(x));
      report().distinct(nm+vstr(x));
    }
}

static void history(Rng& r, unsigned steps)
{
  const unsigned N=3; Buf b0(&r),b1(&r),b2; Buf* x[N]={&b0,&b1,&b2}; trace.clear();
  for (unsigned i=0; i<N; ++i) agree(*x[i],"construct");
  for (unsigned s=0; s<steps; ++s)
    {
      unsigned i=r.below(N), j=r.below(N); Buf& b=*x[i]; const char* what="";
      switch (r.below(17))
        {
        case 0: case 1: {what="packraw"; unsigned n=r.coin(4)? r.below(5000): r.below(40);
          string v; for (unsigned k=0;k<n;++k) v+=char(r.next());
          note("b%ld.packraw(%ld)",i,n); b.b->packraw(v.data(),n); b.m.d+=encRaw(v); break;}
        case 2: {what="unpackraw"; size_t avail=b.m.pos<b.m.d.size()? b.m.d.size()-b.m.pos: 0;
          size_t n=r.coin(5)? avail+1+r.below(20): r.below(avail+1);
          if (r.coin(12)) n=size_t(-1)-r.below(40);
          note("b%ld.unpackraw(%ld)",i,n); vector<char> t(n<100000? n+4: 4); bool thrown=false;
          try {b.b->unpackraw(&t[0],n);} catch (const pack_error&) {thrown=true;}
          bool behind=b.m.pos>b.m.d.size();
          CHECK(thrown==(n>avail)||(behind&&n==0),n>avail? "read-past-end": "spurious-exception",trace);
          if (!thrown && n<=avail) {CHECK(memcmp(&t[0],b.m.d.data()+b.m.pos,n)==0,"raw-value",trace); b.m.pos+=(n+3)/4*4; report().count("raw_bytes",n);}
          break;}
        case 3: case 4: case 5: what="put"; note("b%ld<<prim",i);
          switch (r.below(13)) {case 0: put<char>(r,b); break; case 1: put<short>(r,b); break; case 2: put<int>(r,b); break; case 3: put<long>(r,b); break;
            case 4: put<double>(r,b); break; case 5: put<bool>(r,b); break; case 6: put<float>(r,b); break; case 7: put<unsigned char>(r,b); break;
            case 8: put<unsigned>(r,b); break; case 9: put<long long>(r,b); break; case 10: put<unsigned short>(r,b); break; case 11: put<signed char>(r,b); break; default: put<unsigned long long>(r,b);}
          break;
        case 6: case 7: what="get"; note("b%ld>>prim",i);
          switch (r.below(5)) {case 0: get<int>(r,b); break; case 1: get<unsigned>(r,b); break; case 2: get<double>(r,b); break; case 3: get<long long>(r,b); break; default: get<float>(r,b);}
          break;
        case 8: {what="object"; note("b%ld<<objects",i);
          string v; Ops<string>::gen(r,v); if (r.coin(4)) v.append(r.below(4000),'q');
          vector<int> w; Ops<vector<int> >::gen(r,w); if (r.coin(6)) w.resize(500+r.below(900),7);
          size_t was=b.m.d.size();
          *b.b<<v<<w; b.m.d+=encStr(v)+be(w.size(),8); for (size_t k=0;k<w.size();++k) b.m.d+=enc(w[k]);
          if (r.coin()) {
            b.b->seeko(long(was)-long(b.m.pos)); string v1; vector<int> w1; *b.b>>v1>>w1; b.m.pos=b.m.d.size();
            CHECK(v1==v&&w1==w,"object-value",trace);}
          break;}
        case 9: what="reseto"; note("b%ld.reseto",i); b.b->reseto(); b.m.pos=0; break;
        case 10: what="reseti"; note("b%ld.reseti",i); b.b->reseti(); b.b->reseto(); b.m.d.clear(); b.m.pos=0; break;
        case 11: {what="seeki"; unsigned k=r.below(b.m.d.size()/4+1)*4; if (r.coin()) k=std::min<size_t>(b.m.d.size(),4*r.below(4));
          note("b%ld.seeki(-%ld)",i,k); b.b->seeki(-long(k)); b.m.d.resize(b.m.d.size()-k);
          if (b.m.pos>b.m.d.size()) {int q; bool t=false; try {*b.b>>q;} catch (const pack_error&) {t=true;} CHECK(t,"read-past-end",trace);
            b.b->seeko(long(b.m.d.size())-long(b.m.pos)); b.m.pos=b.m.d.size();}
          break;}
        case 12: {what="seeko"; long to=4*r.below(b.m.d.size()/4+(r.coin(6)? 6: 1)); note("b%ld.seeko(%ld)",i,to-long(b.m.pos)); b.b->seeko(to-long(b.m.pos)); b.m.pos=to; break;}
        case 13: what="clear"; if (r.coin(3)) {note("b%ld.clear",i); b.b->clear(); b.m=Model();} break;
        case 14: what="swap"; note("swap b%ld b%ld",i,j); if (r.coin()) b.b->swap(*x[j]->b); else {pack_t& p=*b.b; p.swap(*x[j]->b);} if (i!=j) std::swap(b.m,x[j]->m); break;
        case 15: {what="resize"; size_t was=b.m.d.size(), n=was+4*r.below(700); if (r.coin(4)) n=r.below(n/4+1)*4;
          note("b%ld.resize(%ld)",i,n); b.b->resize(n); b.m.d.resize(n,'\0'); for (size_t k=was; k<n; ++k) b.b->data()[k]=b.m.d[k]=char(k*5); break;}
        default:
#if __cplusplus>=201103L
          if (i!=j && r.coin()) {what="move-assign"; note("b%ld=move(b%ld)",i,j); *b.b=std::move(*x[j]->b); b.m=x[j]->m; x[j]->m=Model(); x[j]->b->clear(); x[j]->b->reseti(); x[j]->b->reseto();}
          else {what="move-construct"; note("b%ld moved",i); xdr_pack* n=new xdr_pack(std::move(*b.b));
            b.b->clear(); b.b->reseti(); b.b->reseto(); int q=42,z=0; *b.b<<q; *b.b>>z; CHECK(z==42,"moved-from-unusable",trace); delete b.b; b.b=n;}
#endif
          break;
        }
      agree(b,what); if (i!=j) agree(*x[j],what);
      report().count(string("op_")+what);
    }
  for (unsigned k=0; k<N; ++k) {report().distinct(x[k]->m.d); if (x[k]->m.d.size()>1024) report().count("buffers_over_1024");}
}

int main(int argc, char** argv)
{
  uint64_t seed=strtoull(argv[1],0,10); unsigned iters=atoi(argv[2]), from=atoi(argv[3]);
  if (from==0) {
    report().progress("prims|0");
    Rng r(seed);
    roundTrip<bool>(r,"bool"); roundTrip<char>(r,"char"); roundTrip<signed char>(r,"schar"); roundTrip<unsigned char>(r,"uchar"); roundTrip<short>(r,"short");
    roundTrip<unsigned short>(r,"ushort"); roundTrip<int>(r,"int"); roundTrip<unsigned>(r,"unsigned"); roundTrip<long>(r,"long32"); roundTrip<unsigned long>(r,"ulong32");
    roundTrip<long long>(r,"longlong"); roundTrip<unsigned long long>(r,"ulonglong"); roundTrip<float>(r,"float"); roundTrip<double>(r,"double"); roundTrip<wchar_t>(r,"wchar");
    // values of long that do not fit the 32 bits that XDR gives a long
    const long bad[]={0x100000000L,0x7fffffffffffffffL,-0x100000000L,0x80000000L};
    for (int i=0; i<4; ++i) {xdr_pack b; long y=0; bool t=false; try {b<<bad[i]; b>>y;} catch (const pack_error&) {t=true;}
      CHECK(t||y==bad[i],"long-beyond-32-bits",vstr(bad[i])+" became "+vstr(y));}
    // long double is not an XDR type: refused, never mangled
    {xdr_pack b; long double z=1.5L; bool t=false; try {b<<z;} catch (const pack_error&) {t=true;} CHECK(t,"long-double-accepted","");}
  }
  for (unsigned i=from; i<iters; ++i)
    {
      char p[64]; snprintf(p,64,"history|%u",i+1); report().progress(p);
      Rng r(seed*10007+i); r.maxLen=6; history(r,10+r.below(80));
      if (i<3) report().sample(trace.substr(0,500));
      report().count("histories");
    }
  report().done(); return 0;
}
