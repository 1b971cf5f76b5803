// MultiArray views of every rank against flat index arithmetic.
#include <cstddef>
#include <cstring>
#include <iterator>
#include "classdesc.h"
#include "multiArray.h"
#include "ops.h"
#include "classdesc_epilogue.h"
using namespace classdesc;
struct Box {int v; std::string s; Box(int v=0): v(v), s(v%7,'x') {} bool operator==(const Box& b) const {return v==b.v && s==b.s;} };
template <class T> T val(int i) {return T(i);}
template <> bool val<bool>(int i) {return i%3==0;}
template <> std::string val<std::string>(int i) {char b[24]; snprintf(b,24,"v%d",i); return b;}

std::string where;
template <class T, int R> MultiArray<T,R> make(T* p, const size_t* d, int how);
#define A(i) d[i]
template <class T, int R> struct Mk;
template <class T> struct Mk<T,1> {static MultiArray<T,1> go(T* p, const size_t* d) {return MultiArray<T,1>(p,A(0));}};
template <class T> struct Mk<T,2> {static MultiArray<T,2> go(T* p, const size_t* d) {return MultiArray<T,2>(p,A(0),A(1));}};
template <class T> struct Mk<T,3> {static MultiArray<T,3> go(T* p, const size_t* d) {return MultiArray<T,3>(p,int(A(0)),A(1),unsigned(A(2)));}};
template <class T> struct Mk<T,4> {static MultiArray<T,4> go(T* p, const size_t* d) {return MultiArray<T,4>(p,A(0),A(1),A(2),A(3));}};
template <class T> struct Mk<T,5> {static MultiArray<T,5> go(T* p, const size_t* d) {return MultiArray<T,5>(p,A(0),A(1),A(2),A(3),A(4));}};

// walks a view; base = flat index its first element must have
template <class T, int R> struct Walk {
  static size_t ext(const size_t* d) {size_t n=1; for (int i=0; i<R; ++i) n*=d[i]; return n;}
  static void go(MultiArray<T,R>& a, const MultiArray<T,R>& ca, T* p, size_t base, const size_t* d, std::vector<unsigned>& seen, Rng& r)
  {
    size_t sub=Walk<T,R-1>::ext(d), n=d[R-1];
    CHECK(a.size()==n && ca.size()==n,"size",where);
    CHECK(a.stride()==sub,"stride",where);
    MultiArray<T,R> copy(a); CHECK(copy.same(a) && a.same(copy) && copy.size()==n && copy.stride()==a.stride(),"copy",where);
    MultiArray<T,R> as(p,d); as=a; CHECK(as.same(a) && as.size()==n,"assign",where);
    typename MultiArray<T,R>::iterator it=a.begin(); typename MultiArray<T,R>::const_iterator ci=ca.begin();
    CHECK((it!=a.end())==(n*sub>0) || sub==0,"empty-range",where);
    for (size_t i=0; i<n; ++i) {
      MultiArray<T,R-1> s=a[i]; const MultiArray<T,R-1> cs=ca[i];
      CHECK(s.same(cs) && s.same(copy[i]) && cs.same(const_cast<const MultiArray<T,R>&>(copy)[i]),"sub-view",where);
      if (sub) {
        CHECK(it!=a.end() && ci!=ca.end(),"iteration-short",where);
        CHECK((*it).same(s) && (*ci).same(s) && (*it).size()==s.size(),"iterator-element",where);
        Walk<T,R-1>::go(*it,*ci,p,base+i*sub,d,seen,r);
        Walk<T,R-1>::go(s,cs,p,base+i*sub,d,seen,r);
        typename MultiArray<T,R>::iterator j=a.begin(); j+=i; CHECK(j==it && (*j).same(s),"advance",where);
        if (i) {typename MultiArray<T,R>::iterator k=it; --k; CHECK((*k).same(a[i-1]),"decrement",where); typename MultiArray<T,R>::iterator o=k++; CHECK(k==it && (*o).same(a[i-1]),"post-increment",where); o=k--; CHECK(o==it && k!=it,"post-decrement",where);}
        if (i&1) {it++; ci++;} else {++it; ++ci;}
      }
    }
    if (sub) {CHECK(it==a.end() && ci==ca.end(),"iteration-long",where);
      size_t c=0; for (auto& s: a) {CHECK(s.same(a[c]),"range-for",where); ++c;} CHECK(c==n,"range-for-count",where);
      c=0; for (auto& s: ca) {CHECK(s.same(a[c]),"range-for",where); ++c;} CHECK(c==n,"range-for-count",where);}
  }
};
template <class T> struct Walk<T,1> {
  static size_t ext(const size_t* d) {return d[0];}
  static void go(MultiArray<T,1>& a, const MultiArray<T,1>& ca, T* p, size_t base, const size_t* d, std::vector<unsigned>& seen, Rng&)
  {
    CHECK(a.size()==d[0] && ca.size()==d[0] && a.end()-a.begin()==std::ptrdiff_t(d[0]) && ca.end()-ca.begin()==std::ptrdiff_t(d[0]),"size",where);
    for (size_t i=0; i<d[0]; ++i) {
      CHECK(&a[i]==p+base+i && &ca[i]==&a[i] && a.begin()+i==&a[i] && ca.begin()+i==&a[i],"element-address",where);
      CHECK(a[i]==val<T>(int(base+i)) && ca[i]==a[i],"element-value",where);
      if (size_t(&a[i]-p)<seen.size()) ++seen[&a[i]-p];
    }
    report().count("elements",d[0]);
  }
};
template <class T, int R> struct At {static T& go(MultiArray<T,R> a, const size_t* ix) {return At<T,R-1>::go(a[ix[R-1]],ix);} };
template <class T> struct At<T,1> {static T& go(MultiArray<T,1> a, const size_t* ix) {return a[ix[0]];} };

template <class T, int R> void one(const char* tn, Rng& r)
{
  size_t d[R], n=1; std::ostringstream w; w<<tn<<" rank "<<R<<" [";
  for (int i=0; i<R; ++i) {d[i]=r.below(8)==0? (r.coin()? 0: 1): 1+r.below(R>3? 3: 5); n*=d[i]; w<<d[i]<<' ';}
  where=w.str()+"]"; report().progress(where.c_str());
  T* p=new T[n+2]; p[0]=val<T>(1000001); p[n+1]=val<T>(1000003); // ASan sees beyond these
  T* q=p+1;
  for (int how=0; how<2; ++how) {
    MultiArray<T,R> a=how? MultiArray<T,R>(q,d): Mk<T,R>::go(q,d);
    size_t dd[R]; memcpy(dd,d,sizeof d); if (how && r.coin()) {MultiArray<T,R> b(q,(const size_t*)dd); a=b;}
    for (size_t i=0; i<n; ++i) q[i]=val<T>(int(i));
    std::vector<unsigned> seen(n);
    const MultiArray<T,R> ca(a);
    Walk<T,R>::go(a,ca,q,0,d,seen,r);
    for (size_t i=0; i<n; ++i) CHECK(seen[i]==1u<<(R-1),"visits",where);
    // writes go to one element only
    for (int k=0; n && k<20; ++k) {
      size_t ix[R], flat=0, m=1; for (int i=0; i<R; ++i) {ix[i]=r.below(d[i]); flat+=ix[i]*m; m*=d[i];}
      std::vector<T> before(q,q+n); T v=val<T>(int(n+k+7)); At<T,R>::go(a,ix)=v;
      for (size_t i=0; i<n; ++i) {if (i==flat) CHECK(q[i]==v,"write",where); else CHECK(q[i]==T(before[i]),"write-elsewhere",where);}
      q[flat]=before[flat]; report().count("writes");
    }
  }
  CHECK(p[0]==val<T>(1000001) && p[n+1]==val<T>(1000003),"write-outside",where);
  delete [] p; report().distinct(where);
}
template <class T> void all(const char* tn, Rng& r) {one<T,1>(tn,r); one<T,2>(tn,r); one<T,3>(tn,r); one<T,4>(tn,r); one<T,5>(tn,r);}
int main(int argc, char** argv)
{
  Rng r(strtoull(argv[1],0,10)); int n=atoi(argv[2]); (void)argc;
  for (int i=0; i<n; ++i) {all<int>("int",r); all<double>("double",r); all<char>("char",r); all<std::string>("string",r); all<Box>("Box",r); all<bool>("bool",r);}
  report().done(); return 0;
}
