// What a dump has to show of a value, in order (shares nothing with classdesc).
#ifndef H_DUMP_H
#define H_DUMP_H
#include "ops.h"
typedef std::vector<std::string> Toks;
template <class T> struct DFund {enum {v=0};};
#define DF(T) template <> struct DFund<T > {enum {v=1};};
DF(bool) DF(char) DF(signed char) DF(unsigned char) DF(short) DF(unsigned short) DF(int) DF(unsigned) DF(long) DF(unsigned long) DF(long long) DF(unsigned long long) DF(float) DF(double) DF(long double)
template <class T> std::string dtext(const T& x) {std::ostringstream o; o.precision(18); o<<x; return o.str();}
inline std::string didx(const std::string& n, size_t i) {char b[24]; snprintf(b,24,"[%lu]",(unsigned long)i); return n+b;}
template <class T, class E=void> struct DExp {static void go(Toks& o, const std::string& n, const T& x) {o.push_back(n+":{"); Ops<T>::dtoks(o,x);}};
template <class T> struct DLeaf {static void go(Toks& o, const std::string& n, const T& x) {o.push_back(n+":"+dtext(x)+"\n");}};
#define DL(T) template <> struct DExp<T >: public DLeaf<T > {};
DL(bool) DL(char) DL(signed char) DL(unsigned char) DL(short) DL(unsigned short) DL(int) DL(unsigned) DL(long) DL(unsigned long) DL(long long) DL(unsigned long long) DL(float) DL(double) DL(long double) DL(std::string)
template <class T> struct DEnum {static void go(Toks& o, const std::string& n, const T& x) {o.push_back(n+":"+Ops<T>::key(x)+"\n");}};
template <class C, bool fund> struct DCont {   // fundamental items: one line
  static void go(Toks& o, const std::string& n, const C& x) {std::string s=n+":"; for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) s+=" "+dtext(*i); o.push_back(s+"\n");}
};
template <class C> struct DCont<C,false> {
  static void go(Toks& o, const std::string& n, const C& x) {
    typedef typename NonConst<typename C::value_type>::t V;
    o.push_back(n+":\n"); size_t k=0; for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i,++k) {V v(*i); DExp<V>::go(o,didx(n,k),v);}
  }
};
template <class C> struct DSeq: public DCont<C,DFund<typename C::value_type>::v> {};
template <class T,class A> struct DExp<std::vector<T,A> >: public DSeq<std::vector<T,A> > {};
template <class T,class A> struct DExp<std::deque<T,A> >: public DSeq<std::deque<T,A> > {};
template <class T,class A> struct DExp<std::list<T,A> >: public DSeq<std::list<T,A> > {};
template <class T,class C,class A> struct DExp<std::set<T,C,A> >: public DSeq<std::set<T,C,A> > {};
template <class T,class C,class A> struct DExp<std::multiset<T,C,A> >: public DSeq<std::multiset<T,C,A> > {};
template <class K,class V,class C,class A> struct DExp<std::map<K,V,C,A> >: public DSeq<std::map<K,V,C,A> > {};
template <class K,class V,class C,class A> struct DExp<std::multimap<K,V,C,A> >: public DSeq<std::multimap<K,V,C,A> > {};
#if __cplusplus>=201103L
template <class... A> struct DExp<std::unordered_set<A...> >: public DSeq<std::unordered_set<A...> > {};
template <class... A> struct DExp<std::unordered_map<A...> >: public DSeq<std::unordered_map<A...> > {};
template <class... A> struct DExp<std::unordered_multimap<A...> >: public DSeq<std::unordered_multimap<A...> > {};
template <class T, size_t N> struct DExp<std::array<T,N> >: public DSeq<std::array<T,N> > {};
#endif
// pairs: the key, then the value; the pair's own name appears somewhere on the way
template <class A, bool fa, class B, bool fb> struct DPair {static void go(Toks& o, const std::string& n, const std::pair<A,B>& x) {o.push_back("["+dtext(x.first)+"]="+dtext(x.second));}};
template <class A, class B> struct DPair<A,true,B,false> {static void go(Toks& o, const std::string& n, const std::pair<A,B>& x) {o.push_back("["+dtext(x.first)+"]="); DExp<B>::go(o,n,x.second);}};
template <class A, class B, bool fb> struct DPair<A,false,B,fb> {static void go(Toks& o, const std::string& n, const std::pair<A,B>& x) {Toks k; DExp<A>::go(k,"]=",x.first); for (size_t i=0; i<k.size(); ++i) {size_t p=k[i].find("]="); if (p==0 && k[i].size()>3) o.push_back(k[i].substr(2)); else if (p!=0) o.push_back(k[i]);} DExp<B>::go(o,n,x.second);}};
template <class A,class B> struct DExp<std::pair<A,B> >: public DPair<A,DFund<A>::v,B,DFund<B>::v> {};
template <class T, size_t N> struct DFlat {static void go(std::vector<const T*>& o, const T (&x)[N]) {for (size_t i=0; i<N; ++i) o.push_back(&x[i]);}};
template <class T> struct Elem {typedef T t;};
template <class T, size_t N> struct Elem<T[N]> {typedef typename Elem<T>::t t;};
template <class T, size_t M, size_t N> struct DFlat<T[M],N> {static void go(std::vector<const typename Elem<T>::t*>& o, const T (&x)[N][M]) {for (size_t i=0; i<N; ++i) DFlat<T,M>::go(o,x[i]);}};
template <class T, size_t N> struct DExp<T[N]> {
  static void go(Toks& o, const std::string& n, const T (&x)[N]) {
    typedef typename Elem<T>::t V; std::vector<const V*> v; DFlat<T,N>::go(v,x);
    if (DFund<V>::v) {std::string s=n+":"; for (size_t i=0; i<v.size(); ++i) s+=" "+text(*v[i]); o.push_back(s+"\n");}
    else {o.push_back(n+":\n"); for (size_t i=0; i<v.size(); ++i) DExp<V>::go(o,didx(n,i),*v[i]);}
  }
  template <class V> static std::string text(const V& v) {return Txt<V,DFund<V>::v>::s(v);}
  template <class V, bool f> struct Txt {static std::string s(const V& v) {return dtext(v);}};
  template <class V> struct Txt<V,false> {static std::string s(const V&) {return "";}};
};
template <class T> struct DExp<VSHARED<T> > {static void go(Toks& o, const std::string& n, const VSHARED<T>& x) {if (x.get()) {const T& v=*x; DExp<T>::go(o,n,v);} else o.push_back(n+":null\n");}};

inline std::string squeeze(const std::string& s) {std::string r; for (size_t i=0; i<s.size(); ++i) if (s[i]!=' ' || r.empty() || r[r.size()-1]!=' ') r+=s[i]; return r;}
// the first token not found in order, or ""
inline std::string unseen(const std::string& text, const Toks& want)
{
  std::string t=squeeze(text), prev; size_t p=0;
  for (size_t i=0; i<want.size(); ++i) {
    std::string w=squeeze(want[i]); size_t q=t.find(w,p);
    while (q!=std::string::npos && q && w[0]!=':' && w[0]!='[' && (isalnum((unsigned char)t[q-1])||t[q-1]=='_')) q=t.find(w,q+1);
    if (q==std::string::npos) return want[i]+" (after "+prev+")";
    prev=want[i]; p=q+w.size()-(w[w.size()-1]=='\n');
  }
  return "";
}
template <class T> void dumpType(const char* name, uint64_t seed, unsigned iters)
{
  for (unsigned it=0; it<iters; ++it) {
    Rng r(seed*100003+it); r.strMode=2; r.maxLen=4; r.budget=80; r.nonfinite=it%3==0;
    char pr[80]; snprintf(pr,80,"%s|%u",name,it); report().progress(pr);
    static T x; Ops<T>::gen(r,x); const T& cx=x; std::string before=vstr(x);
    std::ostringstream o1, o2, o3; static const char* ds[]={"",".x","obj",".a.b"}; std::string d=ds[r.below(4)];
    {classdesc::dump_t t(o1); t.precision(18); classdesc::dump(t,d,cx);}
    {classdesc::dump_t t(o2); t.precision(18); classdesc::dump(t,d,x);}
    CHECK(o1.str()==o2.str(),"not-deterministic",o1.str());
    classdesc::dump(o3,d,cx); std::ostringstream o4; {classdesc::dump_t t(o4); classdesc::dump(t,d,cx);} CHECK(o3.str()==o4.str(),"streams-differ",o3.str());
    CHECK(vstr(x)==before,"changed-object",before+" became "+vstr(x));
    Toks w; Ops<T>::dtoks(w,cx);
    std::string bad=unseen(o1.str(),w);
    CHECK(bad=="","not-shown",std::string(name)+" "+before+": expected "+bad+" in\n"+o1.str());
    report().count("objects"); report().count("items_looked_for",w.size()); report().distinct(before); if (it==0) report().sample(o1.str());
  }
}
#endif
