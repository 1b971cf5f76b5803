// Expected element tree of a value, in a canonical form that shares nothing
// with classdesc.  Lines: "(name", "=<kind>:<value>", ")".
#ifndef H_XMLEXP_H
#define H_XMLEXP_H
#include "ops.h"
template <class T, class E=void> struct XName {static std::string s() {return Ops<T>::tname();}};
#define XNAME(T,N) template <> struct XName<T > {static std::string s() {return N;}};
XNAME(bool,"bool") XNAME(char,"char") XNAME(signed char,"char") XNAME(unsigned char,"char") XNAME(short,"short") XNAME(unsigned short,"short")
XNAME(int,"int") XNAME(unsigned,"int") XNAME(long,"long") XNAME(unsigned long,"long") XNAME(long long,"long") XNAME(unsigned long long,"long")
XNAME(float,"float") XNAME(double,"double") XNAME(long double,"double") XNAME(std::string,"string")
#define XNAMET(A,T,N) template <A> struct XName<T > {static std::string s() {return N;}};
#define COMMA ,
XNAMET(class T COMMA class A,std::vector<T COMMA A>,"vector") XNAMET(class T COMMA class A,std::deque<T COMMA A>,"deque") XNAMET(class T COMMA class A,std::list<T COMMA A>,"list")
XNAMET(class T COMMA class C COMMA class A,std::set<T COMMA C COMMA A>,"set") XNAMET(class T COMMA class C COMMA class A,std::multiset<T COMMA C COMMA A>,"multiset")
XNAMET(class K COMMA class T COMMA class C COMMA class A,std::map<K COMMA T COMMA C COMMA A>,"map") XNAMET(class K COMMA class T COMMA class C COMMA class A,std::multimap<K COMMA T COMMA C COMMA A>,"multimap")
XNAMET(class T COMMA class U,std::pair<T COMMA U>,"pair") XNAMET(class T,VSHARED<T>,"shared_ptr")
#if __cplusplus>=201103L
XNAMET(class T,std::unique_ptr<T>,"unique_ptr") XNAMET(class... A,std::unordered_set<A...>,"unordered_set") XNAMET(class... A,std::unordered_multiset<A...>,"unordered_multiset")
XNAMET(class... A,std::unordered_map<A...>,"unordered_map") XNAMET(class... A,std::unordered_multimap<A...>,"unordered_multimap") XNAMET(class T COMMA size_t N,std::array<T COMMA N>,"array")
XNAMET(class... A,std::tuple<A...>,"tuple")
#endif

inline std::string xhex(const std::string& s) {std::string r; for (size_t i=0; i<s.size(); ++i) {char b[4]; snprintf(b,4,"%02x",(unsigned char)s[i]); r+=b;} return r;}
template <class T> std::string xtext(const T& x) {std::ostringstream o; o.precision(18); o<<x; return o.str();}
// XExp<T>::elem(o,name,x): the elements a member/item called name gives rise to; kids: the contents
template <class T> struct XElem;
template <class T, class E=void> struct XExp {
  static void kids(std::string& o, const T& x) {Ops<T>::kids(o,x);}
  static void elem(std::string& o, const std::string& n, const T& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";}
};
#define XLEAF(T,EXPR) template <> struct XExp<T > { static void kids(std::string& o, const T& x) {o+=EXPR; o+="\n";} \
  static void elem(std::string& o, const std::string& n, const T& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";} };
XLEAF(bool,(x? "=b:true": "=b:false")) XLEAF(char,"=s:"+xhex(std::string(1,x))) XLEAF(signed char,"=c:"+xhex(std::string(1,x))) XLEAF(unsigned char,"=c:"+xhex(std::string(1,x)))
XLEAF(short,"=i:"+xtext(x)) XLEAF(unsigned short,"=i:"+xtext(x)) XLEAF(int,"=i:"+xtext(x)) XLEAF(unsigned,"=i:"+xtext(x)) XLEAF(long,"=i:"+xtext(x)) XLEAF(unsigned long,"=i:"+xtext(x))
XLEAF(long long,"=i:"+xtext(x)) XLEAF(unsigned long long,"=i:"+xtext(x)) XLEAF(float,"=f:"+xtext(x)) XLEAF(double,"=f:"+xtext(x)) XLEAF(long double,"=f:"+xtext(x)) XLEAF(std::string,"=s:"+xhex(x))
template <class T> struct XEnum {
  static void kids(std::string& o, const T& x) {o+=std::string("=e:")+Ops<T>::key(x)+"\n";}
  static void elem(std::string& o, const std::string& n, const T& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";}
};
template <class C> struct XSeq {
  typedef typename NonConst<typename C::value_type>::t V;
  static void kids(std::string& o, const C& x) {for (typename C::const_iterator i=x.begin(); i!=x.end(); ++i) {V v(*i); XExp<V>::elem(o,XName<V>::s(),v);}}
  static void elem(std::string& o, const std::string& n, const C& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";}
};
template <class T,class A> struct XExp<std::vector<T,A> >: public XSeq<std::vector<T,A> > {};
template <class T,class A> struct XExp<std::deque<T,A> >: public XSeq<std::deque<T,A> > {};
template <class T,class A> struct XExp<std::list<T,A> >: public XSeq<std::list<T,A> > {};
template <class T,class C,class A> struct XExp<std::set<T,C,A> >: public XSeq<std::set<T,C,A> > {};
template <class T,class C,class A> struct XExp<std::multiset<T,C,A> >: public XSeq<std::multiset<T,C,A> > {};
template <class K,class V,class C,class A> struct XExp<std::map<K,V,C,A> >: public XSeq<std::map<K,V,C,A> > {};
template <class K,class V,class C,class A> struct XExp<std::multimap<K,V,C,A> >: public XSeq<std::multimap<K,V,C,A> > {};
#if __cplusplus>=201103L
template <class... A> struct XExp<std::unordered_set<A...> >: public XSeq<std::unordered_set<A...> > {};
template <class... A> struct XExp<std::unordered_multiset<A...> >: public XSeq<std::unordered_multiset<A...> > {};
template <class... A> struct XExp<std::unordered_map<A...> >: public XSeq<std::unordered_map<A...> > {};
template <class... A> struct XExp<std::unordered_multimap<A...> >: public XSeq<std::unordered_multimap<A...> > {};
template <class T, size_t N> struct XExp<std::array<T,N> >: public XSeq<std::array<T,N> > {};
#endif
template <class A,class B> struct XExp<std::pair<A,B> > {
  static void kids(std::string& o, const std::pair<A,B>& x) {XExp<A>::elem(o,"first",x.first); XExp<B>::elem(o,"second",x.second);}
  static void elem(std::string& o, const std::string& n, const std::pair<A,B>& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";}
};
template <class T, size_t N> struct XFlat {static void go(std::string& o, const T (&x)[N]) {for (size_t i=0; i<N; ++i) XExp<T>::elem(o,XName<T>::s(),x[i]);}};
template <class T, size_t M, size_t N> struct XFlat<T[M],N> {static void go(std::string& o, const T (&x)[N][M]) {for (size_t i=0; i<N; ++i) XFlat<T,M>::go(o,x[i]);}};
template <class T,size_t N> struct XExp<T[N]> {
  static void elem(std::string& o, const std::string& n, const T (&x)[N]) {o+="("+n+"\n"; XFlat<T,N>::go(o,x); o+=")\n";}
};
template <class P> struct XPtr {
  typedef typename P::element_type V;
  // an absent pointer gives no element; as an item of a container there is always one
  static void elem(std::string& o, const std::string& n, const P& x) {if (x.get()) {const V& v=*x; XExp<V>::elem(o,n,v);} else o+="?"+n+"\n";}
};
template <class T> struct XExp<VSHARED<T> >: public XPtr<VSHARED<T> > {};
#if __cplusplus>=201103L
template <class T> struct XExp<std::unique_ptr<T> >: public XPtr<std::unique_ptr<T> > {};
template <class... A> struct XExp<std::tuple<A...> > {
  typedef std::tuple<A...> T;
  template <size_t I, class D=void> struct At {static void go(std::string& o, const T& x) {At<I-1>::go(o,x); typedef typename std::tuple_element<I-1,T>::type V; XExp<V>::elem(o,XName<V>::s(),std::get<I-1>(x));}};
  template <class D> struct At<0,D> {static void go(std::string&, const T&) {}};
  static void kids(std::string& o, const T& x) {At<sizeof...(A)>::go(o,x);}
  static void elem(std::string& o, const std::string& n, const T& x) {o+="("+n+"\n"; kids(o,x); o+=")\n";}
};
#endif
#endif
