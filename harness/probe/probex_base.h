// A second descriptor, of which only the presence is observed
#ifndef PROBEX_BASE_H
#define PROBEX_BASE_H
namespace classdesc {struct probex_t {};}
namespace classdesc_access {template <class T> struct access_probex {typedef int undescribed; template <class U> void operator()(classdesc::probex_t&, const classdesc::string&, U&) {}};}
namespace classdesc {
  template <class A> void probex(probex_t&, const string&, const A&) {}
  template <class A, class B> void probex(probex_t&, const string&, A, B) {}
  template <class A, class B, class C, class D> void probex(probex_t&, const string&, A, B, C, D...) {}
  template <class A> void probex_onbase(probex_t&, const string&, A&) {}
  template <class C, class B, class M> void probex_type(probex_t&, const string&, M) {}
  template <class C, class B, class M> void probex_type(probex_t&, const string&, is_constructor, M) {}
  template <class C, class B, class M> void probex_type(probex_t&, const string&, is_const_static, M) {}
  template <class C, class B> void probex(probex_t&, const string&) {}
}
using classdesc::probex; using classdesc::probex_onbase;
#endif
