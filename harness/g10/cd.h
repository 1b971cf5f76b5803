#ifndef G10_CD_H
#define G10_CD_H
#include <vector>
#include <string>
namespace g10
{
  struct Inner {int n; classdesc::CDATA text; Inner(): n(0) {}};
  struct WithCData
  {
    classdesc::CDATA a; std::string b; Inner i; std::vector<Inner> v; classdesc::CDATA z;
  };
  struct Items {std::vector<classdesc::shared_ptr<int> > p; std::list<classdesc::shared_ptr<Inner> > q; int after; Items(): after(0) {}};
}
#endif
