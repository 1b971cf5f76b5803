#ifndef G13_H
#define G13_H
#include <list>
#include <vector>
#include <map>
#include <string>
namespace g13
{
  struct Rec {int n; std::list<Rec> kids; classdesc::shared_ptr<Rec> p; Rec(): n(0) {}};
  struct Big {std::vector<int> v; std::list<std::string> s; std::string t; std::map<int,std::string> m; std::vector<Rec> kids; int n; Big(): n(0) {}};
}
#endif
