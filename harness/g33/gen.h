#include <string>
#include <vector>
#include <map>
#ifdef _CLASSDESC
#pragma graphnode GN
#pragma graphnode GM
#pragma treenode TN
#endif
enum Col {red, green=5, blue};
enum class Lvl {low, mid=7, high};
struct GN {int id; std::string s; Col c; GN *l, *r, *a[2]; GN(): id(0), c(red), l(0), r(0) {a[0]=a[1]=0;}};
struct GM {int id; std::vector<GM*> v; GM(): id(0) {}};
struct TN {int id; std::string s; TN *l, *r; TN(): id(0), l(0), r(0) {}};
struct RN {int id; classdesc::ref<RN> l, r; RN(): id(0) {}};
struct Plain {int a; double b; Lvl l; std::vector<std::string> v; Plain(): a(0), b(0), l(Lvl::low) {}};
