#include <string>
#include <vector>
#include <map>
#ifdef _CLASSDESC
#pragma omit pack Probe
#pragma omit unpack Probe
#pragma graphnode GNode
#pragma graphnode gns::ANode
#pragma graphnode VNode
#pragma graphnode HetA
#pragma graphnode HetB
#pragma treenode TNode
#endif
/// payload that counts visits, and fails on request
struct Probe
{
  int v;
};
struct GNode
{
  int id;
  GNode *l, *r;
  Probe p;
  std::string s;
  GNode *arr[3];
  double d;
  GNode(): id(-1), l(0), r(0), d(0) {arr[0]=arr[1]=arr[2]=0; p.v=0;}
};
namespace gns
{
  struct Base {Probe p; int id;};
  // no constructor: pointers are indeterminate until unpacked
  struct ANode: public Base
  {
    struct Links {ANode *l, *r;} links;
    std::string s;
    ANode *arr[2][2];
  };
}
// handled via ptr_flag only
struct PNode
{
  PNode *l, *r;
  Probe p;
  int id;
  std::string s;
  PNode *arr[2];
};
struct TNode
{
  Probe p; int id; std::string s;
  TNode *l, *r, *arr[2];
};
extern int rlive;
struct RNode
{
  Probe p; int id; std::string s;
  classdesc::ref<RNode> l, r, arr[2];
  RNode(): id(-1) {p.v=0; ++rlive;}
  RNode(const RNode& x): p(x.p), id(x.id), s(x.s), l(x.l), r(x.r) {arr[0]=x.arr[0]; arr[1]=x.arr[1]; ++rlive;}
  ~RNode() {--rlive; id=-77;}
};
// links held in containers
struct VNode
{
  Probe p; int id; std::string s;
  std::vector<VNode*> v;
  std::map<int,VNode*> m;
};
struct HetB;
struct HetA {Probe p; int id; std::string s; HetB *l, *r;};
struct HetB {Probe p; int id; std::string s; HetA *l, *r;};
