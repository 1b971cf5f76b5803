#include <vector>
struct Obj
{
  int val;
  classdesc::ref<Obj> c[2];
  std::vector<classdesc::ref<Obj> > kids;
  Obj(int v=0);
  Obj(const Obj&);
  Obj& operator=(const Obj& x) {val=x.val; c[0]=x.c[0]; c[1]=x.c[1]; kids=x.kids; return *this;}
  ~Obj();
  bool operator==(const Obj& x) const {return val==x.val;}
};
struct Node
{
  int val; Node *l, *r;
  Node();
  ~Node();
};
