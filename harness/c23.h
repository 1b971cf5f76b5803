#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
struct Inner {int a; std::string s; double d[3];};
enum Col {red, green=5, blue=-2};
struct Base {short b; Col c; };
struct Hand: public Base
{
  int i; unsigned u; char ch; bool t; float f; long double ld; unsigned char uc; long long ll;
  Col col, cols[4]; int arr[2][3]; Inner in, ins[2]; int cube[2][2][2]; char text[6]; bool flags[9];
  std::map<int,int> m; std::map<std::string,Inner> ms; std::set<int> s; std::multimap<int,Col> mm; std::set<std::string> ss; std::multiset<long> mu;
  std::vector<Inner> v; std::vector<std::vector<int> > vv; std::list<Col> lc; std::pair<int,std::string> p; std::vector<std::pair<int,double> > vp;
  const int k; int *ptr; static int st; 
  Hand(): k(77), ptr(&st) {}
};
struct Owner0 {Inner* raw; int n; Owner0(): raw(0) {}};
