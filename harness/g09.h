struct Shape: public classdesc::Object<Shape> {int n; std::string s; Shape(int n=0): n(n) {}};
struct Circle: public classdesc::Object<Circle,Shape> {double r; std::vector<int> v; Circle(int n=0): classdesc::Object<Circle,Shape>(), r(0) {this->n=n;} Circle(int a, double b): r(b) {n=a;}};
struct Square: public classdesc::Object<Square,Shape> {classdesc::poly<Shape> inner; int k; Square(): k(0) {}};
struct Plain {int a; std::string b; Plain(): a(0) {}};
