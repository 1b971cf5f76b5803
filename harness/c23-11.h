#include <memory>
struct Owner: public Owner0
{
  std::unique_ptr<Inner> up; std::shared_ptr<Inner> sp; std::shared_ptr<int> si; std::unique_ptr<Col> uc;
};
