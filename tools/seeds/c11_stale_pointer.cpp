#include "podio/UserDataCollection.h"
#include "demo.h"
int main() {
  podio::UserDataCollection<double> a;
  a.push_back(1.5);
  a.push_back(-2.5);
  a.prepareForWrite();
  CHECK(a.getBuffers().dataAsVector<double>()->size() == 2, "buffers");
  podio::UserDataCollection<double> b(std::move(a));
  b.push_back(3.5);
  b.prepareForWrite();
  auto* v = b.getBuffers().dataAsVector<double>();
  CHECK(v->size() == 3 && (*v)[0] == 1.5 && (*v)[1] == -2.5 && (*v)[2] == 3.5, "buffers of the moved collection");
}
