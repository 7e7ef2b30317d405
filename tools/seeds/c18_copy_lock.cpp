#include "demo.h"
#include <thread>
int main() {
  podio::GenericParameters p;
  std::thread t([&] {
    for (int i = 0; i < 300; ++i) {
      p.set("s" + std::to_string(i), std::string("value"));
      p.set("i" + std::to_string(i), i);
      p.set("d" + std::to_string(i), 1.0 * i);
      p.set("f" + std::to_string(i), 1.0f * i);
    }
  });
  for (int i = 0; i < 100; ++i) {
    podio::GenericParameters q(p);
    for (auto& k : q.getKeys<std::string>())
      CHECK(q.get<std::string>(k) == "value", "copied value");
  }
  t.join();
}
