#include "CellCollection.h"
#include "demo.h"
#include <atomic>
#include <optional>
#include <thread>
int main() {
  constexpr int N = 400000;
  std::atomic<int> turn{0}, done{0};
  std::optional<MutableCell> h1, h2;
  std::thread t([&] {
    for (int i = 1; i <= N; ++i) {
      while (turn.load() < i)
        ;
      h2.reset();
      done.fetch_add(1);
    }
  });
  for (int i = 1; i <= N; ++i) {
    h1.emplace(1ull * i, 2.0);
    h2.emplace(*h1);
    turn.store(i);
    h1.reset();
    while (done.load() < i)
      ;
  }
  t.join();
}
