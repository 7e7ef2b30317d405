#include "podio/podioVersion.h"
#include "demo.h"
template <unsigned long V>
void check(unsigned a, unsigned b, unsigned c) {
  constexpr auto v = podio::version::decode_version(V);
  CHECK(v.major == a && v.minor == b && v.patch == c, "decoded version");
}
int main() {
  check<PODIO_VERSION(1, 2, 3)>(1, 2, 3);
  check<PODIO_VERSION(65535, 65535, 65535)>(65535, 65535, 65535);
  check<PODIO_VERSION(7, 256, 255)>(7, 256, 255);
  check<PODIO_VERSION(0, 511, 0)>(0, 511, 0);
}
