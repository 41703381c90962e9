// B03: the bytes of descriptors, written and read.
#include "descrbytes.h"
int main(int argc, char** argv) {
  Init(argc, argv); g_log = false;
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) { Ev("begin").f("i", i); if (R->P(20)) Seq(); Codec(); Element(); Mix(); }
}
