// B04: parameter definitions, schedules, parameter blocks and gains per tick.
#include "blocks.h"
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) {
    Ev("begin").f("i", i); (void)Sched(true);
    Defs(R->P(40) ? R->In(0, 2) : R->In(0, 9)); Block(R->P(85) ? R->In(0, 2) : R->In(0, 9)); Ticks(); Again();
  }
}
