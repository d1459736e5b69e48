#include "queue_body.inc"
void c05_std();
static void c05() {
  if (sim::chance(1, 3, "std_build"))
    c05_std();
  else
    c05_body("pthread");
}
static sim::Reg r05("C05", c05, 40000);
