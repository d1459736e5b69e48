// The same queue as compiled without USE_PTHREAD (std::mutex and friends),
// renamed so that both variants fit into one program.
#undef USE_PTHREAD
#define sol sol_std
#include "queue_body.inc"
void c05_std() { c05_body("std"); }
