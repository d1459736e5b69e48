// A source that fails while being read, and what must be delivered from it.
#pragma once
#include "common.h"

namespace h {
struct Failing {
  Source src;
  bool load_fails = false;  // the head cannot be read
  int kind = -1;            // 0 read error, 1 a single read error, 2 ends early, 3 cannot be read again
  bool in_record = false;   // ends inside a record
  Data sure;                // delivered in any case, in this order
  bool partial = false;     // a text record cut in the middle may follow
  Sample cut;               // the record that was cut
  bool cut_label = false;   // ... inside its label
};
// what: 0 read error, 1 read error once, 2 file ends early
Failing gen_failing(const Data& d, Fmt f, const std::string& name, int passes);
// is x what the cut text record of f may be read as?
bool cut_record_fits(const Failing& f, const Sample& x);
}  // namespace h
