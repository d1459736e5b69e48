// Deterministic simulator core: seeded choices, cooperative scheduling of real
// threads (one runs at a time), simulated disk, clock and entropy.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ------------------------------------------------------- workload choices
// Every workload / fault decision of a run is one of these.  In a search run
// they come from the run's PRNG and are recorded; in a replay they are read
// back.  `lo` is the simplest value (the shrinker pulls towards it).
int64_t pick(int64_t lo, int64_t hi, const char* label);
bool chance(int num, int den, const char* label);  // false is the simple value

// ------------------------------------------------------------- reporting
[[noreturn]] void violation(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char* kind, uint64_t n = 1);  // a fault of this kind fired
void probe(const char* name, uint64_t n = 1);  // a rare condition was reached
bool known(const char* key);  // this failure is an open finding of known_findings.txt (and counts as reached)
void note_state(uint64_t h);                   // adds to the run's state hash
void describe(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------- scheduling
uint64_t steps();
uint64_t event_seq();  // strictly increasing stamp of scheduler events
void yield_point();
int live_tasks();      // tasks created and not finished (main included)
void step_cap(uint64_t n);
// The n-th (0: next) thread started from now on cannot be created (EAGAIN);
// -1: all can.  Returns what is left of an earlier setting (-1: it was used).
int fail_thread(int n);
void quiet_schedule(bool on);  // true: no preemption/spurious wakeups (for
                               // reference executions); false: search again

// Calls a program's main in this process; an exit() in it ends only the call.
int call_main(int (*f)(int, char**), int argc, char** argv);

// Allocation accounting (library and harness allocations, simulator excluded)
void leak_baseline();
size_t leaked_blocks();
std::string leaked_sites();
size_t peak_bytes();  // most memory in use at once since the baseline
// What freshly allocated memory contains from now on (-1: the default), so
// that a value read before it was written differs between two executions.
void fill_byte(int b);

// ------------------------------------------------------------- disk
namespace fs {
struct Fault {
  int64_t read_error_at = -1;   // reading the byte at this offset fails (EIO)
  bool read_error_sticky = true;
  int64_t max_read = 0;         // cap every read() at this many bytes (short)
  int64_t enospc_at = -1;       // the file cannot grow beyond this size
  int64_t write_error_at = -1;  // writing the byte at this offset fails (EIO)
  bool write_error_once = false;
  int64_t max_write = 0;        // cap every write() at this many bytes (short)
  bool close_error = false;     // close() reports EIO, buffered tail is lost
  int open_errno = 0;           // open fails with this errno
  bool no_seek = false;         // cannot be positioned (a pipe)
  bool rename_error = false;    // nothing can be renamed to this path
};
void put(const std::string& path, const std::string& data);
bool exists(const std::string& path);
std::string get(const std::string& path);
void remove(const std::string& path);
void set_fault(const std::string& path, const Fault& f);
void clear_faults();
std::vector<std::string> list();
int open_handles();
void stdio_buffer(int n);  // buffer size of streams opened from now on, 0: the usual one
uint64_t ops();  // disk operations so far
// crash: keep an image of the disk as it is when the n-th byte (counted from
// now over all files) has been written; bytes after it never reach the disk.
void crash_after(int64_t bytes);
bool crash_taken();
void restart_from_crash();  // the disk becomes the image
uint64_t bytes_written();
uint64_t hard_errors();        // I/O errors returned to the program so far
void disk_capacity(int64_t n); // of the whole disk; -1: unlimited
int64_t disk_used();
}  // namespace fs

// ------------------------------------------------------------- scenarios
typedef void (*ScenarioFn)();
struct Scenario {
  const char* prop;
  ScenarioFn fn;
  int quick_runs;
};
void register_scenario(const char* prop, ScenarioFn fn, int quick_runs);
struct Reg {
  Reg(const char* p, ScenarioFn f, int n) { register_scenario(p, f, n); }
};

extern bool g_verbose;
}  // namespace sim
