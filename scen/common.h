// Shared by the scenarios: sample generation, the file formats as the harness
// writes and reads them (independent of the library's readers and writers),
// and a consumer that iterates with the public API.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <sol/sol.h>
#include <sol/tools.h>

#include "../sim/sim.h"

namespace h {
using sim::pick;
using sim::chance;
using sim::violation;

struct Sample {
  int label = 0;
  std::vector<std::pair<uint32_t, float>> f;
  bool exact = false;  // from a source that keeps the bits of the values
};
typedef std::vector<Sample> Data;

// ------------------------------------------------------------ generation
struct GenOpt {
  int min_n = 0, max_n = 24;
  int classes = 2;
  int max_dim = 30;
  bool allow_long = true;   // occasionally very long rows
  bool allow_empty_rows = true;
  bool wide = false;      // large indexes (sparse formats only)
  bool any_label = false; // labels beyond the class numbers
  bool rich_values = false;  // many magnitudes, not only half-integers
  bool zeros = false;        // features of value zero (sparse formats only)
  bool many = false;         // now and then some hundred samples
  bool full = false;         // values with a full mantissa among the rich ones
  bool mass = false;         // very rarely ten thousands of small samples
  bool huge = false;         // now and then a line of up to some 100 kB
};
Data gen_data(const GenOpt& o);
// batch size and number of buffers: small ones mostly
void gen_shape(int max_size, int max_num, int* bs, int* bn);
bool same(const Sample& a, const Sample& b, float tol = 1e-5f);
std::string str(const Sample& s);

// ------------------------------------------------------------ formats
enum Fmt { SVM = 0, CSV = 1, BIN = 2, NPY = 3, CSR = 4 };
extern const char* fmt_name[5];
// text styles (svm, csv): how the same samples may be written
enum Style { PLUS = 1, SPACES = 2, CRLF = 4, FIXED = 8, UNSORTED = 16, LEAD = 32, AROUND = 64, PAD = 128, SCI = 256 };
std::string encode(const Data& d, Fmt f, bool final_newline = true, int style = 0);
// byte offset at which each sample's record ends
std::string encode_offsets(const Data& d, Fmt f, std::vector<size_t>* ends,
                           bool final_newline = true, int style = 0);
bool decode(const std::string& bytes, Fmt f, Data* out);  // false: malformed

// In-memory arrays for the numpy / csr sources (kept alive by the holder).
struct ArraySource {
  std::vector<double> X, Y, feats;
  std::vector<int> indices, indptr;
  int rows = 0, cols = 0;
  std::shared_ptr<void> far;
};
// A loadable source: a simulated file or an array.
struct Source {
  Fmt fmt = SVM;
  Data data;
  std::string path;   // what AddReader gets
  int passes = 1;
  bool unlabelled = false;
  std::shared_ptr<ArraySource> arr;
};
// unlabelled: arrays may come without labels (s.data then has label 0)
Source make_source(const Data& d, Fmt f, const std::string& name, bool unlabelled = false);
const char* type_of(Fmt f);
// through the C API
int load_source(void* iter, const Source& s);

// Standard input comes from, or standard output goes to, a simulated file.
// sometimes the streams opened from now on have small buffers
void stream_buffers();
struct Redirect {
  FILE *in = nullptr, *out = nullptr;
  void from(const std::string& path);
  void to(const std::string& path);
  ~Redirect();
};

Sample copy_sample(const sol::pario::DataPoint& p);

// Expected stream for a list of sources
Data expected(const std::vector<Source>& src);

// Iterate to the end, recycling batches; returns everything delivered.
struct IterOpt {
  bool check_isolation = false;  // re-read each batch before returning it
  int max_hold = 1;
};
Data drain(sol::pario::DataIter& it, int batch_size, int* calls = nullptr);

void compare(const Data& got, const Data& want, const char* cls, const char* what);

uint64_t fnv_data(const Data& d);
}  // namespace h
