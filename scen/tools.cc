// C09, C13, C18: the data tools (convert, shuffle, split, analyze).
#include <algorithm>
#include <map>
#include "cli.h"
#include "failing.h"

using namespace h;
namespace fs = sim::fs;

namespace {
enum Tool { CONVERT = 0, SHUFFLE = 1, SPLIT = 2, ANALYZE = 3 };
const char* tool_name[4] = {"convert", "shuffle", "split", "analyze"};

struct Job {
  Tool t = CONVERT;
  Source src;
  Fmt out = SVM;
  bool binarize = false;
  float thresh = 0;
  int folds = 1;
  bool shuffled = false;    // split
  bool default_type = false;  // shuffle without an output type
  std::vector<std::string> outputs;
  bool from_stdin = false, to_stdout = false;  // "-"
  int run() const { return run_to(type_of(out)); }
  int run_to(const char* type) const {
    if (from_stdin || to_stdout) {
      Job j = *this;
      Redirect r;
      if (from_stdin) {
        r.from(j.src.path);
        j.src.path = "-";
      }
      if (to_stdout) {
        r.to(j.outputs[0]);
        j.outputs[0] = "-";
      }
      j.from_stdin = j.to_stdout = false;
      return j.run_to(type);
    }
    if (g_cli) {
      std::vector<std::string> a;
      auto add = [&](const char* opt, const std::string& v) {
        a.push_back(opt);
        a.push_back(v);
      };
      static const char* prog[] = {"converter", "shuffle", "split", "analyze"};
      a.push_back(prog[t]);
      add("-i", src.path);
      add("-s", type_of(src.fmt));
      add("-o", t == SPLIT ? "/simfs/fold" : outputs[0]);
      if (t != ANALYZE && !(t == SHUFFLE && default_type)) add("-d", type);
      if (t == SPLIT) add("-n", std::to_string(folds));
      if (t == SPLIT && shuffled) a.push_back("-r");
      if (binarize) {
        char b[40];
        snprintf(b, sizeof(b), "%.9g", thresh);
        add("-b", b);
      }
      return run_program(a);
    }
    switch (t) {
      case CONVERT:
        return sol::convert(src.path, type_of(src.fmt), outputs[0], type, binarize, thresh);
      case SHUFFLE:
        return sol::shuffle(src.path, type_of(src.fmt), outputs[0], default_type ? "" : type);
      case SPLIT:
        return sol::split(src.path, type_of(src.fmt), folds, "/simfs/fold", type, shuffled);
      case ANALYZE:
        return sol::analyze(src.path, type_of(src.fmt), outputs[0]);
    }
    return -1;
  }
};
// more samples than one batch of the tools' iterator holds
Data gen_tool_data(Fmt in, Fmt out, bool nonempty) {
  GenOpt o;
  o.min_n = nonempty ? 1 : 0;
  o.max_n = 40;
  o.mass = true;
  o.wide = in != CSV && in != NPY && out != CSV;
  o.any_label = true;
  o.rich_values = true;
  if (in >= NPY) o.min_n = 1;  // an array without rows is refused
  if (chance(1, 8, "many")) {
    o.max_dim = 6;
    o.allow_long = false;
    o.wide = false;
    o.min_n = o.max_n = (int)pick(200, 900, "n");
    return gen_data(o);
  }
  return gen_data(o);
}
// analyze keeps a flag per index
void bound_dim(Data* d) {
  for (auto& s : *d)
    for (size_t i = 0; i < s.f.size(); ++i)
      if (s.f[i].first > 100000) {
        s.f.resize(i);
        break;
      }
}
Job gen_job(int tools) {
  Job j;
  j.t = (Tool)pick(0, tools - 1, "tool");
  Fmt in = (Fmt)pick(0, 4, "in_format");
  j.out = (Fmt)pick(0, 2, "out_format");
  if (j.t == SHUFFLE && in <= BIN && chance(1, 3, "default_type")) {
    j.default_type = true;
    j.out = in;
  }
  Data d = gen_tool_data(in, j.t == ANALYZE ? SVM : j.out, j.t == SPLIT);
  if (j.t == ANALYZE) bound_dim(&d);
  j.src = make_source(d, in, "in");
  if (j.t == CONVERT && chance(1, 3, "binarize")) {
    j.binarize = true;
    j.thresh = (float)(pick(0, 8, "thresh") - 4) * 0.5f * (chance(1, 2, "large") ? 20 : 1);
  }
  if (j.t == SPLIT) {
    j.folds = (int)pick(1, 7, "folds");
    j.shuffled = chance(1, 2, "shuffle");
    for (int i = 0; i < j.folds; ++i)
      j.outputs.push_back("/simfs/fold" + std::to_string(i) + "." + type_of(j.out));
  } else {
    j.outputs.push_back(j.t == ANALYZE ? std::string("/simfs/report")
                                       : std::string("/simfs/out.") + type_of(j.out));
  }
  if (fs::exists(j.src.path) && chance(1, 3, "short_reads")) {
    fs::Fault ft;
    ft.max_read = pick(1, 300, "max_read");
    fs::set_fault(j.src.path, ft);
    sim::fault("short_reads");
  }
  if (chance(1, 4, "old_output"))  // left over from an earlier run
    for (auto& p : j.outputs) fs::put(p, std::string((size_t)pick(1, 3000, "old_size"), '7'));
  sim::describe("%s %s[%zu] to %s", tool_name[j.t], type_of(in), d.size(), type_of(j.out));
  if (j.t == SPLIT) sim::describe(" folds=%d%s", j.folds, j.shuffled ? " shuffled" : "");
  if (j.binarize) sim::describe(" binarize>%g", j.thresh);
  return j;
}
// the samples a correct output holds, before reordering
Data wanted(const Job& j) {
  Data d = j.src.data;
  for (auto& s : d)
    for (auto& f : s.f)
      if (j.binarize) f.second = f.second > j.thresh ? 1.f : -1.f;
  return d;
}
bool no_features(const Data& d) {
  for (auto& s : d)
    if (!s.f.empty()) return false;
  return true;
}
float tolerance(const Job& j) {
  if (j.out == BIN && j.src.fmt >= BIN) return 0;      // exact values end to end
  if (j.out == BIN) return 1e-6f;                      // only the parser rounds
  return 6e-6f;                                        // %g prints 6 digits
}
// The generated values have at most six significant digits, so rounding to six
// digits removes what parsing and printing may have changed: a total order.
double key(float v) {
  char b[32];
  snprintf(b, sizeof(b), "%.5e", v);
  return strtod(b, nullptr);
}
bool less(const Sample& a, const Sample& b) {
  if (a.label != b.label) return a.label < b.label;
  if (a.f.size() != b.f.size()) return a.f.size() < b.f.size();
  for (size_t i = 0; i < a.f.size(); ++i)
    if (a.f[i].first != b.f[i].first) return a.f[i].first < b.f[i].first;
  for (size_t i = 0; i < a.f.size(); ++i) {
    if (a.f[i].second == b.f[i].second) continue;
    double x = key(a.f[i].second), y = key(b.f[i].second);
    if (x != y) return x < y;
  }
  return false;
}
// the threshold decides at the precision of the source: a value next to it is
// not looked at (text sources round)
bool near_thresh(float v, float t) { return std::fabs(v - t) <= 1e-6f * std::fabs(t); }

bool same_order(const Data& a, const Data& b, float tol) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i], tol)) return false;
  return true;
}
// Where the samples went: how far an honest shuffle moves them is known well
// enough for many samples (the bounds leave less than 1e-12 to chance).
std::string order_of(const Data& want, const Data& all, float tol) {
  auto id = [](const Sample& s) {
    std::string t = std::to_string(s.label);
    char b[48];
    for (auto& f : s.f) {
      snprintf(b, sizeof(b), " %u:%.5e", f.first, f.second);
      t += b;
    }
    return t;
  };
  std::map<std::string, std::pair<int, size_t>> at;  // times, position
  for (size_t i = 0; i < want.size(); ++i) {
    auto& x = at[id(want[i])];
    ++x.first;
    x.second = i;
  }
  size_t unique = 0, fixed = 0, farthest = 0, follows = 0, prev = (size_t)-2;
  for (size_t i = 0; i < all.size(); ++i) {
    auto it = at.find(id(all[i]));
    if (it == at.end() || it->second.first != 1) {
      prev = (size_t)-2;
      continue;
    }
    size_t from = it->second.second, by = from > i ? from - i : i - from;
    ++unique;
    if (!by) ++fixed;
    if (from == prev + 1) ++follows;
    prev = from;
    farthest = std::max(farthest, by);
  }
  (void)tol;
  char b[200];
  if (unique >= 18 && (fixed > 17 || follows > 17)) {
    snprintf(b, sizeof(b), "%zu of %zu samples are still at their place and %zu still follow their predecessor: not a random order",
             fixed, unique, follows);
    return b;
  }
  if (unique >= 150 && unique * 10 >= want.size() * 9 && farthest * 2 < want.size()) {
    snprintf(b, sizeof(b), "no sample of %zu moved by more than %zu places: not a random order", want.size(), farthest);
    return b;
  }
  return "";
}
// returns an empty string if the outputs hold what they must, else what is wrong
std::string examine(const Job& j) {
  Data want = wanted(j), all;
  char b[400];
  size_t per = (want.size() + j.folds - 1) / j.folds;
  uint32_t dim = 0;
  for (auto& s : want)
    if (!s.f.empty()) dim = std::max(dim, s.f.back().first);
  for (size_t k = 0; k < j.outputs.size(); ++k) {
    if (!fs::exists(j.outputs[k])) return "output " + j.outputs[k] + " is missing";
    Data got;
    std::string bytes = fs::get(j.outputs[k]);
    if (!decode(bytes, j.out, &got)) return "output " + j.outputs[k] + " is malformed or incomplete";
    if (j.out == CSV) {
      size_t cols = std::count(bytes.begin(), bytes.begin() + bytes.find('\n'), ',');
      if (cols != dim) {
        snprintf(b, sizeof(b), "the csv head of %s names %zu features, the data has %u", j.outputs[k].c_str(), cols, dim);
        return b;
      }
      size_t p = bytes.find('\n') + 1;
      while (p < bytes.size()) {
        size_t e = bytes.find('\n', p);
        if ((size_t)std::count(bytes.begin() + p, bytes.begin() + e, ',') != cols) return "csv row with another number of columns than its head";
        p = e + 1;
      }
    }
    if (j.t == SPLIT) {
      size_t from = std::min(want.size(), per * k), to = std::min(want.size(), per * (k + 1));
      if (got.size() != to - from) {
        snprintf(b, sizeof(b), "fold %zu of %d holds %zu samples, expected %zu of %zu", k, j.folds, got.size(), to - from, want.size());
        return b;
      }
    }
    all.insert(all.end(), got.begin(), got.end());
  }
  if (all.size() != want.size()) {
    snprintf(b, sizeof(b), "%zu samples written, the source holds %zu", all.size(), want.size());
    return b;
  }
  bool ordered = j.t == CONVERT || (j.t == SPLIT && !j.shuffled);
  if (!ordered) {
    std::string e = order_of(want, all, tolerance(j));
    if (!e.empty()) return e;
    std::stable_sort(want.begin(), want.end(), less);
    std::stable_sort(all.begin(), all.end(), less);
    sim::note_state(fnv_data(all));
  }
  float tol = tolerance(j);
  if (!ordered && tol == 0) tol = 1e-6f;  // equal keys may be sorted either way
  for (size_t i = 0; i < want.size(); ++i) {
    if (same(all[i], want[i], tol)) continue;
    bool excused = j.binarize && all[i].f.size() == want[i].f.size() && all[i].label == want[i].label;
    for (size_t k = 0; excused && k < want[i].f.size(); ++k)
      if (all[i].f[k] != want[i].f[k])
        excused = all[i].f[k].first == want[i].f[k].first && std::fabs(all[i].f[k].second) == 1 &&
                  near_thresh(j.src.data[i].f[k].second, j.thresh);
    if (excused) continue;
    snprintf(b, sizeof(b), "%s %zu of %zu is [%s], expected [%s]", ordered ? "sample" : "sorted sample", i, want.size(),
             str(all[i]).c_str(), str(want[i]).c_str());
    return b;
  }
  return "";
}

// ---------------------------------------------------------------- C13
// Any sample can end up anywhere: a hundred shuffles of a few samples bring each
// to each place (by chance they fail to with a probability below 1e-9).
void c13_anywhere() {
  int n = (int)pick(2, 4, "n");
  Data d((size_t)n);
  for (int i = 0; i < n; ++i) {
    d[i].label = i + 1;
    d[i].f.push_back({(uint32_t)(i + 1), (float)(i + 1)});
  }
  Source s = make_source(d, (Fmt)pick(0, 2, "in_format"), "in");
  bool split = chance(1, 2, "split");
  int folds = (int)pick(1, n, "folds");
  sim::describe("a hundred times %s of %d samples", split ? "shuffled split" : "shuffle", n);
  sim::quiet_schedule(true);
  std::vector<std::vector<int>> seen(n, std::vector<int>(n, 0));
  for (int k = 0; k < 100; ++k) {
    int r = split ? sol::split(s.path, type_of(s.fmt), folds, "/simfs/fold", "svm", true)
                  : sol::shuffle(s.path, type_of(s.fmt), "/simfs/out", "svm");
    if (r != 0) violation("refused", "shuffling failed with %d although nothing went wrong", r);
    Data all;
    for (int i = 0; i < (split ? folds : 1); ++i) {
      std::string p = split ? "/simfs/fold" + std::to_string(i) + ".svm" : "/simfs/out";
      Data got;
      if (!fs::exists(p) || !decode(fs::get(p), SVM, &got)) violation("not-conserved", "output %s is missing or malformed", p.c_str());
      all.insert(all.end(), got.begin(), got.end());
    }
    if (all.size() != d.size()) violation("not-conserved", "%zu of %zu samples written", all.size(), d.size());
    for (int i = 0; i < n; ++i) {
      int l = all[i].label;
      if (l < 1 || l > n || !same(all[i], d[l - 1])) violation("not-conserved", "an altered sample was written: [%s]", str(all[i]).c_str());
      ++seen[l - 1][i];
    }
  }
  for (int i = 0; i < n; ++i)
    for (int k = 0; k < n; ++k)
      if (!seen[i][k]) violation("not-random", "sample %d of %d never came to place %d in a hundred shuffles", i, n, k);
}
void c13() {
  stream_buffers();
  if (chance(1, 150, "anywhere")) return c13_anywhere();
  Job j = gen_job(3);
  std::string before = j.src.fmt <= BIN ? fs::get(j.src.path) : "";
  if (chance(1, 3, "short_writes"))
    for (auto& p : j.outputs) {
      fs::Fault ft;
      ft.max_write = pick(1, 200, "max_write");
      fs::set_fault(p, ft);
      sim::fault("short_writes");
    }
  if (j.src.fmt <= BIN && chance(1, 10, "from_stdin")) {
    j.from_stdin = true;
    if (!(j.t == CONVERT && j.out == CSV) && chance(1, 2, "pipe")) {  // csv output needs two passes
      fs::Fault ft;
      ft.no_seek = true;
      fs::set_fault(j.src.path, ft);
    }
  }
  if (j.t != SPLIT && !g_cli && chance(1, 10, "to_stdout")) j.to_stdout = true;
  int r = j.run();
  if (j.t == CONVERT && j.out == CSV && no_features(j.src.data)) {
    sim::probe("csv_without_features");
    return;  // refused: csv cannot tell how many columns there are
  }
  if (r != 0) violation("refused", "%s failed with %d although nothing went wrong", tool_name[j.t], r);
  std::string e = examine(j);
  if (!e.empty()) violation("not-conserved", "%s: %s", tool_name[j.t], e.c_str());
  if (j.src.fmt <= BIN && fs::get(j.src.path) != before) violation("source", "%s changed its source", tool_name[j.t]);
  if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
  if (sim::live_tasks() != 1) violation("threads", "%d threads left", sim::live_tasks() - 1);
  // once more from the output: a second conversion is stable
  if (j.t == CONVERT && chance(1, 4, "chain")) {
    Job k;
    k.src.fmt = j.out;
    k.src.path = j.outputs[0];
    k.src.data = wanted(j);
    if (j.binarize)
      decode(fs::get(j.outputs[0]), j.out, &k.src.data);
    k.out = (Fmt)pick(0, 2, "chain_format");
    if (k.out == CSV)
      for (auto& s : k.src.data)
        for (auto& f : s.f)
          if (f.first > 5000) k.out = BIN;
    k.outputs.push_back("/simfs/chain");
    fs::clear_faults();
    if (k.out == CSV && no_features(k.src.data)) return;
    r = k.run();
    if (r != 0) violation("refused", "converting the output again failed with %d", r);
    Data got;
    if (!decode(fs::get("/simfs/chain"), k.out, &got)) violation("not-conserved", "chained conversion is malformed");
    Data w = k.src.data;
    compare(got, w, "not-conserved", "chained conversion");
  }
}
sim::Reg r13("C13", c13, 20000);

// ---------------------------------------------------------------- C09
void c09() {
  stream_buffers();
  bool bad_source = chance(1, 4, "bad_source");
  Job j = gen_job(4);
  if (j.t == CONVERT && j.out == CSV && no_features(j.src.data)) return;
  if (bad_source && j.src.fmt <= BIN) {
    Failing f = gen_failing(j.src.data, j.src.fmt, "failing", 1);
    // a read error is always met; a file that ends early can be told only if
    // it is binary and ends inside a record (or has lost the csv head)
    bool detectable = f.load_fails || f.kind == 0 || f.kind == 1 || (f.kind == 2 && f.src.fmt == BIN && f.in_record);
    j.src.path = f.src.path;
    int r = j.run();
    if (detectable && r == 0)
      violation("unread", "%s reported success although its source could not be read completely", tool_name[j.t]);
    if (detectable) sim::probe("unread_source_reported");
    if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
    return;
  }
  if (chance(1, 20, "no_thread")) {
    sim::fail_thread((int)pick(0, 1, "which_thread"));
    int r = j.run();
    bool met = sim::fail_thread(-1) < 0;
    sim::describe(" without a thread");
    if (met && r == 0)
      violation("unread", "%s reported success although the thread to read its source could not be started", tool_name[j.t]);
    if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
    if (j.run() != 0) violation("refused", "%s failed although nothing went wrong", tool_name[j.t]);
    std::string e = j.t == ANALYZE ? "" : examine(j);
    if (!e.empty()) violation("silent", "%s after the fault was gone: %s", tool_name[j.t], e.c_str());
    return;
  }
  if (chance(1, 12, "unknown_type") && j.t != ANALYZE) {
    j.default_type = false;
    int r = j.run_to("xyz");
    if (r == 0) violation("silent", "%s into an unknown format reported success", tool_name[j.t]);
    return;
  }
  if (j.t == SPLIT && chance(1, 8, "no_folds")) {
    j.folds = -(int)pick(0, 2, "minus");
    sim::describe(" into %d folds", j.folds);
    if (j.run() == 0) violation("silent", "splitting into %d folds reported success", j.folds);
    return;
  }
  if (j.src.fmt <= BIN && chance(1, 10, "from_stdin")) {
    j.from_stdin = true;
    if (j.t == CONVERT && j.out == CSV && chance(1, 3, "pipe")) {
      // the data cannot be read twice
      fs::Fault ft;
      ft.no_seek = true;
      fs::set_fault(j.src.path, ft);
      int r = j.run();
      std::string e = r == 0 ? examine(j) : "";
      if (!e.empty()) violation("silent", "%s from a pipe reported success: %s", tool_name[j.t], e.c_str());
      sim::probe("pipe");
      return;
    }
  }
  if (j.t != SPLIT && !g_cli && chance(1, 10, "to_stdout")) j.to_stdout = true;
  // without faults first: how large the outputs are
  sim::quiet_schedule(true);
  int r0 = j.run();
  sim::quiet_schedule(false);
  if (r0 != 0) violation("refused", "%s failed with %d although nothing went wrong", tool_name[j.t], r0);
  std::vector<size_t> size;
  std::vector<std::string> content;
  for (auto& p : j.outputs) {
    if (!fs::exists(p)) violation("silent", "%s reported success without writing %s", tool_name[j.t], p.c_str());
    content.push_back(fs::get(p));
    size.push_back(content.back().size());
    fs::remove(p);
  }
  size_t k = (size_t)pick(0, (int64_t)j.outputs.size() - 1, "which_output");
  fs::Fault ft;
  int kind = (int)pick(0, 7, "fault");
  bool harmless = false, maybe = false;
  const char* what = "";
  int64_t n = (int64_t)size[k];
  if (kind == 2 || kind == 3) j.to_stdout = false;  // opened and closed by others
  // folds of a shuffled text split vary in size from run to run
  bool varies = j.t == SPLIT && j.shuffled && j.out != BIN;
  if (j.t == SPLIT && j.shuffled && j.out == BIN) varies = true;
  int64_t at = n ? (chance(1, 4, "at_end") ? n - pick(1, std::min<int64_t>(n, 3), "from_end") : pick(0, n - 1, "fails_at")) : 0;
  switch (kind) {
    case 0:
      ft.enospc_at = at;
      what = "a full disk";
      harmless = n == 0;
      break;
    case 1:
      ft.write_error_at = at;
      ft.write_error_once = maybe = chance(1, 2, "once");
      what = "a write error";
      harmless = n == 0;
      break;
    case 2:
      ft.close_error = true;
      what = "a failing close";
      break;
    case 3:
      ft.open_errno = chance(1, 2, "enospc") ? 28 : 13;
      what = "an output that cannot be opened";
      break;
    case 4:
      ft.max_write = pick(1, 50, "max_write");
      what = "short writes";
      harmless = true;
      break;
    case 5:
      ft.enospc_at = n + pick(0, 100, "spare");
      what = "a disk that is just large enough";
      harmless = !varies;
      maybe = varies;
      break;
    case 6:
      what = "nothing";
      harmless = true;
      break;
    case 7: {  // whatever is written: the disk as a whole is full
      int64_t total = 0;
      for (size_t x : size) total += (int64_t)x;
      at = total ? pick(0, total - 1, "room") : 0;
      fs::disk_capacity(fs::disk_used() + at);
      what = "a full disk";
      harmless = total == 0;
      break;
    }
  }
  if ((kind == 0 || kind == 1) && varies) maybe = true;
  sim::describe(" %s on output %zu (%lld bytes) at %lld", what, k, (long long)n, (long long)at);
  if (kind != 6 && kind != 7) fs::set_fault(j.outputs[k], ft);
  uint64_t before = fs::hard_errors();
  int r = j.run();
  if (r == 0) {
    if (!harmless && !maybe && fs::hard_errors() != before)
      violation("silent", "%s reported success in spite of %s on %s", tool_name[j.t], what, j.outputs[k].c_str());
    if (j.t == ANALYZE) {
      if (fs::get(j.outputs[0]) != content[0])
        violation("silent", "analyze reported success but its report is not stored completely");
    } else {
      std::string e = examine(j);
      if (!e.empty()) violation("silent", "%s reported success with %s: %s", tool_name[j.t], what, e.c_str());
    }
  } else if (harmless) {
    violation("refused", "%s failed with %d although its output could be stored (%s)", tool_name[j.t], r, what);
  } else {
    sim::probe("fault_reported");
  }
  if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
  // the fault is gone: the same call succeeds
  if (chance(1, 3, "again")) {
    fs::clear_faults();
    fs::disk_capacity(-1);
    r = j.run();
    if (r != 0) violation("refused", "%s failed with %d after the fault was gone", tool_name[j.t], r);
    if (j.t != ANALYZE) {
      std::string e = examine(j);
      if (!e.empty()) violation("silent", "%s after the fault was gone: %s", tool_name[j.t], e.c_str());
    } else if (fs::get(j.outputs[0]) != content[0]) {
      violation("silent", "analyze after the fault was gone wrote another report");
    }
  }
  sim::note_state(sim::mix(r, at));
}
sim::Reg r09("C09", c09, 20000);

// ---------------------------------------------------------------- C18
void c18() {
  Job j;
  j.t = ANALYZE;
  Fmt in = (Fmt)pick(0, 4, "in_format");
  Data d = gen_tool_data(in, SVM, false);
  bound_dim(&d);
  j.src = make_source(d, in, "in");
  j.outputs.push_back("/simfs/report");
  sim::describe("analyze %s[%zu]", type_of(in), d.size());
  if (fs::exists(j.src.path) && chance(1, 3, "short_reads")) {
    fs::Fault ft;
    ft.max_read = pick(1, 300, "max_read");
    fs::set_fault(j.src.path, ft);
    sim::fault("short_reads");
  }
  if (chance(1, 4, "old_output")) fs::put("/simfs/report", std::string(2000, '7'));
  int r = j.run();
  if (r != 0) violation("refused", "analyze failed with %d although nothing went wrong", r);
  size_t feats = 0;
  uint32_t dim = 0;
  std::set<uint32_t> distinct;
  std::map<int, size_t> cls;
  for (auto& s : d) {
    feats += s.f.size();
    ++cls[s.label];
    for (auto& f : s.f) {
      distinct.insert(f.first);
      dim = std::max(dim, f.first);
    }
  }
  std::map<std::string, std::string> rep;
  std::istringstream in_s(fs::get("/simfs/report"));
  std::string line;
  while (std::getline(in_s, line)) {
    size_t c = line.find(':');
    if (c == std::string::npos) violation("report", "a report line without value: %s", line.c_str());
    std::string key = line.substr(0, c), val = line.substr(c + 1);
    while (!key.empty() && key.back() == ' ') key.pop_back();
    while (!val.empty() && val[0] == ' ') val.erase(0, 1);
    if (rep.count(key)) violation("report", "%s is reported twice", key.c_str());
    rep[key] = val;
  }
  auto want = [&](const std::string& key, long long v) {
    if (!rep.count(key)) violation("report", "the report lacks '%s'", key.c_str());
    if (rep[key] != std::to_string(v))
      violation("report", "'%s' is reported as %s, the data has %lld", key.c_str(), rep[key].c_str(), v);
    rep.erase(key);
  };
  want("data number", (long long)d.size());
  want("feat number", (long long)feats);
  want("dimension", dim);
  want("nonzero feat", (long long)distinct.size());
  want("class num", (long long)cls.size());
  for (auto& c : cls) want("data number of class " + std::to_string(c.first), (long long)c.second);
  for (auto& x : rep)
    if (x.first.compare(0, 20, "data number of class") == 0)
      violation("report", "'%s' is reported, the data has no such class", x.first.c_str());
  sim::note_state(sim::mix(feats, dim));
}
sim::Reg r18("C18", c18, 20000);
}  // namespace
void h::c09_body() { c09(); }
void h::c13_body() { c13(); }
