// C21: the command-line programs.
#include "cli.h"
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#include "failing.h"
#include "model.h"

extern "C" {
#define PROGRAM(n) __attribute__((weak)) int tool_##n##_main(int, char**);
PROGRAM(analyze)
PROGRAM(concat)
PROGRAM(converter)
PROGRAM(lsol_c)
PROGRAM(shuffle)
PROGRAM(sol_test)
PROGRAM(sol_train)
PROGRAM(split)
}

using namespace h;
namespace fs = sim::fs;

namespace h {
bool g_cli = false;
int run_program(const std::vector<std::string>& args, std::string* out) {
  typedef int (*Main)(int, char**);
  static const std::pair<const char*, Main> all[] = {
      {"analyze", tool_analyze_main}, {"concat", tool_concat_main}, {"converter", tool_converter_main},
      {"lsol_c", tool_lsol_c_main},   {"shuffle", tool_shuffle_main}, {"sol_test", tool_sol_test_main},
      {"sol_train", tool_sol_train_main}, {"split", tool_split_main}};
  Main f = nullptr;
  for (auto& p : all)
    if (args[0] == p.first) f = p.second;
  if (!f) violation("harness", "there is no program %s", args[0].c_str());
  std::vector<std::string> copy = args;
  std::vector<char*> v;
  for (auto& a : copy) v.push_back(&a[0]);
  v.push_back(nullptr);
  fflush(stdout);
  std::cout.flush();
  int keep = dup(1), mem = memfd_create("stdout", 0);
  dup2(mem, 1);
  int status = sim::call_main(f, (int)args.size(), v.data());
  fflush(stdout);
  std::cout.flush();
  dup2(keep, 1);
  ::close(keep);
  off_t n = lseek(mem, 0, SEEK_END);
  std::string text((size_t)n, 0);
  if (n && pread(mem, &text[0], (size_t)n, 0) != n) violation("harness", "captured output lost");
  ::close(mem);
  if (out) *out = text;
  for (auto& a : args) sim::logf("%s ", a.c_str());
  sim::logf("-> %d", status & 0xff);
  return status & 0xff;
}
}  // namespace h

namespace {
const char* kModel = "/simfs/model";
std::string content(const std::string& p) { return fs::exists(p) ? fs::get(p) : "absent"; }
// the number printed after a text
bool printed(const std::string& out, const char* label, double* v) {
  size_t p = out.find(label);
  if (p == std::string::npos) return false;
  *v = strtod(out.c_str() + p + strlen(label), nullptr);
  return true;
}
void check_accuracy(const std::string& out, const char* label, double rate) {
  double v;
  if (!printed(out, label, &v)) violation("printed", "the program printed no '%s'", label);
  if (rate == rate && !(std::fabs(v - (1 - rate)) <= 1.01e-4))
    violation("printed", "'%s %g' was printed, it is %g", label, v, 1 - rate);
}
fs::Fault write_fault(int64_t n, bool* harmless, const char** what) {
  fs::Fault f;
  int64_t at = n ? pick(0, n - 1, "fails_at") : 0;
  *harmless = false;
  switch (pick(0, 5, "fault")) {
    case 0: *harmless = true; *what = "nothing"; break;
    case 1: f.enospc_at = at; *harmless = n == 0; *what = "a full disk"; break;
    case 2: f.write_error_at = at; f.write_error_once = chance(1, 3, "once"); *harmless = n == 0; *what = "a write error"; break;
    case 3: f.close_error = true; *what = "a failing close"; break;
    case 4: f.open_errno = 13; *what = "an output that cannot be opened"; break;
    case 5: f.max_write = pick(1, 60, "max_write"); *harmless = true; *what = "short writes"; break;
  }
  return f;
}
std::string params_of(const Cfg& c) {
  std::string s;
  for (auto& p : c.params) s += (s.empty() ? "" : ";") + p.first + (chance(1, 6, "space") ? " = " : "=") + p.second;
  return s;
}
Data some_data(const Cfg& c, int min_n) {
  GenOpt o = data_opt(c);
  o.min_n = min_n;
  Data d = gen_data(o);
  vary_labels(&d, c);
  return d;
}
double rate_of(const std::vector<Pred>& p) {
  size_t e = 0;
  for (auto& x : p) e += x.label != x.truth;
  return p.empty() ? 0.0 / 0.0 : double(e) / p.size();
}

// ---------------------------------------------------------------- train
void train_program() {
  bool c_api = chance(1, 3, "c_api");
  Cfg c = gen_cfg();
  Data d = some_data(c, 1), first = some_data(c, 1);
  Fmt f = (Fmt)pick(0, 2, "format");
  Source s = make_source(d, f, "train");
  s.passes = chance(1, 20, "many_passes") ? (int)pick(8, 40, "passes") : (int)pick(1, 3, "passes");
  bool cont = chance(1, 3, "pre_trained");
  int what = (int)pick(0, 7, "trouble");  // 0-2: none
  sim::describe("%s: %s %s[%zu]x%d%s trouble=%d", c_api ? "lsol_c" : "sol_train", c.text().c_str(), type_of(f), d.size(),
                s.passes, cont ? " continued" : "", what);
  // reference
  sim::quiet_schedule(true);
  sim::fill_byte(0x3f);
  std::string want, start;
  double rate, sparsity;
  {
    M m = make_model(c);
    Watch w;
    w.attach(m);
    if (cont) {
      It it(3, 2);
      it.load(make_source(first, BIN, "first"));
      sol_Train(m.m, it.it);
      start = saved(m);
      fs::put("/simfs/start", start);
      M r(sol_RestoreModel("/simfs/start"));
      if (!r) violation("refused", "restoring a completely saved model failed");
      m = std::move(r);
      w.attach(m);
      for (auto& p : c.params)
        if (sol_SetModelParameter(m.m, p.first.c_str(), p.second.c_str()) != 0)
          violation("parameter", "%s refused %s=%s", c.name.c_str(), p.first.c_str(), p.second.c_str());
    }
    It it(1, 1);
    it.load(s);
    rate = sol_Train(m.m, it.it);
    want = saved(m);
    sparsity = sol_model_sparsity(m.m);
  }
  sim::quiet_schedule(false);
  sim::fill_byte(0xbe);
  std::vector<std::string> a = {c_api ? "lsol_c" : "sol_train"};
  a.push_back(chance(1, 2, "short_option") ? "-f" : "--format");
  a.push_back(type_of(f));
  if (s.passes > 1) a.push_back("-p"), a.push_back(std::to_string(s.passes));
  if (chance(1, 2, "batch")) {
    a.push_back("-b");
    a.push_back(std::to_string(pick(0, 9, "batch_size")));
    a.push_back("--bufsize");
    a.push_back(std::to_string(pick(0, 4, "batch_num")));
  }
  if (cont) {
    a.push_back("-m");
    a.push_back("/simfs/start");
  } else {
    a.push_back("-a");
    a.push_back(c.name);
    if (c.cls != 2 || chance(1, 2, "classes_given")) a.push_back("-c"), a.push_back(std::to_string(c.cls));
  }
  std::string p = params_of(c);
  bool save = true, must_fail = false, may_fail = false;
  const char* why = "";
  switch (what) {
    case 3:  // the source
      if (chance(1, 2, "missing")) {
        fs::remove(s.path);
        must_fail = true;
        why = "a missing source";
      } else if (chance(1, 6, "no_thread")) {
        sim::fail_thread(0);
        must_fail = !c_api;
        may_fail = true;
        why = "a thread that cannot be started";
      } else if (s.passes > 1 && chance(1, 3, "pipe")) {
        fs::Fault ft;
        ft.no_seek = true;
        fs::set_fault(s.path, ft);
        must_fail = !c_api;
        may_fail = true;
        why = "a source that cannot be read again";
      } else {
        std::string b = content(s.path);
        fs::Fault ft;
        ft.read_error_at = pick(0, (int64_t)b.size() - 1, "read_error_at");
        fs::set_fault(s.path, ft);
        // the C API cannot tell that its iterator failed
        must_fail = !c_api;
        may_fail = true;
        why = "a source that cannot be read completely";
      }
      break;
    case 4:  // a parameter that is none
    {
      static const char* bad[] = {"no_such_parameter=1", "eta", "eta=1=2", "bias_eta=abc", "t=99999999999999999999999", "norm=L7", "loss=none",
                                  "active_smoothness=0", "active_smoothness=-1", "bias_eta=-1", "dim=-5", "filter=/simfs/missing", "t=-1",
                                  "step_show=x", "exp_show=", "loss=logistic;cost_margin=2", "cost_margin=2;loss=logistic"};
      int k = (int)pick(0, 16, "bad");
      p += (p.empty() ? "" : ";") + std::string(bad[k]);
      must_fail = true;
      why = "an invalid parameter";
      break;
    }
    case 5:
      if (cont) {
        if (chance(1, 2, "missing"))
          fs::remove("/simfs/start");
        else
          fs::put("/simfs/start", start.substr(0, (size_t)pick(0, (int64_t)start.size() - 2, "cut")));
        why = "a model file that is missing or cut";
      } else {
        for (size_t i = 1; i < a.size(); ++i)
          if (a[i - 1] == "-a") a[i] = "no-such-algorithm";
        why = "an unknown algorithm";
      }
      must_fail = true;
      break;
    case 6:
    case 7: {
      bool harmless;
      fs::Fault ft = write_fault((int64_t)want.size(), &harmless, &why);
      fs::set_fault(kModel, ft);
      must_fail = !harmless && !ft.write_error_once;
      may_fail |= ft.write_error_once;
      break;
    }
    default:
      save = !chance(1, 6, "no_model_file");
  }
  if (chance(1, 3, "old_file")) fs::put(kModel, want + "and some more\n");
  if (!p.empty()) a.push_back("--params"), a.push_back(p);
  if (c_api) {
    a.push_back("-i");
    a.push_back(s.path);
    if (save) a.push_back("-o"), a.push_back(kModel);
  } else {
    a.push_back(s.path);
    if (save) a.push_back(kModel);
  }
  uint64_t before = fs::hard_errors();
  std::string out;
  int r = run_program(a, &out);
  sim::fail_thread(-1);
  if (what >= 6 && fs::hard_errors() == before) must_fail = false, may_fail = true;
  if (r == 0) {
    if (must_fail) violation("false-success", "%s exits with 0 in spite of %s", a[0].c_str(), why);
    if (what == 3) return;
    if (save && content(kModel) != want)
      violation("model", "%s exits with 0, but its model file is another: %s", a[0].c_str(), diff(content(kModel), want).c_str());
    check_accuracy(out, "training accuracy:", rate);
    double v;
    if (printed(out, "model sparsity:", &v) && std::fabs(v - 100 * sparsity) > 1e-3)
      violation("printed", "a model sparsity of %g%% was printed, it is %g%%", v, 100 * sparsity);
  } else {
    sim::probe("program_reported_error");
    if (!must_fail && !may_fail) violation("false-error", "%s exits with %d although nothing went wrong", a[0].c_str(), r);
  }
  sim::note_state(std::hash<std::string>()(want));
}

// ---------------------------------------------------------------- test
void test_program() {
  bool c_api = chance(1, 3, "c_api");
  Cfg c = gen_cfg();
  Data d = some_data(c, 1), t = some_data(c, 1);
  Fmt f = (Fmt)pick(0, 2, "format");
  Source s = make_source(t, f, "test");
  int what = (int)pick(0, 7, "trouble");  // 0-2: none
  bool filter = chance(1, 4, "filter");
  sim::describe("%s: %s %s[%zu] trouble=%d%s", c_api ? "lsol_c" : "sol_test", c.text().c_str(), type_of(f), t.size(), what,
                filter ? " filter" : "");
  sim::quiet_schedule(true);
  sim::fill_byte(0x3f);
  std::string model, results;
  double rate;
  {
    M m = make_model(c);
    Watch w;
    w.attach(m);
    It it(3, 2);
    it.load(make_source(d, BIN, "train"));
    sol_Train(m.m, it.it);
    model = saved(m);
    fs::put(kModel, model);
    M r(sol_RestoreModel(kModel));
    if (!r) violation("refused", "restoring a completely saved model failed");
    if (filter) {
      fs::put("/simfs/filter", "1\n2\n5\n9\n");
      if (sol_SetModelParameter(r.m, "filter", "/simfs/filter") != 0) violation("refused", "a valid filter was refused");
    }
    It tt(1, 1);
    tt.load(s);
    rate = sol_Test(r.m, tt.it, "/simfs/expected");
    results = content("/simfs/expected");
  }
  sim::quiet_schedule(false);
  sim::fill_byte(0xbe);
  std::vector<std::string> a = {c_api ? "lsol_c" : "sol_test"};
  if (c_api) a.push_back("-t"), a.push_back("test");
  a.push_back("-f");
  a.push_back(type_of(f));
  if (chance(1, 2, "batch")) {
    a.push_back("-b");
    a.push_back(std::to_string(pick(0, 9, "batch_size")));
    a.push_back("--bufsize");
    a.push_back(std::to_string(pick(0, 4, "batch_num")));
  }
  if (filter) a.push_back("--filter"), a.push_back("/simfs/filter");
  bool save = true, must_fail = false, may_fail = false;
  const char* why = "";
  std::string res = "/simfs/result";
  switch (what) {
    case 3:
      if (chance(1, 2, "missing")) {
        fs::remove(s.path);
        must_fail = true;
        why = "a missing source";
      } else {
        std::string b = content(s.path);
        fs::Fault ft;
        ft.read_error_at = pick(0, (int64_t)b.size() - 1, "read_error_at");
        fs::set_fault(s.path, ft);
        must_fail = !c_api;
        may_fail = true;
        why = "a source that cannot be read completely";
      }
      break;
    case 4:
      if (!filter) break;
      if (chance(1, 2, "missing"))
        fs::remove("/simfs/filter");
      else
        fs::put("/simfs/filter", "1\nx\n");
      must_fail = true;
      why = "a filter that is missing or malformed";
      break;
    case 5:
      if (chance(1, 2, "missing"))
        fs::remove(kModel);
      else
        fs::put(kModel, model.substr(0, (size_t)pick(0, (int64_t)model.size() - 2, "cut")));
      must_fail = true;
      why = "a model file that is missing or cut";
      break;
    case 6:
    case 7: {
      bool harmless;
      fs::Fault ft = write_fault((int64_t)results.size(), &harmless, &why);
      fs::set_fault(res, ft);
      ft.write_error_once = false;
      fs::set_fault(res, ft);
      must_fail = !harmless && !c_api;  // the C API returns only the rate
      may_fail = !harmless;
      break;
    }
    default:
      save = !chance(1, 6, "no_result_file");
  }
  if (chance(1, 3, "old_file")) fs::put(res, results + "and some more\n");
  if (c_api) {
    a.push_back("-m");
    a.push_back(kModel);
    a.push_back("-i");
    a.push_back(s.path);
    if (save) a.push_back("-o"), a.push_back(res);
  } else {
    a.push_back(kModel);
    a.push_back(s.path);
    if (save) a.push_back(res);
  }
  uint64_t before = fs::hard_errors();
  std::string out;
  int r = run_program(a, &out);
  if (what >= 6 && fs::hard_errors() == before) must_fail = false, may_fail = true;
  if (r == 0) {
    if (must_fail && !c_api && what == 3 && fs::exists(s.path) && sim::known("sol_test-source")) must_fail = false;
    if (must_fail && !c_api && what >= 6 && sim::known("sol_test-result")) must_fail = false;
    if (must_fail) violation("false-success", "%s exits with 0 in spite of %s", a[0].c_str(), why);
    if (what == 3 || (what >= 6 && fs::hard_errors() != before)) return;
    if (save && content(res) != results)
      violation("results", "%s exits with 0, but its result file is another: %s", a[0].c_str(), diff(content(res), results).c_str());
    check_accuracy(out, "test accuracy:", rate);
  } else {
    sim::probe("program_reported_error");
    if (!must_fail && !may_fail) violation("false-error", "%s exits with %d although nothing went wrong", a[0].c_str(), r);
  }
  sim::note_state(std::hash<std::string>()(results));
}

// ---------------------------------------------------------------- concat
void concat_program() {
  Fmt in = (Fmt)pick(0, 2, "in_format"), out = (Fmt)pick(0, 2, "out_format");
  int n = (int)pick(1, 4, "inputs");
  int trouble = (int)pick(0, 4, "trouble");
  int bad = trouble == 1 ? (int)pick(0, n - 1, "which") : -1;
  sim::describe("concat %d %s to %s trouble=%d", n, type_of(in), type_of(out), trouble);
  std::string paths;
  Data want;
  bool must_fail = false;
  const char* why = "";
  for (int i = 0; i < n; ++i) {
    GenOpt o;
    o.wide = in != CSV && out != CSV;
    o.any_label = true;
    o.rich_values = true;
    if (chance(1, 8, "many")) {
      o.max_dim = 5;
      o.wide = o.allow_long = false;
      o.min_n = o.max_n = (int)pick(250, 600, "n");
    }
    Data d = gen_data(o);
    std::string name = "in" + std::to_string(i);
    std::string path;
    if (i == bad) {
      Failing f = gen_failing(d, in, name, 1);
      path = f.src.path;
      if (f.load_fails || f.kind == 0 || f.kind == 1 || (f.kind == 2 && in == BIN && f.in_record)) {
        must_fail = true;
        why = "an input that cannot be read completely";
      } else {
        return;
      }
    } else {
      Source s = make_source(d, in, name);
      path = s.path;
      if (chance(1, 4, "short_reads")) {
        fs::Fault ft;
        ft.max_read = pick(1, 100, "max_read");
        fs::set_fault(path, ft);
      }
      want.insert(want.end(), d.begin(), d.end());
    }
    paths += (i ? ";" : "") + path;
  }
  bool features = false;
  for (auto& s : want) features |= !s.f.empty();
  if (out == CSV && !features) return;
  std::string res = "/simfs/out";
  std::vector<std::string> a = {"concat", "-i", paths, "-s", type_of(in), "-o", res, "-d", type_of(out)};
  if (chance(1, 4, "old_output")) fs::put(res, std::string((size_t)pick(1, 3000, "old_size"), '7'));
  uint64_t before = 0;
  bool injected = false, once = false;
  if (trouble == 2) {
    fs::remove("/simfs/in" + std::to_string(pick(0, n - 1, "missing")) + "." + fmt_name[in]);
    must_fail = true;
    why = "a missing input";
  } else if (trouble >= 3) {
    sim::quiet_schedule(true);
    std::string old = content(res);
    if (run_program(a) != 0) violation("false-error", "concat fails although nothing went wrong");
    size_t size = content(res).size();
    fs::remove(res);
    sim::quiet_schedule(false);
    bool harmless;
    fs::Fault ft = write_fault((int64_t)size, &harmless, &why);
    fs::set_fault(res, ft);
    must_fail = !harmless;
    once = ft.write_error_once;
    injected = true;
    before = fs::hard_errors();
  }
  int r = run_program(a);
  bool met = !injected || fs::hard_errors() != before;
  if (r == 0) {
    if (must_fail && met && !once) violation("false-success", "concat exits with 0 in spite of %s", why);
    Data got;
    if (!fs::exists(res) || !decode(content(res), out, &got)) violation("not-conserved", "the output of concat is missing or malformed");
    compare(got, want, "not-conserved", "concat");
  } else {
    sim::probe("program_reported_error");
    if (!must_fail) violation("false-error", "concat exits with %d although nothing went wrong", r);
  }
  sim::note_state(fnv_data(want));
}

// ---------------------------------------------------------------- usage
// A command line that cannot be carried out is refused, and nothing is written.
void bad_usage() {
  static const char* progs[] = {"sol_train", "sol_test", "lsol_c", "lsol_c", "analyze", "converter", "shuffle", "split", "concat"};
  int w = (int)pick(0, 8, "program");
  std::string prog = progs[w];
  Cfg c;
  c.name = "ogd";
  c.cls = 2;
  Data d = some_data(c, 1);
  Source s = make_source(d, SVM, "in");
  const std::string out = "/simfs/out";
  {
    M m = make_model(c);
    fs::put(kModel, saved(m));
  }
  std::vector<std::string> a = {prog};
  std::vector<std::pair<std::string, std::string>> need, opt;  // options
  std::vector<std::string> rest;
  switch (w) {
    case 0:
      rest = {s.path, out};
      opt = {{"-f", "svm"}, {"-p", "2"}, {"-b", "4"}, {"--bufsize", "2"}, {"-a", "ogd"}, {"-c", "2"}};
      break;
    case 1:
      rest = {kModel, s.path, out};
      opt = {{"-f", "svm"}, {"-b", "4"}, {"--bufsize", "2"}};
      break;
    case 2:
      need = {{"-i", s.path}, {"-a", "ogd"}};
      opt = {{"-t", "train"}, {"-f", "svm"}, {"-p", "2"}, {"-b", "4"}, {"-c", "2"}, {"-o", out}};
      break;
    case 3:
      need = {{"-i", s.path}, {"-m", kModel}, {"-t", "test"}};
      opt = {{"-f", "svm"}, {"-b", "4"}, {"-o", out}};
      break;
    case 4:
      need = {{"-i", s.path}, {"-s", "svm"}};
      opt = {{"-o", out}};
      break;
    case 5:
      need = {{"-i", s.path}, {"-s", "svm"}, {"-o", out}, {"-d", "csv"}};
      opt = {{"-b", "0.5"}};
      break;
    case 6:
      need = {{"-i", s.path}, {"-s", "svm"}};
      opt = {{"-o", out}, {"-d", "svm"}};
      break;
    case 7:
      need = {{"-i", s.path}, {"-s", "svm"}, {"-n", "2"}, {"-o", out}, {"-d", "svm"}};
      break;
    default:
      need = {{"-i", s.path}, {"-s", "svm"}, {"-o", out}, {"-d", "svm"}};
  }
  std::vector<std::pair<std::string, std::string>> use = need;
  for (auto& o : opt)
    if (o.first == "-o" || chance(1, 2, "option")) use.push_back(o);
  std::string how;
  switch (pick(0, 4, "how")) {
    case 0:
      how = "an unknown option";
      use.push_back({chance(1, 2, "short") ? "-Z" : "--no_such_option", ""});
      break;
    case 1:
      how = "a missing argument";
      if (!need.empty()) {
        // (test is the default of no task, and without one a model is trained on)
        size_t k = (size_t)pick(0, (int64_t)need.size() - (w == 3 ? 2 : 1), "which");
        use.erase(use.begin() + k);
      } else if (w == 0) {
        rest.clear();
        if (use.empty()) use.push_back({"-f", "svm"});  // without any argument the usage is printed
      } else {
        rest.resize((size_t)pick(0, 1, "rest"));
        if (use.empty()) use.push_back({"-f", "svm"});
      }
      break;
    case 2: {
      how = "a value that is none";
      std::vector<std::string> ints;
      for (auto& o : use)
        if (o.first == "-p" || o.first == "-c" || o.first == "--bufsize" || o.first == "-n" || (o.first == "-b")) ints.push_back(o.first);
      if (ints.empty()) return;
      std::string k = ints[(size_t)pick(0, (int64_t)ints.size() - 1, "which")];
      for (auto& o : use)
        if (o.first == k) o.second = chance(1, 2, "text") ? "abc" : "4x";
      break;
    }
    case 3: {
      how = "an unknown format";
      bool any = false;
      for (auto& o : use)
        if (!any && (o.first == "-f" || o.first == "-s" || o.first == "-d")) o.second = "nosuch", any = true;
      if (!any) return;
      break;
    }
    default:
      how = "an option without its value";
      if (rest.empty() && !use.empty()) {
        if (use.back().first == "-Z") return;
        use.back().second = "";
      } else {
        rest.clear();
        use.push_back({"-f", ""});
      }
  }
  for (auto& o : use) {
    a.push_back(o.first);
    if (!o.second.empty()) a.push_back(o.second);
  }
  a.insert(a.end(), rest.begin(), rest.end());
  std::string line;
  for (auto& x : a) line += x + " ";
  sim::describe("%s(%s)", line.c_str(), how.c_str());
  std::string text;
  int r = run_program(a, &text);
  if (r == 0) violation("false-success", "%s exits with 0 in spite of %s", prog.c_str(), how.c_str());
  for (auto p : {"/simfs/out", "/simfs/out0.svm", "/simfs/out1.svm"})
    if (fs::exists(p) && !fs::get(p).empty()) violation("written", "%s was written by a refused command line (%s)", p, how.c_str());
  sim::probe("refused_command_line");
}

void c21() {
  stream_buffers();
  sim::step_cap(200000000);
  switch (pick(0, 8, "program")) {
    case 0:
    case 1: train_program(); break;
    case 2:
    case 3: test_program(); break;
    case 4: concat_program(); break;
    case 8: bad_usage(); break;
    case 5:
      g_cli = true;
      c13_body();
      break;
    default:
      g_cli = true;
      c09_body();
  }
}
sim::Reg r21("C21", c21, 20000);
}  // namespace
