// C17: independent pipelines in concurrent threads.
// C22: whatever was used and released leaves nothing behind.
#include <pthread.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include "model.h"

using namespace h;
namespace fs = sim::fs;

namespace {
enum Kind { ITERATE, TRAIN, TEST, PREDICT, SAVE, RESTORE, CONVERT, SPLIT, SHUFFLE, ANALYZE, FILTER, ABANDON, REFUSED, SETTINGS, KINDS };
const char* kind_name[KINDS] = {"iterate", "train", "test", "predict", "save", "restore", "convert", "split", "shuffle", "analyze", "filter", "abandon", "refused", "settings"};
struct Op {
  Kind k = ITERATE;
  std::vector<Source> src;
  int bs = 1, bn = 1;
  Fmt out = SVM;
  int folds = 1;
  bool binarize = false;
  int n = 0;
};
struct Pipe {
  int id = 0;
  Cfg cfg;
  std::vector<Op> ops;
  std::string filter;  // path
  std::string prefix;  // of everything it writes
  std::vector<std::string> result;
  std::string cls, msg;
};
std::string content(const std::string& p) { return fs::exists(p) ? fs::get(p) : "absent"; }
std::string num(double v) {
  char b[40];
  snprintf(b, sizeof(b), "%.17g", v);
  return b;
}
std::string text(const Data& d) {
  std::string s;
  for (auto& x : d) {
    s += std::to_string(x.label);
    for (auto& f : x.f) s += " " + std::to_string(f.first) + ":" + num(f.second);
    s += "\n";
  }
  return s;
}
void collect(void* u, const char* n, const char* v) { *(std::string*)u += std::string(" ") + n + "=" + v; }
// everything a caller can see of the pipeline, as text
void execute(Pipe* p) {
  p->result.clear();
  M m = make_model(p->cfg);
  Watch w;
  w.attach(m);
  std::string model_file = p->prefix + "model";
  for (auto& o : p->ops) {
    std::string r = std::string(kind_name[o.k]) + " ";
    std::unique_ptr<It> it;
    if (o.k <= PREDICT || o.k == ABANDON) {
      it.reset(new It(o.bs, o.bn));
      for (auto& s : o.src) r += std::to_string(it->try_load(s)) + " ";
    }
    std::string out = p->prefix + "out" + std::to_string(p->result.size());
    const Source& s = o.src[0];
    switch (o.k) {
      case ITERATE:
        r += text(drain(*(sol::pario::DataIter*)it->it, o.bs));
        break;
      case TRAIN: {
        w.p.clear();
        r += num(sol_Train(m.m, it->it));
        for (auto& q : w.p)
          r += " " + std::to_string(q.data) + "," + std::to_string(q.iter) + "," + std::to_string(q.update) + "," + num(q.err);
        r += " sparsity " + num(sol_model_sparsity(m.m));
        break;
      }
      case TEST:
        r += num(sol_Test(m.m, it->it, out.c_str()));
        r += " " + content(out);
        break;
      case PREDICT: {
        int n;
        for (auto& q : predict_api(m, *it, &n)) {
          r += std::to_string(q.truth) + ">" + std::to_string(q.label);
          for (float x : q.score) r += " " + num(x);
          r += "\n";
        }
        r += std::to_string(n);
        break;
      }
      case SAVE:
        r += std::to_string(sol_SaveModel(m.m, model_file.c_str())) + " " + content(model_file);
        break;
      case RESTORE:
        if (fs::exists(model_file)) {
          M n(sol_RestoreModel(model_file.c_str()));
          r += n ? "restored " : "failed ";
          if (n) {
            m = std::move(n);
            w.attach(m);
          }
        }
        break;
      case CONVERT:
        r += std::to_string(sol_convert_data(s.path.c_str(), type_of(s.fmt), out.c_str(), type_of(o.out), o.binarize, 0.5f));
        r += " " + content(out);
        break;
      case SPLIT:
        r += std::to_string(sol_split_data(s.path.c_str(), type_of(s.fmt), o.folds, out.c_str(), type_of(o.out), false));
        for (int i = 0; i < o.folds; ++i) r += "\n" + content(out + std::to_string(i) + "." + type_of(o.out));
        break;
      case SHUFFLE: {
        r += std::to_string(sol_shuffle_data(s.path.c_str(), type_of(s.fmt), out.c_str(), type_of(o.out))) + " ";
        Data d;
        r += decode(content(out), o.out, &d) ? "well formed " : "malformed ";
        std::vector<std::string> l;
        for (auto& x : d) l.push_back(text(Data(1, x)));
        std::sort(l.begin(), l.end());
        for (auto& x : l) r += x;
        break;
      }
      case ANALYZE:
        r += std::to_string(sol_analyze_data(s.path.c_str(), type_of(s.fmt), out.c_str())) + " " + content(out);
        break;
      case FILTER:
        r += std::to_string(sol_SetModelParameter(m.m, "filter", p->filter.c_str()));
        break;
      case ABANDON: {  // some batches, all given back, and no more
        auto& i = *(sol::pario::DataIter*)it->it;
        sol::pario::MiniBatch* mb = nullptr;
        for (int k = 0; k < o.n; ++k) {
          mb = i.Next(mb);
          if (!mb) break;
          for (int q = 0; q < mb->size(); ++q) r += text(Data(1, copy_sample((*mb)[q])));
        }
        it.reset();
        if (mb && !__asan_address_is_poisoned(mb)) delete mb;  // the consumer's
        break;
      }
      case REFUSED: {
        void* x = nullptr;
        if (o.n == 0) x = sol_CreateModel("no-such-model", 2);
        if (o.n == 1) x = sol_CreateModel(p->cfg.name.c_str(), 1);
        if (o.n == 2) x = sol_RestoreModel((p->prefix + "nothing").c_str());
        if (o.n >= 3 && fs::exists(model_file)) {  // a model cut short
          std::string b = content(model_file);
          fs::put(p->prefix + "cut", b.substr(0, b.size() * (o.n - 2) / 10));
          x = sol_RestoreModel((p->prefix + "cut").c_str());
        }
        r += x ? "made" : "refused";
        if (x) sol_ReleaseModel(&x);
        It e(o.bs, o.bn);
        r += std::to_string(sol_LoadData(e.it, (p->prefix + "nothing").c_str(), "svm", 1));
        r += std::to_string(sol_LoadData(e.it, s.path.c_str(), "no-such-type", 1));
        r += std::to_string(sol_LoadData(e.it, "1;2;x", "numpy", 1));
        r += std::to_string(sol_convert_data(s.path.c_str(), type_of(s.fmt), out.c_str(), "no-such-type", false, 0));
        r += std::to_string(sol_convert_data((p->prefix + "nothing").c_str(), "bin", out.c_str(), "svm", false, 0));
        break;
      }
      case SETTINGS: {
        static const char* v[][2] = {{"loss", "nosuch"}, {"bias_eta", "-1"}, {"step_show", "3"}, {"exp_show", "2"}, {"step_show", "x"},
                                     {"norm", "L9"}, {"filter", "/simfs/nothing"}, {"no_such", "1"}, {"t", "-1"}};
        for (auto& q : v) r += std::to_string(sol_SetModelParameter(m.m, q[0], q[1]));
        for (auto& q : p->cfg.params)
          if (q.first != "t") r += std::to_string(sol_SetModelParameter(m.m, q.first.c_str(), q.second.c_str()));
        sol_GetModelParameters(m.m, collect, &r);
        break;
      }
      default:
        break;
    }
    p->result.push_back(r);
  }
}
void* thread_main(void* a) {
  execute((Pipe*)a);
  return nullptr;
}
std::vector<Pipe> gen_pipes(int n, int max_ops) {
  std::vector<Pipe> ps(n);
  CfgOpt co;
  Cfg shared = gen_cfg(co);
  sim::describe("%d pipeline(s):", n);
  Kind theme = (Kind)pick(0, KINDS - 1, "theme");
  for (int i = 0; i < n; ++i) {
    Pipe& p = ps[i];
    p.id = i;
    p.cfg = chance(1, 2, "own_config") ? gen_cfg(co) : shared;
    p.filter = "/simfs/filter" + std::to_string(i);
    {
      std::string f;
      for (int k = 1; k < 14; ++k)
        if (chance(3, 4, "listed")) f += std::to_string(k) + "\n";
      fs::put(p.filter, f + "20\n");
    }
    sim::describe(" [%s:", p.cfg.text().c_str());
    int m = (int)pick(1, max_ops, "operations");
    for (int k = 0; k < m; ++k) {
      Op o;
      o.k = chance(1, 2, "theme_operation") ? theme : (Kind)pick(0, KINDS - 1, "operation");
      if (o.k == RESTORE && k == 0) o.k = TRAIN;
      o.bs = (int)pick(1, 6, "batch_size");
      o.bn = (int)pick(1, 3, "batch_num");
      int ns = o.k <= PREDICT || o.k == ABANDON ? (int)pick(1, 2, "sources") : 1;
      for (int q = 0; q < ns; ++q) {
        GenOpt go = data_opt(p.cfg);
        go.max_n = 16;
        go.allow_long = false;
        go.rich_values = o.k == ITERATE || o.k >= CONVERT;
        Data d = gen_data(go);
        Fmt f = (Fmt)pick(0, 4, "format");
        o.src.push_back(make_source(d, f, "in" + std::to_string(i) + "_" + std::to_string(k) + "_" + std::to_string(q)));
        if (f <= BIN && chance(1, 5, "bad_source")) {
          // pipelines also fail independently
          std::string b = content(o.src.back().path);
          if (!b.empty()) {
            fs::Fault ft;
            ft.read_error_at = pick(0, (int64_t)b.size() - 1, "read_error_at");
            fs::set_fault(o.src.back().path, ft);
          }
        }
      }
      o.out = (Fmt)pick(0, 2, "out_format");
      o.folds = (int)pick(1, 3, "folds");
      o.n = (int)pick(0, 9, "n");
      o.binarize = chance(1, 3, "binarize");
      sim::describe(" %s", kind_name[o.k]);
      p.ops.push_back(o);
    }
    sim::describe("]");
  }
  return ps;
}
void c17() {
  int n = (int)pick(2, 4, "pipelines");
  std::vector<Pipe> ps = gen_pipes(n, 4);
  std::vector<std::vector<std::string>> alone, together;
  bool main_too = chance(1, 2, "main_thread");
  bool first = chance(1, 2, "together_first");  // in a process that has done nothing before
  for (int round = 0; round < 2; ++round) {
    if ((round == 0) == first) {
      // all at once; the first one sometimes in the main thread
      sim::fill_byte(0xbe);
      for (auto& p : ps) p.prefix = "/simfs/together" + std::to_string(p.id) + "_";
      std::vector<pthread_t> th(n);
      for (int i = main_too ? 1 : 0; i < n; ++i)
        if (pthread_create(&th[i], nullptr, thread_main, &ps[i]) != 0) violation("harness", "no thread");
      if (main_too) execute(&ps[0]);
      for (int i = main_too ? 1 : 0; i < n; ++i) pthread_join(th[i], nullptr);
      for (auto& p : ps) together.push_back(p.result);
    } else {
      // each alone
      sim::quiet_schedule(true);
      sim::fill_byte(0x3f);
      for (auto& p : ps) {
        p.prefix = "/simfs/alone" + std::to_string(p.id) + "_";
        execute(&p);
        alone.push_back(p.result);
      }
      sim::quiet_schedule(false);
    }
  }
  for (int i = 0; i < n; ++i) {
    for (size_t k = 0; k < ps[i].ops.size(); ++k) {
      if (k >= together[i].size()) violation("interference", "pipeline %d did not finish", i);
      if (together[i][k] != alone[i][k])
        violation("interference", "pipeline %d, operation %zu (%s) together with %d others gives another result than alone, %s", i, k,
                  kind_name[ps[i].ops[k].k], n - 1, diff(together[i][k], alone[i][k]).c_str());
    }
    sim::note_state(std::hash<std::string>()(alone[i].back()));
  }
  if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
  if (sim::live_tasks() != 1) violation("threads", "%d threads left", sim::live_tasks() - 1);
}
sim::Reg r17("C17", c17, 10000);

// ---------------------------------------------------------------- C22
// Faults on what the pipeline writes.
void write_faults(const Pipe& p) {
  for (size_t k = 0; k < p.ops.size(); ++k) {
    if (!chance(1, 3, "write_fault")) continue;
    fs::Fault f;
    int kind = (int)pick(0, 3, "kind");
    if (kind == 0) f.enospc_at = pick(0, 200, "enospc_at");
    if (kind == 1) f.write_error_at = pick(0, 200, "write_error_at");
    if (kind == 2) f.close_error = true;
    if (kind == 3) f.open_errno = 13;
    std::string out = p.prefix + "out" + std::to_string(k);
    if (p.ops[k].k == SAVE) out = p.prefix + "model";
    if (p.ops[k].k == SPLIT) out += "0." + std::string(type_of(p.ops[k].out));
    fs::set_fault(out, f);
    sim::fault("write_fault");
  }
}
void c22_memory();
void c22() {
  if (chance(1, 8, "memory")) return c22_memory();
  std::vector<Pipe> ps = gen_pipes(1, 5);
  Pipe& p = ps[0];
  p.prefix = "/simfs/p_";
  bool cut = chance(1, 3, "damaged");
  if (cut)
    for (auto& o : p.ops)
      for (auto& s : o.src)
        if (s.fmt <= BIN && chance(1, 2, "damage")) {
          std::string b = content(s.path);
          if (b.empty()) continue;
          size_t at = (size_t)pick(0, (int64_t)b.size() - 1, "at");
          b[at] = (char)pick(0, 255, "byte");
          fs::put(s.path, b);
          sim::fault("file_damaged");
        }
  write_faults(p);
  // the first time may set up what lasts as long as the process
  sim::quiet_schedule(true);
  execute(&p);
  execute(&p);
  sim::quiet_schedule(false);
  p.result.clear();
  p.result.shrink_to_fit();
  int live0 = sim::live_tasks();
  int again = (int)pick(1, 2, "again");
  sim::leak_baseline();
  for (int i = 0; i < again; ++i) execute(&p);
  p.result.clear();
  p.result.shrink_to_fit();
  size_t leaked = sim::leaked_blocks();
  if (leaked)
    violation("leak", "%zu allocations are left behind (sizes%s)", leaked, sim::leaked_sites().c_str());
  if (sim::live_tasks() != live0) violation("thread-left", "%d threads are left", sim::live_tasks() - live0);
  if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
}
// Memory in use does not grow with the number of samples read.
void c22_memory() {
  Cfg c = gen_cfg();
  GenOpt o = data_opt(c);
  o.min_n = 20;
  o.max_n = 60;
  o.allow_long = false;
  Data d = gen_data(o);
  vary_labels(&d, c);
  int bs, bn;
  gen_shape(6, 4, &bs, &bn);
  Fmt f = (Fmt)pick(0, 4, "format");
  Source s = make_source(d, f, "in");
  size_t row = 0;
  for (auto& x : d) row = std::max(row, x.f.size());
  int what = (int)pick(0, 2, "use");  // iterate, train, test
  int more = (int)pick(8, 30, "passes");
  sim::describe("%s of %s[%zu] x2 and x%d, batch=%d buffers=%d", what == 0 ? "iteration" : what == 1 ? "training" : "test", type_of(f),
                d.size(), more, bs, bn);
  auto use = [&](int passes) {
    s.passes = passes;
    M m = make_model(c);
    Watch w;
    w.attach(m);
    w.p.reserve(64 * 60);
    It it(bs, bn);
    it.load(s);
    if (what == 0) {
      auto& i = *(sol::pario::DataIter*)it.it;
      for (auto* mb = i.Next(nullptr); mb;) mb = i.Next(mb);
    } else if (what == 1) {
      sol_Train(m.m, it.it);
    } else {
      sol_Test(m.m, it.it, nullptr);
    }
  };
  sim::quiet_schedule(true);
  use(2);
  sim::leak_baseline();
  use(2);
  size_t few = sim::peak_bytes();
  sim::leaked_blocks();
  sim::quiet_schedule(false);
  sim::leak_baseline();
  use(more);
  size_t many = sim::peak_bytes();
  sim::leaked_blocks();
  // buffers that happened not to be filled with the longest rows before
  size_t slack = 4096 + 4 * (size_t)bs * bn * (row + 4) * 16;
  if (many > few + slack)
    violation("memory", "%zu bytes in use at most for 2 passes, %zu for %d", few, many, more);
}
sim::Reg r22("C22", c22, 12000);
}  // namespace
