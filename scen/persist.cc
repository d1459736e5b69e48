// C10, C11, C12, C19: saving and restoring models, the feature filter.
#include "model.h"
#include <algorithm>
#include <map>

using namespace h;
namespace fs = sim::fs;

namespace {
const char* kPath = "/simfs/model.txt";
uint64_t hash_str(const std::string& s) {
  uint64_t x = 1469598103934665603ull;
  for (unsigned char c : s) x = (x ^ c) * 1099511628211ull;
  return x;
}
Data model_data(const Cfg& c, int min_n) {
  GenOpt o = data_opt(c);
  o.min_n = min_n;
  Data d = gen_data(o);
  vary_labels(&d, c);
  return d;
}
void train(const M& m, const Data& d, const char* name) {
  if (d.empty()) return;
  Source s = make_source(d, BIN, name);
  It it((int)pick(1, 5, "batch_size"), (int)pick(1, 3, "batch_num"));
  it.load(s);
  sol_Train(m.m, it.it);
}
struct Quiet {  // no progress output
  Watch w;
  explicit Quiet(const M& m) { w.attach(m); }
};
typedef std::vector<std::pair<std::string, std::string>> Params;
void par_cb(void* u, const char* n, const char* v) { ((Params*)u)->push_back({n, v}); }
Params params_of(const M& m) {
  Params p;
  sol_GetModelParameters(m.m, par_cb, &p);
  return p;
}
void same_params(const M& a, const M& b, const char* what) {
  Params x = params_of(a), y = params_of(b);
  for (size_t i = 0; i < x.size() && i < y.size(); ++i)
    if (x[i] != y[i])
      violation("parameters", "%s: parameter %s=%s instead of %s=%s", what, x[i].first.c_str(),
                x[i].second.c_str(), y[i].first.c_str(), y[i].second.c_str());
  if (x.size() != y.size())
    violation("parameters", "%s: %zu parameters instead of %zu", what, x.size(), y.size());
}
void same_preds(const std::vector<Pred>& a, const std::vector<Pred>& b, const char* what) {
  for (size_t i = 0; i < a.size(); ++i)
    if (!same_pred(a[i], b[i]))
      violation("prediction", "%s: sample %zu predicted %d score %.9g, the original model gave %d score %.9g",
                what, i, a[i].label, a[i].score[0], b[i].label, b[i].score[0]);
}

// ---------------------------------------------------------------- C10
void c10() {
  Cfg c = gen_cfg();
  Data d = model_data(c, 0);
  sim::describe("%s n=%zu", c.text().c_str(), d.size());
  M m = make_model(c), twin = make_model(c);
  Quiet q(m), q2(twin);
  train(m, d, "a");
  train(twin, d, "b");
  std::string full = saved(twin);
  bool old = chance(1, 2, "old_file");
  if (old) {
    int what = (int)pick(0, 3, "old_content");
    fs::put(kPath, what == 0   ? std::string("old content\n")
                   : what == 1 ? full
                   : what == 2 ? full + full
                               : std::string(full.size() + 500, '7'));
  }
  int tries = (int)pick(1, 3, "tries");
  for (int i = 0; i < tries; ++i) {
    fs::Fault f;
    int kind = (int)pick(0, 8, "fault");
    int64_t n = (int64_t)full.size();
    bool hard = true, disk = false;
    fs::disk_capacity(-1);
    switch (kind) {
      case 0: hard = false; break;
      case 1: f.max_write = pick(1, 200, "max_write"); hard = false; break;
      case 2: f.enospc_at = pick(0, n, "enospc_at"); break;
      case 3: f.write_error_at = pick(0, n, "write_error_at"); f.write_error_once = chance(1, 2, "once"); break;
      case 4: f.close_error = true; break;
      case 5: f.open_errno = chance(1, 2, "which_errno") ? 13 : 28; break;
      case 6:
        f.enospc_at = pick(0, n, "enospc_at");
        f.max_write = pick(1, 200, "max_write");
        break;
      case 7: {  // the whole disk is full, whatever file is written
        int64_t room = n + (fs::exists(kPath) ? 0 : 40) - pick(0, n, "too_small");
        fs::disk_capacity(fs::disk_used() - (int64_t)fs::get(kPath).size() + room);
        disk = true;
        break;
      }
      case 8: f.rename_error = true; disk = true; break;
    }
    if (chance(1, 3, "near_end") && f.enospc_at >= 0) f.enospc_at = n - pick(0, 5, "before_end");
    if (f.enospc_at >= n || f.write_error_at >= n) hard = false;  // the whole file still fits
    if (f.enospc_at < 0 && f.write_error_at < 0 && !f.close_error && !f.open_errno && !disk) hard = false;
    fs::set_fault(kPath, f);
    uint64_t before = fs::hard_errors();
    int r = sol_SaveModel(m.m, kPath);
    if (r == 0 && (!fs::exists(kPath) || fs::get(kPath) != full))
      violation("false-success", "saving reported success, but the file holds %zu of %zu bytes%s",
                fs::exists(kPath) ? fs::get(kPath).size() : 0, full.size(),
                fs::exists(kPath) ? (", " + diff(fs::get(kPath), full)).c_str() : "");
    if (r == 0 && f.close_error && fs::hard_errors() != before)
      violation("false-success", "saving reported success although closing the file failed");
    if (r != 0 && !hard)
      violation("false-error", "saving failed with %d although the storage accepted everything", r);
    if (r != 0) sim::probe("save_reported_error");
    if (fs::open_handles() != 0)
      violation("handle", "saving left %d file(s) open", fs::open_handles());
  }
  fs::clear_faults();
  fs::disk_capacity(-1);
  int r = sol_SaveModel(m.m, kPath);
  if (r != 0) violation("save-after-fault", "saving failed with %d after the fault was gone", r);
  if (fs::get(kPath) != full)
    violation("save-after-fault", "the model saved after the fault differs, %s",
              diff(fs::get(kPath), full).c_str());
  Data t = model_data(c, 1);
  same_preds(predict_direct(m, t), predict_direct(twin, t), "after a failed save");
  if (!c.lazy && chance(1, 2, "train_on")) {
    train(m, t, "c");
    train(twin, t, "d");
    if (saved(m) != saved(twin))
      violation("model", "training after a failed save gives another model, %s",
                diff(saved(m), saved(twin)).c_str());
  }
  sim::note_state(hash_str(full));
}
sim::Reg r10("C10", c10, 20000);

// ---------------------------------------------------------------- C11
void c11() {
  Cfg c = gen_cfg();
  Data d = model_data(c, 0), t = model_data(c, 1);
  sim::describe("%s n=%zu", c.text().c_str(), d.size());
  M m = make_model(c);
  Quiet q(m);
  train(m, d, "a");
  std::string full = saved(m);
  std::vector<Pred> want = predict_direct(m, t);
  bool cut = true;
  int kind = (int)pick(0, 6, "kind");
  std::string old;
  if (kind == 0) {  // cut at a byte
    int64_t n = chance(1, 2, "near_end") ? (int64_t)full.size() - pick(0, std::min<int64_t>(40, full.size()), "before_end")
                                         : pick(0, (int64_t)full.size(), "length");
    fs::put(kPath, full.substr(0, n));
    sim::describe(" cut at %lld of %zu", (long long)n, full.size());
  } else if (kind == 1) {  // crash while saving
    if (chance(1, 2, "old_file")) fs::put(kPath, full);
    int64_t n = pick(0, (int64_t)full.size(), "crash_after");
    fs::crash_after(n);
    sol_SaveModel(m.m, kPath);
    if (fs::crash_taken()) {
      fs::restart_from_crash();
      sim::describe(" crash after %lld bytes", (long long)n);
    }
    if (!fs::exists(kPath)) fs::put(kPath, "");
  } else if (kind == 2) {  // unreadable
    fs::put(kPath, full);
    fs::Fault f;
    f.read_error_at = pick(0, (int64_t)full.size(), "read_error_at");
    if (chance(1, 2, "short")) f.max_read = pick(1, 100, "max_read");
    fs::set_fault(kPath, f);
    sim::describe(" read error at %lld", (long long)f.read_error_at);
  } else if (kind == 3) {  // failed save leaves a part of the file behind
    fs::Fault f;
    f.enospc_at = pick(0, (int64_t)full.size(), "enospc_at");
    fs::set_fault(kPath, f);
    sol_SaveModel(m.m, kPath);
    fs::clear_faults();
    if (!fs::exists(kPath)) fs::put(kPath, "");
    sim::describe(" full at %lld", (long long)f.enospc_at);
  } else if (kind == 4) {  // intact, with short reads: must be restored
    fs::put(kPath, full);
    fs::Fault f;
    f.max_read = pick(1, 100, "max_read");
    fs::set_fault(kPath, f);
    cut = false;
  } else if (kind == 6) {  // the end never reached the disk: zeros in its place
    std::string z = full;
    size_t n = (size_t)pick(0, (int64_t)full.size() - 1, "lost_from");
    for (size_t i = n; i < z.size(); ++i) z[i] = 0;
    fs::put(kPath, z);
    sim::fault("tail_lost");
    sim::describe(" tail lost from %zu of %zu", n, full.size());
  } else {  // cannot be opened at all / does not exist
    if (chance(1, 2, "exists")) {
      fs::put(kPath, full);
      fs::Fault f;
      f.open_errno = 13;
      fs::set_fault(kPath, f);
    }
  }
  std::string content = fs::exists(kPath) ? fs::get(kPath) : "";
  sim::step_cap(100000000);
  M r(sol_RestoreModel(kPath));
  if (fs::open_handles() != 0)
    violation("handle", "restoring left %d file(s) open", fs::open_handles());
  fs::clear_faults();
  if (!r) {
    sim::probe("restore_refused");
    if (!cut) violation("refused", "restoring an intact model file failed");
    return;
  }
  sim::probe("restore_accepted");
  if (r.on()->name() != c.name || r.on()->class_num() != c.cls)
    violation("invented", "restored a %s model for %d classes", r.on()->name().c_str(), r.on()->class_num());
  same_params(r, m, "restored from an incomplete file");
  std::string again = saved(r);
  if (again != full)
    violation("invented", "%zu of %zu bytes were restored to a different model, %s", content.size(),
              full.size(), diff(again, full).c_str());
  same_preds(predict_direct(r, t), want, "restored from an incomplete file");
  sim::note_state(hash_str(again));
}
sim::Reg r11("C11", c11, 25000);

// ---------------------------------------------------------------- C12
void c12() {
  Cfg c = gen_cfg();
  Data d = model_data(c, 0), t = model_data(c, 1), more = model_data(c, 1);
  sim::describe("%s n=%zu", c.text().c_str(), d.size());
  M m = make_model(c);
  Quiet q(m);
  train(m, d, "a");
  if (chance(1, 3, "tested_before")) {
    It it(3, 2);
    it.load(make_source(t, BIN, "t"));
    sol_Test(m.m, it.it, nullptr);
  }
  if (chance(1, 4, "short_writes")) {
    fs::Fault f;
    f.max_write = pick(1, 300, "max_write");
    fs::set_fault(kPath, f);
  }
  if (chance(1, 3, "old_file"))  // of an earlier, larger model
    fs::put(kPath, std::string((size_t)pick(1, 30000, "old_size"), '7'));
  int rr = sol_SaveModel(m.m, kPath);
  if (rr != 0) violation("save-failed", "saving failed with %d", rr);
  std::string full = fs::get(kPath);
  std::vector<Pred> want = predict_direct(m, t);
  // generations of restarts
  int gens = (int)pick(1, 3, "generations");
  for (int g = 0; g < gens; ++g) {
    fs::clear_faults();
    if (chance(1, 3, "short_reads")) {
      fs::Fault f;
      f.max_read = pick(1, 100, "max_read");
      fs::set_fault(kPath, f);
    }
    sim::fill_byte((int)pick(0, 255, "memory_content"));
    M r(sol_RestoreModel(kPath));
    if (!r) violation("refused", "restoring a completely saved model failed");
    fs::clear_faults();
    Quiet q2(r);
    if (r.on()->name() != c.name || r.on()->class_num() != c.cls || r.on()->clf_num() != c.clf())
      violation("kind", "saved %s for %d classes, restored %s for %d classes", c.name.c_str(), c.cls,
                r.on()->name().c_str(), r.on()->class_num());
    if (g == 0) same_params(r, m, "restored");
    same_preds(predict_direct(r, t), want, "restored");
    It it((int)pick(1, 5, "batch_size"), (int)pick(1, 3, "batch_num"));
    it.load(random_source(t, "g" + std::to_string(g)));
    int n = 0;
    auto v = predict_api(r, it, &n);
    if (n != (int)t.size()) violation("prediction", "%d results for %zu samples", n, t.size());
    same_preds(v, want, "restored, through the iterator");
    std::string again = saved(r);
    if (again != full)
      violation("content", "saving the restored model gives a different file, %s", diff(again, full).c_str());
    if (g + 1 == gens) {
      // go on training both
      bool B = false;
      for (auto& p : c.params) B |= p.first == "B";
      if (!c.lazy && !(c.select && B)) {
        sim::fill_byte(0x3f);
        train(m, more, "more");
        sim::fill_byte(0x00);
        train(r, more, "more2");
        std::string a = saved(r), b = saved(m);
        if (a != b)
          violation("train-on", "training the restored model further gives another model than training the original, %s",
                    diff(a, b).c_str());
        sim::probe("trained_after_restore");
      } else {
        train(r, more, "more");
        saved(r);
      }
      if (fs::get(kPath) != full)
        violation("altered", "the saved file changed without a save");
    } else if (chance(1, 2, "save_again")) {
      if (sol_SaveModel(r.m, kPath) != 0) violation("save-failed", "saving the restored model failed");
    }
  }
  sim::note_state(hash_str(full));
}
sim::Reg r12("C12", c12, 20000);

// ---------------------------------------------------------------- C19
Data filtered(const Data& d, const std::set<uint32_t>& keep) {
  Data r;
  for (auto& s : d) {
    Sample x;
    x.label = s.label;
    for (auto& f : s.f)
      if (keep.count(f.first)) x.f.push_back(f);
    r.push_back(x);
  }
  return r;
}
void c19() {
  // algorithms for which a feature of value zero and an absent one are the same
  static const char* names[] = {"perceptron", "ogd", "pa1", "pa2", "arow", "ada-fobos"};
  Cfg c;
  c.name = names[pick(0, 5, "model")];
  c.cls = chance(1, 3, "multiclass") ? 3 : 2;
  if (chance(1, 2, "norm")) c.params.push_back({"norm", chance(1, 2, "l1") ? "L1" : "L2"});
  if (chance(1, 2, "bias")) c.params.push_back({"bias_eta", "0.5"});
  GenOpt o = data_opt(c);
  Data d = gen_data(o), t = gen_data(o);
  // the filter file
  std::set<uint32_t> keep;
  std::string text;
  int n = (int)pick(1, 12, "listed");
  bool long_list = chance(1, 20, "long_list"), spaced = chance(1, 4, "blanks"), dos = chance(1, 6, "crlf");
  if (long_list) n = (int)pick(200, 3000, "listed");
  sim::Rng lr(long_list ? (uint64_t)pick(0, 1 << 20, "list_seed") : 0);
  for (int i = 0; i < n; ++i) {
    uint32_t k = long_list ? 1 + (uint32_t)(lr.next() % 5000) : (uint32_t)pick(1, 20, "index");
    if (!long_list && chance(1, 12, "large_index")) k = (uint32_t)pick(21, 100000, "index");
    keep.insert(k);
    if (long_list) {
      text += std::to_string(k);
      if (spaced) text += "  ";
      text += dos ? "\r\n" : "\n";
      continue;
    }
    if (spaced) text += chance(1, 2, "tab") ? "\t" : "  ";
    if (chance(1, 5, "comment")) text += chance(1, 2, "indent") ? "  # a comment\n" : "# 7\n";
    text += std::to_string(k);
    if (spaced) text += " ";
    if (dos) text += "\r";
    if (i + 1 < n || !chance(1, 3, "no_final_newline")) text += "\n";
  }
  sim::describe("%s filter of %zu", c.text().c_str(), keep.size());
  const char* path = "/simfs/filter.txt";
  int kind = (int)pick(0, 6, "kind");
  bool must_fail = false, must_work = false;
  fs::Fault f;
  std::string bad;
  switch (kind) {
    case 0: must_work = true; break;
    case 1: must_work = true; f.max_read = pick(1, 10, "max_read"); break;
    case 2:  // read error
      f.read_error_at = pick(0, (int64_t)text.size(), "read_error_at");
      if (chance(1, 2, "short")) f.max_read = pick(1, 10, "max_read");
      must_fail = f.read_error_at < (int64_t)text.size();
      sim::describe(" read error at %lld", (long long)f.read_error_at);
      break;
    case 3: f.open_errno = 13; must_fail = true; break;
    case 4: must_fail = true; break;  // no such file
    case 5: {
      // a line that is no index
      static const char* junk[] = {"abc\n", "-3\n", "0\n", "\n", "99999999999999999999\n", "x7\n", "\x01\n", "7 8\n", "7abc\n", "3.5\n",
                                   "4,5,6\n"};
      bad = junk[pick(0, 10, "junk")];
      size_t at = chance(1, 2, "at_start") ? 0 : text.size();
      if (chance(1, 3, "in_the_middle")) at = text.find('\n') + 1;  // 0 if there is none
      if (at && text[at - 1] != '\n') text += "\n", ++at;
      text.insert(at, bad);
      must_fail = true;
      break;
    }
    case 6:
      text = chance(1, 2, "only_comments") ? "# nothing\n" : "";
      must_fail = true;
      break;
  }
  if (kind != 4) fs::put(path, text);
  fs::set_fault(path, f);
  M m = make_model(c), twin = make_model(c);
  Quiet q(m), q2(twin);
  bool had = chance(1, 4, "filter_before");
  if (had) {
    fs::put("/simfs/first.txt", "3\n5\n");
    if (sol_SetModelParameter(m.m, "filter", "/simfs/first.txt") != 0)
      violation("refused", "a valid filter file was refused");
  }
  int r = sol_SetModelParameter(m.m, "filter", path);
  if (fs::open_handles() != 0)
    violation("handle", "loading the filter left %d file(s) open", fs::open_handles());
  if (r == 0 && must_fail)
    violation("accepted", "a filter file that is %s was accepted",
              kind == 2 ? "not completely readable" : kind == 5 ? "malformed" : kind == 6 ? "empty" : "not accessible");
  if (r != 0 && must_work) violation("refused", "a valid filter file was refused with %d", r);
  fs::clear_faults();
  if (r != 0) {
    sim::probe("filter_refused");  // whatever was in force before still is
    keep.clear();
    if (had)
      keep = {3, 5};
    else
      for (auto* v : {&d, &t})
        for (auto& x : *v)
          for (auto& y : x.f) keep.insert(y.first);
  } else {
    sim::probe("filter_in_effect");
  }
  // trains and predicts as if the other features were not there
  train(m, d, "a");
  train(twin, filtered(d, keep), "b");
  It it((int)pick(1, 5, "batch_size"), (int)pick(1, 3, "batch_num"));
  it.load(random_source(t, "t"));
  auto got = predict_api(m, it, nullptr);
  auto want = predict_direct(twin, filtered(t, keep));
  if (got.size() != want.size())
    violation("prediction", "%zu results for %zu samples", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i) {
    bool ok = got[i].label == want[i].label && got[i].truth == want[i].truth;
    for (size_t k = 0; ok && k < got[i].score.size(); ++k) {
      float a = got[i].score[k], b = want[i].score[k];
      ok = a == b || std::fabs(a - b) <= 1e-4f * (std::fabs(a) + std::fabs(b)) + 1e-6f;
    }
    if (!ok)
      violation("effect", "with the filter, sample %zu is predicted %d score %g; without the other features %d score %g",
                i, got[i].label, got[i].score[0], want[i].label, want[i].score[0]);
  }
}
sim::Reg r19("C19", c19, 20000);
}  // namespace
