// C06, C07, C14, C20: training, testing and predicting through the iterator.
#include "model.h"
#include <algorithm>

using namespace h;

namespace {
// What the progress callbacks must report: the totals at the requested sample
// numbers and, once per training call, at its end.
struct Expect {
  const Cfg& c;
  Ref ref;
  size_t show, steps = 1;
  std::vector<Progress> p;
  explicit Expect(const Cfg& cfg) : c(cfg), ref(cfg) {
    show = c.step_show ? c.step_show : c.exp_show;
  }
  void feed(const Data& d) {
    for (auto& s : d) {
      ref.feed(Data(1, s));
      if ((size_t)ref.data >= show) {
        p.push_back(ref.totals());
        ++steps;
        if (c.step_show)
          show += c.step_show;
        else
          show = (size_t)std::pow((double)c.exp_show, (double)steps);
      }
    }
  }
  void end_call() { p.push_back(ref.totals()); }
  std::string model() {
    ref.m.on()->EndTrain();
    return saved(ref.m);
  }
};
void compare_progress(const std::vector<Progress>& got, const std::vector<Progress>& want) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i)
    if (!(got[i] == want[i]))
      violation("progress",
                "progress report %zu is samples=%lld iterations=%lld updates=%lld error=%g, "
                "expected samples=%lld iterations=%lld updates=%lld error=%g",
                i, got[i].data, got[i].iter, got[i].update, got[i].err, want[i].data, want[i].iter,
                want[i].update, want[i].err);
  if (got.size() != want.size())
    violation("progress", "%zu progress reports, expected %zu", got.size(), want.size());
}
bool same_rate(float a, float b) { return a == b || (a != a && b != b); }
void short_reads(const std::vector<Source>& v) {
  for (auto& s : v)
    if (s.fmt <= BIN && chance(1, 4, "short_reads")) {
      sim::fs::Fault f;
      f.max_read = pick(1, 60, "max_read");
      sim::fs::set_fault(s.path, f);
    }
}
void describe(const Cfg& c, const std::vector<Source>& v, int bs, int bn) {
  sim::describe("%s batch=%d buffers=%d", c.text().c_str(), bs, bn);
  for (auto& s : v) sim::describe(" %s[%zu]x%d", type_of(s.fmt), s.data.size(), s.passes);
}
uint64_t hash_str(const std::string& s) {
  uint64_t x = 1469598103934665603ull;
  for (unsigned char c : s) x = (x ^ c) * 1099511628211ull;
  return x;
}
Data model_data(const Cfg& c, int min_n = 1) {
  GenOpt o = data_opt(c);
  o.min_n = min_n;
  if (chance(1, 8, "large_set")) o.max_n = 80;
  bool wide = false;
  for (auto& p : c.params) wide |= p.first == "dim";
  o.mass = !wide;
  if (!wide && chance(1, 60, "huge_set")) {
    o.min_n = 260;
    o.max_n = 420;
    o.max_dim = 5;
  }
  Data d = gen_data(o);
  vary_labels(&d, c);
  return d;
}

// ---------------------------------------------------------------- C06
// Active learning: the entropy decides which samples are learned from; the
// model is that of learning from exactly those.
void c06_active() {
  CfgOpt o;
  o.lazy = o.select = false;
  Cfg c = gen_cfg(o);
  for (size_t i = 0; i < c.params.size();)
    if (c.params[i].first == "exp_show" || c.params[i].first == "step_show")
      c.params.erase(c.params.begin() + i);
    else
      ++i;
  c.params.push_back({"step_show", "1"});
  c.step_show = 1;
  static const char* smooth[] = {"1", "0.1", "5", "1e30"};
  int k = (int)pick(0, 3, "active_smoothness");
  Data d = model_data(c);
  int bs, bn;
  gen_shape(9, 4, &bs, &bn);
  auto src = split_sources(d, 3, "s");
  describe(c, src, bs, bn);
  sim::describe(" active_smoothness=%s", smooth[k]);
  sim::fill_byte(0xbe);
  M m = make_model(c);
  if (sol_SetModelParameter(m.m, "active_smoothness", smooth[k]) != 0)
    violation("parameter", "active_smoothness=%s was refused", smooth[k]);
  Watch w;
  w.attach(m);
  long long t0 = (long long)m.on()->cur_iter_num();
  {
    It it(bs, bn);
    for (auto& s : src) it.load(s);
    sol_Train(m.m, it.it);
  }
  sim::quiet_schedule(true);
  if (w.p.size() != d.size() + 1)
    violation("progress", "%zu progress reports, expected one per sample (%zu) and one at the end", w.p.size(), d.size());
  sim::fill_byte(0x3f);
  Ref ref(c);
  ref.feed(Data());
  size_t skipped = 0;
  for (size_t i = 0; i < d.size(); ++i) {
    long long before = i ? w.p[i - 1].iter : t0, now = w.p[i].iter;
    if (w.p[i].data != (long long)i + 1 || now < before || now > before + 1)
      violation("progress", "progress report %zu: samples=%lld iterations=%lld after %lld", i, w.p[i].data, now, before);
    if (now == before) {
      ++skipped;
      // a sample is queried with probability smoothness / (smoothness + margin)
      float big = 0;
      auto direct = predict_direct(ref.m, Data(1, d[i]));
      for (float x : direct[0].score)
        if (!(std::fabs(x) <= big)) big = std::fabs(x);
      if ((big == 0 && i == 0) || (k == 3 && big < 1e15f))
        violation("query", "sample %zu was not learned from although it is queried with probability one (score %g)", i, big);
      continue;
    }
    ref.feed(Data(1, d[i]));
    if (ref.totals().update != w.p[i].update)
      violation("progress", "%lld updates after sample %zu, learning from the queried samples gives %lld", w.p[i].update, i,
                ref.totals().update);
  }
  if (skipped) sim::probe("active_learning_skipped");
  ref.m.on()->EndTrain();
  sim::note_state(hash_str(saved(m)));  // and finalises
  // the dimension may differ by what was seen and not learned from
  auto got = predict_direct(m, d), want = predict_direct(ref.m, d);
  for (size_t i = 0; i < d.size(); ++i)
    if (!same_pred(got[i], want[i]))
      violation("model", "sample %zu: score %g, learning from the queried samples one by one gives %g", i, got[i].score[0],
                want[i].score[0]);
}
void c06() {
  if (chance(1, 8, "active_learning")) return c06_active();
  Cfg c = gen_cfg();
  Data d = model_data(c);
  bool foreign = c.cls > 2 && chance(1, 5, "foreign_labels");
  if (foreign)
    for (auto& s : d)
      if (chance(1, 4, "foreign")) s.label = chance(1, 2, "negative") ? -(int)pick(1, 50, "label") : c.cls + (int)pick(0, 50, "label");
  int bs, bn;
  gen_shape(9, 4, &bs, &bn);
  auto src = split_sources(d, 3, "s");
  if (chance(1, 4, "passes"))
    for (auto& s : src) s.passes = (int)pick(1, 3, "n_pass");
  describe(c, src, bs, bn);
  // reference
  sim::quiet_schedule(true);
  sim::fill_byte(0x3f);
  Expect e(c);
  e.feed(expected(src));
  e.end_call();
  std::string want = e.model();
  sim::quiet_schedule(false);
  // the same through the iterator
  static const int fills[] = {0x00, 0xbe, 0x7f, 0xff, 0x41};
  sim::fill_byte(fills[pick(0, 4, "memory_content")]);
  short_reads(src);
  M m = make_model(c);
  Watch w;
  w.attach(m);
  float rate;
  {
    It it(bs, bn);
    for (auto& s : src) it.load(s);
    rate = sol_Train(m.m, it.it);
  }
  sim::quiet_schedule(true);
  if (!same_rate(rate, e.ref.rate()))
    violation("error-rate", "training reported error rate %g, one by one gives %g (%lld of %lld)",
              rate, e.ref.rate(), e.ref.err, e.ref.data);
  compare_progress(w.p, e.p);
  std::string got = saved(m);
  sim::note_state(hash_str(got));
  if (got != want)
    violation("model", "the model differs from processing the samples one by one, %s",
              diff(got, want).c_str());
  if (foreign) {
    // labels that are no class teach nothing
    Data seen = expected(src), known;
    for (auto& s : seen)
      if (s.label >= 0 && s.label < c.cls) known.push_back(s);
    Ref r(c);
    r.feed(known);
    r.m.on()->EndTrain();
    long long wrong = (long long)(seen.size() - known.size()) + r.err;
    if (wrong != e.ref.err) violation("foreign-label", "%lld errors counted, the labels that are no class and the others give %lld", e.ref.err, wrong);
    auto a = predict_direct(m, d), b = predict_direct(r.m, d);
    for (size_t i = 0; i < d.size(); ++i)
      if (!same_pred(a[i], b[i]))
        violation("foreign-label", "sample %zu: score %g, without the samples whose label is no class %g", i, a[i].score[0], b[i].score[0]);
    sim::probe("foreign_labels");
  }
}
sim::Reg r06("C06", c06, 20000);

// ---------------------------------------------------------------- C07
void c07() {
  CfgOpt o;
  Cfg c = gen_cfg(o);
  Data d = model_data(c);
  int bs, bn;
  gen_shape(9, 4, &bs, &bn);
  bool probe_between = !c.lazy && chance(1, 2, "use_between");
  sim::describe("%s n=%zu %s", c.text().c_str(), d.size(), probe_between ? "used between" : "");
  // pieces, some repeated
  struct Piece {
    std::vector<Source> src;
    int bs, bn;
    bool same_iter;
    int use;
  };
  std::vector<Piece> pieces;
  int n = (int)pick(1, 4, "pieces");
  size_t at = 0;
  Data all;
  for (int i = 0; i < n; ++i) {
    size_t end = i + 1 == n ? d.size() : (size_t)pick((int64_t)at, (int64_t)d.size(), "cut");
    Piece p;
    p.src = split_sources(Data(d.begin() + at, d.begin() + end), 2,
                          ("p" + std::to_string(i) + "_").c_str());
    for (auto& s : p.src) s.passes = (int)pick(1, 2, "n_pass");
    p.bs = (int)pick(1, 9, "batch_size");
    p.bn = (int)pick(1, 4, "batch_num");
    p.same_iter = i > 0 && chance(1, 3, "same_iterator");
    p.use = probe_between ? (int)pick(0, 4, "use") : 0;
    at = end;
    Data e = expected(p.src);
    all.insert(all.end(), e.begin(), e.end());
    pieces.push_back(p);
  }
  // in one go
  sim::quiet_schedule(true);
  Source whole = make_source(all, BIN, "whole");
  M one = make_model(c);
  Watch w1;
  w1.attach(one);
  float rate1;
  {
    It it(bs, bn);
    it.load(whole);
    rate1 = sol_Train(one.m, it.it);
  }
  std::string want = saved(one);
  sim::quiet_schedule(false);
  // in pieces
  M m = make_model(c);
  Watch w;
  w.attach(m);
  float rate = 0;
  std::unique_ptr<It> it;
  size_t seen = 0;
  for (auto& p : pieces) {
    if (!it || !p.same_iter) it.reset(new It(p.bs, p.bn));
    for (auto& s : p.src) it->load(s);
    short_reads(p.src);
    rate = sol_Train(m.m, it->it);
    seen += expected(p.src).size();
    if (p.use == 0 || seen == 0) continue;
    sim::probe("used_between_training_calls");
    switch (p.use) {
      case 1: {
        It t(2, 2);
        t.load(whole);
        sol_Test(m.m, t.it, nullptr);
        break;
      }
      case 2: {
        It t(3, 1);
        t.load(whole);
        predict_api(m, t, nullptr);
        break;
      }
      case 3:
        saved(m);
        break;
      case 4:
        sol_model_sparsity(m.m);
        break;
    }
  }
  it.reset();
  sim::quiet_schedule(true);
  if (!same_rate(rate, rate1))
    violation("error-rate", "training in pieces ended with error rate %g, in one go %g", rate, rate1);
  if (!(w.p.back() == w1.p.back()))
    violation("totals",
              "training in pieces: samples=%lld iterations=%lld updates=%lld error=%g; in one go "
              "samples=%lld iterations=%lld updates=%lld error=%g",
              w.p.back().data, w.p.back().iter, w.p.back().update, w.p.back().err,
              w1.p.back().data, w1.p.back().iter, w1.p.back().update, w1.p.back().err);
  std::string got = saved(m);
  sim::note_state(hash_str(got));
  if (got != want)
    violation("model", "the model differs from training in one go, %s", diff(got, want).c_str());
}
sim::Reg r07("C07", c07, 12000);

// ---------------------------------------------------------------- C14
std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) {
      v.push_back(s.substr(p) + "<no newline>");
      break;
    }
    v.push_back(s.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
void check_preds(const std::vector<Pred>& got, const std::vector<Pred>& want, const char* what) {
  for (size_t i = 0; i < got.size() && i < want.size(); ++i)
    if (!same_pred(got[i], want[i]))
      violation("prediction", "%s: sample %zu: label %d, predicted %d score %g; expected label %d, predicted %d score %g",
                what, i, got[i].truth, got[i].label, got[i].score[0], want[i].truth, want[i].label,
                want[i].score[0]);
  if (got.size() != want.size())
    violation("prediction", "%s: %zu results for %zu samples", what, got.size(), want.size());
}
// The saved weights say what the scores are: weights times sample, plus bias.
void check_scores(const Cfg& c, const std::string& file, const Data& t, const std::vector<Pred>& got, double* sparsity) {
  size_t zero = 0, all = 0;
  std::string norm = c.name == "alma2" ? "L2" : "";
  for (auto& p : c.params)
    if (p.first == "norm") norm = p.second;
  for (int k = 0; k < c.clf(); ++k) {
    std::string head = "weight[" + std::to_string(k) + "]:";
    size_t p = file.find(head, file.find("model parameters:"));
    if (p == std::string::npos) violation("content", "the saved model has no weights of classifier %d", k);
    std::istringstream in(file.substr(p + head.size(), file.find(']', p + head.size()) - p - head.size()));
    std::string x;
    std::vector<double> w;
    while (in >> x)
      if (x != "[") w.push_back(strtod(x.c_str(), nullptr));
    for (size_t i = 1; i < w.size(); ++i) ++all, zero += w[i] == 0;
    for (size_t i = 0; i < t.size(); ++i) {
      double n = 1, l1 = 0, l2 = 0;
      for (auto& f : t[i].f) l1 += std::fabs(f.second), l2 += (double)f.second * f.second;
      if (norm == "L1" && l1 > 0) n = l1;
      if (norm == "L2" && l2 > 0) n = std::sqrt(l2);
      double sum = w.empty() ? 0 : w[0], mag = std::fabs(sum);
      for (auto& f : t[i].f)
        if (f.first < w.size()) sum += w[f.first] * f.second / n, mag += std::fabs(w[f.first] * f.second / n);
      double is = got[i].score[k];
      if (!std::isfinite(sum) || !std::isfinite(is) || mag > 1e30) continue;
      if (std::fabs(is - sum) > 1e-4 * mag + 1e-30)
        violation("score", "sample %zu: score %g of classifier %d, the saved weights give %g", i, is, k, sum);
    }
  }
  *sparsity = all ? double(zero) / all : -1;
}
void c14() {
  Cfg c = gen_cfg();
  Data d = model_data(c, 0), t = model_data(c, 1);
  if (c.cls > 2 && chance(1, 4, "unknown_labels"))
    for (size_t i = 0; i < t.size(); i += 3) t[i].label = c.cls + (int)i;
  int bs, bn;
  gen_shape(9, 4, &bs, &bn);
  auto src = split_sources(t, 3, "t");
  sim::describe("%s train=%zu test=%zu batch=%d buffers=%d", c.text().c_str(), d.size(), t.size(), bs, bn);
  M m = make_model(c);
  Watch w;
  w.attach(m);
  sim::quiet_schedule(true);
  Source tr = make_source(d, BIN, "train"), none = make_source(Data(), BIN, "none");
  if (!d.empty()) {
    It it(4, 2);
    it.load(tr);
    sol_Train(m.m, it.it);
  }
  // reference: what a restored copy predicts sample by sample
  std::vector<Pred> want;
  std::string model;
  bool finalised_first = chance(1, 2, "save_first");
  Ref ref(c);
  if (!d.empty()) {
    ref.feed(d);
    ref.m.on()->EndTrain();
  }
  want = predict_direct(ref.m, t);
  model = saved(ref.m);
  double sparsity;
  check_scores(c, model, t, want, &sparsity);
  auto check_sparsity = [&](const M& x) {
    float is = sol_model_sparsity(x.m);
    if (sparsity >= 0 && !(std::fabs(is - sparsity) <= 1e-5))
      violation("sparsity", "the sparsity is reported as %g, of the saved weights %g are zero", is, sparsity);
  };
  if (chance(1, 2, "sparsity_first")) check_sparsity(m);
  if (finalised_first && saved(m) != model)
    violation("model", "the trained model differs from the reference, %s", diff(saved(m), model).c_str());
  check_sparsity(ref.m);
  size_t errs = 0;
  for (auto& p : want) errs += p.label != p.truth;
  for (size_t i = 0; i < t.size(); ++i) {
    int truth = c.cls == 2 ? (t[i].label == 1 ? 1 : -1) : t[i].label;
    if (want[i].truth != truth)
      violation("label", "sample %zu with label %d is reported with label %d", i, t[i].label,
                want[i].truth);
    int arg;
    if (c.clf() == 1)
      arg = want[i].score[0] > 0 ? 1 : -1;
    else
      arg = (int)(std::max_element(want[i].score.begin(), want[i].score.end()) - want[i].score.begin());
    if (c.clf() > 1 ? want[i].label != arg : (want[i].score[0] != 0 && want[i].label != arg))
      violation("label", "sample %zu: predicted label %d does not fit the scores (%g ...)", i,
                want[i].label, want[i].score[0]);
  }
  sim::quiet_schedule(false);
  int rounds = (int)pick(1, 3, "rounds");
  for (int r = 0; r < rounds; ++r) {
    short_reads(src);
    It it(bs, bn);
    for (auto& s : src) it.load(s);
    if (chance(1, 2, "predict")) {
      int n = -1;
      auto got = predict_api(m, it, &n);
      check_preds(got, want, "predict");
      if (n != (int)t.size())
        violation("count", "predict returned %d for %zu samples", n, t.size());
    } else {
      bool file = chance(1, 2, "result_file");
      float rate = sol_Test(m.m, it.it, file ? "/simfs/result.txt" : nullptr);
      float expect = float(double(errs) / t.size());
      if (!(std::fabs(rate - expect) <= 1e-6f))
        violation("error-rate", "test reported error rate %g, %zu of %zu samples are wrong", rate,
                  errs, t.size());
      if (file) {
        auto l = lines_of(sim::fs::get("/simfs/result.txt"));
        if (l.size() != t.size() + 1)
          violation("result-file", "the result file has %zu lines for %zu samples", l.size(), t.size());
        for (size_t i = 0; i < t.size(); ++i) {
          std::istringstream in(l[i + 1]);
          int a, b;
          std::string x;
          std::vector<float> sc;
          in >> a >> b;
          while (in >> x) sc.push_back(strtof(x.c_str(), nullptr));
          bool ok = a == want[i].truth && b == want[i].label && sc.size() == want[i].score.size();
          for (size_t k = 0; ok && k < sc.size(); ++k) {
            float p = want[i].score[k];
            if (p != p) continue;
            ok = sc[k] == p || std::fabs(sc[k] - p) <= 1e-4f * std::fabs(p);
          }
          if (!ok)
            violation("result-file", "line %zu of the result file is [%s], expected label %d, prediction %d, score %g",
                      i + 1, l[i + 1].c_str(), want[i].truth, want[i].label, want[i].score[0]);
        }
      }
    }
    // further uses that learn nothing
    int u = (int)pick(0, 3, "between");
    if (u == 1 && !d.empty()) {
      It e(2, 2);
      e.load(none);
      sol_Train(m.m, e.it);
      sim::probe("empty_training_between_tests");
    } else if (u == 2) {
      saved(m);
    } else if (u == 3) {
      sol_model_sparsity(m.m);
    }
  }
  sim::quiet_schedule(true);
  std::string after = saved(m);
  sim::note_state(hash_str(after));
  if (after != model)
    violation("model-changed", "testing or predicting changed the model, %s", diff(after, model).c_str());
}
sim::Reg r14("C14", c14, 12000);
}  // namespace
