// C23: settings of a model take effect or are refused without effect.
#include <cmath>
#include "model.h"

using namespace h;
namespace fs = sim::fs;

namespace {
struct Bad {
  std::string name, value;
};
// settings every model of this kind has to refuse
Bad gen_bad(const Cfg& c, const std::string& loss, bool cost) {
  const std::string& n = c.name;
  bool boolean = n == "perceptron" || n == "sop";
  bool hinge = n == "alma2" || n == "cw" || n == "eccw" || n == "arow" || n == "sofs";
  std::vector<Bad> v = {{"no_such_parameter", "1"}, {"bias_eta", "-1"},  {"bias_eta", "abc"}, {"bias_eta", "1e999"},
                        {"t", "-3"},                {"t", "x"},          {"dim", "x"},        {"dim", ""}, {"dim", "-5"},
                        {"active_smoothness", "0"}, {"active_smoothness", "-2"},
                        {"active_smoothness", "q"}, {"cost_margin", "0"}, {"cost_margin", "-1"},
                        {"cost_margin", "x"},       {"exp_show", "x"},   {"step_show", "x"},  {"step_show", ""},
                        {"loss", "nosuch"},         {"loss", ""},        {"norm", "L7"},      {"norm", "9"},
                        {"norm", "99999999999"},    {"norm", "1.5"},     {"norm", "2x"},    {"filter", "/simfs/missing"},
                        {"filter", "/simfs/broken_filter"},              {"filter", "/simfs/unreadable_filter"},
                        {"model", "other"},         {"cls_num", "99"},   {"clf_num", "x"}};
  size_t common = v.size();
  if (c.cls > 2) {
    v.push_back({"cost_margin", "2"});
    v.push_back({"loss", "hinge"});
    v.push_back({"loss", "bool"});
    v.push_back({"loss", "logistic"});
    if (boolean) v.push_back({"loss", "maxscore-hinge"});
    if (boolean || hinge) v.push_back({"loss", "uniform-logistic"});
    if (hinge) v.push_back({"loss", "maxscore-bool"});
  } else {
    v.push_back({"loss", "maxscore-hinge"});
    v.push_back({"loss", "uniform-bool"});
    if (boolean) v.push_back({"loss", "hinge"});
    if (boolean || hinge) v.push_back({"loss", "logistic"});
    if (hinge) v.push_back({"loss", "bool"});
    // cost sensitive learning and other losses exclude each other
    if (boolean || loss != "hinge") v.push_back({"cost_margin", "2"});
    if (cost) {
      v.push_back({"loss", "logistic"});
      v.push_back({"loss", "bool"});
    }
  }
  auto add = [&](const char* name, std::initializer_list<const char*> vals) {
    for (auto x : vals) v.push_back({name, x});
  };
  if (n == "ogd" || n == "stg" || n == "fobos-l1" || n == "pet") {
    add("eta", {"-0.5", "x"});
    add("power_t", {"-1", ""});
  }
  if (n == "stg") add("k", {"0", "-2", "x"});
  if (n.compare(0, 3, "ada") == 0) {
    add("delta", {"0", "-1", "x"});
    add("eta", {"-0.5", "x"});
  }
  if (n == "rda" || n == "rda-l1" || n == "erda-l1") add("sigma", {"0", "-1", "x"});
  if (n == "erda-l1") add("rou", {"-1", "x"});
  if (n == "pa1" || n == "pa2") add("C", {"x"});
  if (n == "alma2") {
    add("alpha", {"0", "1.5", "-1", "x"});
    add("k", {"0", "-1", "x"});
    add("norm", {"L1", "None", "1", "0"});
    add("p", {"x"});
    add("C", {"x"});
  }
  if (n == "sop" || n == "cw" || n == "eccw") add("a", {"x"});
  if (n == "cw" || n == "eccw") add("phi", {"x"});
  if (n == "arow" || n == "sofs") add("r", {"x"});
  if (n == "fofs") {
    add("eta", {"-1", "x"});
    add("lambda", {"-1", "x"});
    add("B", {"0", "x"});
  }
  if (n == "pet" || n == "sofs" || n == "adafobos-ofs" || n == "adarda-ofs") add("B", {"-1", "-0.5", "x", ""});
  if (c.lazy || c.name == "rda-l1" || c.name == "ada-rda-l1" || c.name == "erda-l1") add("lambda", {"x"});
  // those of the algorithm about as often as the common ones
  if (chance(1, 2, "specific")) return v[(size_t)pick((int64_t)common, (int64_t)v.size() - 1, "bad_setting")];
  return v[(size_t)pick(0, (int64_t)common - 1, "bad_setting")];
}
struct Seen {
  std::string s;
  static void cb(void* u, const char* n, const char* v) { ((Seen*)u)->s += std::string(n) + "=" + v + "\n"; }
};
std::string reported(const M& m) {
  Seen s;
  sol_GetModelParameters(m.m, Seen::cb, &s);
  return s.s;
}
// an accepted setting is what the model reports from then on
void check_reported(const M& m, const std::string& k, const std::string& v, bool now) {
  std::string all = reported(m);
  if (all.find("model=") == std::string::npos || all.find("bias_eta=") == std::string::npos)
    violation("reported", "the model reports no settings");
  if (!now && (k == "t" || k == "dim" || m.on()->name() == "alma2")) return;  // these go on with training
  std::string key = "\n" + k + "=";
  all = "\n" + all;
  size_t at = all.find(key);
  if (at == std::string::npos) return;
  at += key.size();
  std::string got = all.substr(at, all.find('\n', at) - at);
  std::string want = v;
  if (k == "norm") want = v == "None" ? "0" : v == "L1" ? "1" : v == "L2" ? "2" : v;
  if (got == want) return;
  char *e1, *e2;
  double a = strtod(got.c_str(), &e1), b = strtod(want.c_str(), &e2);
  bool num = *e1 == 0 && *e2 == 0 && e1 != got.c_str() && e2 != want.c_str();
  if (num && k == "dim" && a >= b) return;
  if (num && std::fabs(a - b) <= 1e-6 * std::fabs(b)) return;
  violation("reported", "%s was set to %s, the model reports %s", k.c_str(), v.c_str(), got.c_str());
}
float train(const M& m, const std::vector<Source>& src, int bs, int bn) {
  It it(bs, bn);
  for (auto& s : src) it.load(s);
  return sol_Train(m.m, it.it);
}
// Settings made between two trainings are in effect in the second one: the same as when
// the model is saved with these settings and restored before the second one.
void c23_later() {
  Cfg c;
  for (;;) {
    c = gen_cfg(CfgOpt());
    bool B = false;
    for (auto& p : c.params) B |= p.first == "B";
    if (!c.lazy && !(c.select && B)) break;
  }
  CfgOpt lo;
  lo.like = &c;
  Cfg l = gen_cfg(lo);
  for (size_t i = 0; i < l.params.size();)
    if (l.params[i].first == "B")
      l.params.erase(l.params.begin() + i);
    else
      ++i;
  Data d1 = gen_data(data_opt(c)), d2 = gen_data(data_opt(c));
  vary_labels(&d1, c);
  vary_labels(&d2, c);
  // pa, cw and others divide by the norm of a sample: a sample without features leaves NaN in
  // members that are not part of the model (see DESIGN.md, notes)
  for (Data* d : {&d1, &d2})
    for (auto& s : *d) {
      bool zero = true;
      for (auto& f : s.f) zero &= f.second == 0;
      if (zero) s.f.assign(1, {1, 1.f});
    }
  int bs, bn;
  gen_shape(6, 3, &bs, &bn);
  auto s1 = split_sources(d1, 2, "a"), s2 = split_sources(d2, 2, "b");
  sim::describe("%s: train[%zu], then", c.text().c_str(), d1.size());
  M m = make_model(c);
  Watch wm, wr;
  wm.attach(m);
  train(m, s1, bs, bn);
  for (auto& p : l.params) {
    sim::describe(" %s=%s", p.first.c_str(), p.second.c_str());
    if (sol_SetModelParameter(m.m, p.first.c_str(), p.second.c_str()) != 0)
      violation("refused", "%s refused %s=%s", c.name.c_str(), p.first.c_str(), p.second.c_str());
    check_reported(m, p.first, p.second, true);
  }
  sim::describe(" train[%zu]", d2.size());
  fs::put("/simfs/model", saved(m));
  M r(sol_RestoreModel("/simfs/model"));
  if (!r) violation("restore", "restoring a complete model failed");
  train(m, s2, bs, bn);
  sim::quiet_schedule(true);
  train(r, s2, 4, 2);
  std::string a = saved(m), b = saved(r);
  if (a != b)
    violation("not-in-effect", "a model with settings changed between two trainings differs from one restored with them, %s",
              diff(a, b).c_str());
  sim::probe("later_settings");
  sim::note_state(std::hash<std::string>()(a));
}
void c23() {
  if (chance(1, 3, "later")) return c23_later();
  CfgOpt co;
  Cfg c = gen_cfg(co);
  fs::put("/simfs/broken_filter", "3\nx\n5\n");
  fs::put("/simfs/unreadable_filter", "3\n4\n5\n");
  fs::Fault f;
  f.read_error_at = 3;
  fs::set_fault("/simfs/unreadable_filter", f);
  fs::put("/simfs/filter", "1\n2\n5\n7\n9\n");
  sim::describe("%s:", c.text().c_str());
  M m(sol_CreateModel(c.name.c_str(), c.cls)), twin(sol_CreateModel(c.name.c_str(), c.cls));
  if (!m || !twin) violation("create", "creating a %s model failed", c.name.c_str());
  Watch wm, wt;
  wm.attach(m);
  wt.attach(twin);
  size_t next = 0;  // of the settings in c.params
  auto bad = [&]() {
    std::string loss = "hinge";
    bool cost = false;
    for (size_t i = 0; i < next; ++i) {
      if (c.params[i].first == "loss") loss = c.params[i].second;
      cost |= c.params[i].first == "cost_margin";
    }
    Bad b = gen_bad(c, loss, cost);
    sim::describe(" refused:%s=%s", b.name.c_str(), b.value.c_str());
    std::string before = reported(m);
    int r = sol_SetModelParameter(m.m, b.name.c_str(), b.value.c_str());
    if (r == 0) violation("accepted", "%s accepted %s=%s", c.name.c_str(), b.name.c_str(), b.value.c_str());
    if (fs::open_handles() != 0) violation("handle", "a refused setting left %d file(s) open", fs::open_handles());
    std::string after = reported(m);
    if (after != before)
      violation("changed", "refusing %s=%s changed what the model reports, %s", b.name.c_str(), b.value.c_str(),
                diff(after, before).c_str());
    sim::probe("refused_setting");
  };
  auto good = [&](const std::string& k, const std::string& v) {
    sim::describe(" %s=%s", k.c_str(), v.c_str());
    int a = sol_SetModelParameter(m.m, k.c_str(), v.c_str()), b = sol_SetModelParameter(twin.m, k.c_str(), v.c_str());
    if (a != b) violation("changed", "after refused settings %s=%s gives status %d, without them %d", k.c_str(), v.c_str(), a, b);
    if (a != 0) violation("refused", "%s refused %s=%s", c.name.c_str(), k.c_str(), v.c_str());
    check_reported(m, k, v, true);
  };
  int bs, bn;
  gen_shape(6, 3, &bs, &bn);
  int steps = (int)pick(2, 9, "steps");
  int done = 0;
  for (int i = 0; i < steps || next < c.params.size(); ++i) {
    if (next < c.params.size() && (i >= steps || chance(1, 2, "set"))) {
      good(c.params[next].first, c.params[next].second);
      ++next;
      continue;
    }
    // the algorithm may be unusable until its settings are complete
    int k = (int)pick(0, 6, "step");
    if (k <= 2) {
      bad();
    } else if (k <= 4 && next == c.params.size()) {
      Data d = gen_data(data_opt(c));
      vary_labels(&d, c);
      auto src = split_sources(d, 2, ("d" + std::to_string(done++)).c_str());
      sim::describe(" train[%zu]", d.size());
      sim::fill_byte(0xbe);
      wm.p.clear();
      wt.p.clear();
      float a = train(m, src, bs, bn);
      sim::fill_byte(0x3f);
      sim::quiet_schedule(true);
      float b = train(twin, src, 4, 2);
      sim::quiet_schedule(false);
      if (!(a == b || (a != a && b != b))) violation("changed", "training error rate %g, without the refused settings %g", a, b);
      if (!(wm.p == wt.p)) violation("changed", "training reports other progress than without the refused settings");
    } else if (k == 5) {
      std::string a = saved(m), b = saved(twin);
      if (a != b) violation("changed", "the model differs from one without the refused settings, %s", diff(a, b).c_str());
      if (done && chance(1, 2, "restart")) {
        fs::put("/simfs/model", a);
        m = M(sol_RestoreModel("/simfs/model"));
        twin = M(sol_RestoreModel("/simfs/model"));
        if (!m || !twin) violation("restore", "restoring a complete model failed");
        wm.attach(m);
        wt.attach(twin);
        sim::describe(" restart");
      }
    } else if (k == 6 && chance(1, 2, "filter")) {
      good("filter", "/simfs/filter");
    }
  }
  if (next == c.params.size() && done == 0) bad();
  for (auto& kv : c.params) {
    std::string last = kv.second;
    for (auto& o : c.params)
      if (o.first == kv.first) last = o.second;
    check_reported(m, kv.first, last, false);
  }
  Data d = gen_data(data_opt(c));
  vary_labels(&d, c);
  auto src = split_sources(d, 2, "last");
  train(m, src, bs, bn);
  sim::quiet_schedule(true);
  train(twin, src, 3, 2);
  std::string a = saved(m), b = saved(twin);
  if (a != b) violation("changed", "the model differs from one without the refused settings, %s", diff(a, b).c_str());
  auto p = predict_direct(m, d), q = predict_direct(twin, d);
  for (size_t i = 0; i < d.size(); ++i)
    if (!same_pred(p[i], q[i]))
      violation("changed", "sample %zu: score %g, without the refused settings %g", i, p[i].score[0], q[i].score[0]);
  sim::note_state(std::hash<std::string>()(a));
}
sim::Reg r23("C23", c23, 20000);
}  // namespace
