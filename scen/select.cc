// C24: a feature-selecting model keeps at most B features.
#include <set>
#include <sstream>
#include "model.h"

using namespace h;
namespace fs = sim::fs;

namespace {
// the values saved under a name, summed over the classes (or 1 for each that is not 0)
std::vector<double> read_values(const Cfg& c, const std::string& file, const char* name, bool flags) {
  std::vector<double> sum;
  for (int k = 0; k < c.clf(); ++k) {
    std::string head = std::string(name) + "[" + std::to_string(k) + "]:";
    size_t p = file.find(head, file.find("model parameters:"));
    if (p == std::string::npos) violation("content", "the saved model has no %s of classifier %d", name, k);
    std::istringstream in(file.substr(p + head.size(), file.find(']', p + head.size()) - p - head.size()));
    std::string x;
    size_t i = 0;
    while (in >> x) {
      if (x == "[") continue;
      if (i == sum.size()) sum.push_back(0);
      double v = strtod(x.c_str(), nullptr);
      sum[i++] += flags ? v != 0 : v;
    }
  }
  return sum;
}
std::set<size_t> features_of(const Cfg& c, const std::string& file) {
  std::set<size_t> used;
  auto v = read_values(c, file, "weight", true);
  for (size_t i = 1; i < v.size(); ++i)
    if (v[i] != 0) used.insert(i);
  return used;
}
void c24() {
  CfgOpt co;
  co.only_select = true;
  Cfg c = gen_cfg(co);
  int B = 0;
  for (size_t i = 0; i < c.params.size();)
    if (c.params[i].first == "B")
      c.params.erase(c.params.begin() + i);
    else
      ++i;
  B = (int)pick(1, 8, "keep");
  c.params.push_back({"B", std::to_string(B)});
  sim::describe("%s:", c.text().c_str());
  M m = make_model(c);
  Watch w;
  w.attach(m);
  int limit = B;  // a new number takes effect with the next training
  int steps = (int)pick(1, 6, "steps"), trained = 0;
  int bs, bn;
  gen_shape(6, 3, &bs, &bn);
  GenOpt o = data_opt(c);
  o.max_dim = 30;
  auto check = [&](const char* when) {
    std::string f = saved(m);
    auto u = features_of(c, f);
    if ((int)u.size() > limit)
      violation("selected", "%zu features have weights %s, %d were to be selected", u.size(), when, limit);
    // the second order algorithms keep the features they are most confident of
    bool sigma = c.name == "sofs";
    if (!sigma && c.name != "adafobos-ofs" && c.name != "adarda-ofs") return;
    auto v = read_values(c, f, sigma ? "Sigma" : "H", false);
    for (size_t i : u) {
      int better = 0;
      for (size_t k = 1; k < v.size(); ++k) {
        double eps = 1e-4 * (std::fabs(v[i]) + std::fabs(v[k]));
        better += sigma ? v[k] < v[i] - eps : v[k] > v[i] + eps;
      }
      if (better >= limit)
        violation("not-best", "feature %zu has a weight %s, but %d features have a higher confidence and only %d were to be selected",
                  i, when, better, limit);
    }
    if (!u.empty()) sim::probe("ranked");
  };
  for (int s = 0; s < steps; ++s) {
    int k = (int)pick(0, 6, "step");
    if (k <= 3 || !trained) {
      Data d = gen_data(o);
      vary_labels(&d, c);
      auto src = split_sources(d, 2, ("d" + std::to_string(s)).c_str());
      It it(bs, bn);
      for (auto& x : src) {
        x.passes = (int)pick(1, 3, "passes");
        it.load(x);
      }
      sim::describe(" train[%zu]", d.size());
      sol_Train(m.m, it.it);
      ++trained;
      limit = B;
      if (chance(1, 2, "look")) check("after training");
    } else if (k == 4) {
      fs::put("/simfs/model", saved(m));
      M r(sol_RestoreModel("/simfs/model"));
      if (!r) violation("refused", "restoring a completely saved model failed");
      m = std::move(r);
      w.attach(m);
      sim::describe(" restart");
      check("after a restart");
    } else if (k == 6) {
      B = (int)pick(1, 12, "keep");
      sim::describe(" B=%d", B);
      if (sol_SetModelParameter(m.m, "B", std::to_string(B).c_str()) != 0) violation("refused", "B=%d was refused", B);
      if (B > limit) limit = B;
      sim::probe("number_changed");
    } else {
      Data d = gen_data(o);
      It it(bs, bn);
      it.load(random_source(d, "t" + std::to_string(s)));
      sol_Test(m.m, it.it, nullptr);
      sim::describe(" test");
    }
  }
  check("at the end");
  sim::note_state(std::hash<std::string>()(saved(m)));
}
sim::Reg r24("C24", c24, 20000);
}  // namespace
