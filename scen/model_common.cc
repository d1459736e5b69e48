#include "model.h"

namespace h {
std::string Cfg::text() const {
  std::string s = name + "/" + std::to_string(cls);
  for (auto& p : params) s += " " + p.first + "=" + p.second;
  return s;
}
static const char* kModels[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "sop", "cw",
                                "eccw", "arow", "ada-fobos", "ada-rda", "rda", "rda-l1",
                                "ada-rda-l1", "erda-l1",
                                // lazily regularised
                                "stg", "fobos-l1", "ada-fobos-l1",
                                // selecting
                                "pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
Cfg gen_cfg(const CfgOpt& o) {
  Cfg c;
  int k;
  for (;;) {
    if (o.like) {
      for (k = 0; kModels[k] != o.like->name;) ++k;
      break;
    }
    k = (int)pick(o.only_select ? 19 : 0, 23, "model");
    if (k >= 16 && k < 19 && !o.lazy) k -= 10;
    if (k >= 19 && !o.select) k -= 19;
    break;
  }
  c.name = kModels[k];
  c.lazy = k >= 16 && k < 19;
  c.select = k >= 19;
  if (o.like) c.cls = o.like->cls;
  else c.cls = chance(1, 2, "multiclass") ? (int)pick(3, o.max_cls, "classes") : 2;
  if (!o.like && c.cls > 2 && chance(1, 40, "many_classes")) {
    c.cls = (int)pick(10, 270, "classes");
    sim::step_cap(2000000000);
  }
  const std::string& n = c.name;
  auto one = [](std::initializer_list<const char*> v, const char* l) {
    return std::string(*(v.begin() + pick(0, (int)v.size() - 1, l)));
  };
  auto set = [&](const char* key, std::initializer_list<const char*> v) {
    if (!chance(1, 2, "set_param")) return;
    std::string val = one(v, key), k = key;
    // now and then a smaller value with more digits
    if (k != "k" && k != "p" && k != "B" && chance(1, 6, "odd_value")) {
      char b[32];
      snprintf(b, sizeof(b), "%.*g", (int)pick(3, 8, "digits"), atof(val.c_str()) * (double)pick(1, 99991, "part") / 99991);
      val = b;
    }
    c.params.push_back({key, val});
  };
  bool boolean = n == "perceptron" || n == "sop";
  bool hinge = n == "alma2" || n == "cw" || n == "eccw" || n == "arow" || n == "sofs";
  std::string loss = c.cls == 2 ? "hinge" : "maxscore-hinge";
  if (o.like)
    for (auto& p : o.like->params) {
      if (p.first == "loss") loss = p.second;
      if (p.first == "cost_margin") hinge = true;  // the only loss for cost sensitive learning
    }
  if (chance(1, 2, "set_loss")) {
    std::string l;
    if (c.cls == 2)
      l = boolean ? "bool" : hinge ? "hinge" : one({"hinge", "logistic", "bool"}, "loss");
    else if (boolean)
      l = one({"maxscore-bool", "uniform-bool"}, "loss");
    else if (hinge)
      l = one({"maxscore-hinge", "uniform-hinge"}, "loss");
    else
      l = one({"maxscore-hinge", "uniform-hinge", "maxscore-logistic", "uniform-logistic",
               "maxscore-bool", "uniform-bool"}, "loss");
    c.params.push_back({"loss", l});
  }
  if (n != "alma2" && chance(1, 2, "set_norm")) c.params.push_back({"norm", one({"L2", "L1", "None", "0"}, "norm")});
  set("bias_eta", {"1", "0.5", "0.013", "0"});
  if (chance(1, 5, "set_lazy_update")) c.params.push_back({"lazy_update", one({"true", "false"}, "lazy_update")});
  for (auto& p : c.params)
    if (p.first == "loss") loss = p.second;
  if (c.cls == 2 && loss == "hinge" && !boolean && n != "alma2" && n != "cw" && n != "eccw" &&
      chance(1, 5, "set_cost_margin"))
    c.params.push_back({"cost_margin", one({"2", "0.7", "5"}, "cost_margin")});
  if (chance(1, 5, "set_t")) c.params.push_back({"t", one({"1", "10", "1000"}, "t")});
  if (chance(1, 6, "set_dim")) {
    std::string v = one({"5", "40", "2000"}, "dim");
    c.params.push_back({"dim", c.cls >= 10 ? "40" : v});
  }
  if (n == "ogd" || n == "stg" || n == "fobos-l1" || n == "pet") {
    set("power_t", {"1", "0.5", "0", "0.3"});
    set("eta", {"0.1", "1", "0.037", "3"});
  }
  if (n == "stg" || n == "fobos-l1" || n == "ada-fobos-l1" || n == "rda-l1" || n == "ada-rda-l1" ||
      n == "erda-l1")
    set("lambda", {"0.001", "0.1", "0.5", "0"});
  if (n == "stg") set("k", {"1", "3", "10"});
  if (n == "ada-fobos" || n == "ada-fobos-l1" || n == "ada-rda" || n == "ada-rda-l1" ||
      n == "adafobos-ofs" || n == "adarda-ofs") {
    set("delta", {"1", "0.1", "10"});
    set("eta", {"0.1", "1", "0.037"});
  }
  if (n == "rda" || n == "rda-l1" || n == "erda-l1") set("sigma", {"1", "0.1", "17"});
  if (n == "erda-l1") set("rou", {"0", "0.1", "2"});
  if (n == "pa1" || n == "pa2") set("C", {"0.5", "1", "0.01"});
  if (n == "alma2") {
    set("alpha", {"0.5", "1", "0.9"});
    set("C", {"1", "1.414", "0.3"});
    set("p", {"2", "3"});
    set("k", {"1", "7"});
  }
  if (n == "sop" || n == "cw" || n == "eccw") set("a", {"1", "0.1", "4"});
  if (n == "cw" || n == "eccw") set("phi", {"0.5", "1", "0.2"});
  if (n == "arow" || n == "sofs") set("r", {"1", "0.1", "10"});
  if (n == "pet" || n == "fofs" || n == "sofs" || n == "adafobos-ofs" || n == "adarda-ofs")
    set("B", {"3", "1", "10", "25"});
  if (n == "fofs") {
    set("eta", {"0.1", "1"});
    c.params.push_back({"lambda", one({"0.1", "0.01", "0.5"}, "lambda")});
  }
  if (chance(1, 3, "set_show")) {
    if (chance(1, 2, "exp_show")) {
      c.exp_show = (int)pick(2, 4, "base");
      c.params.push_back({"exp_show", std::to_string(c.exp_show)});
    } else {
      c.step_show = (int)pick(1, 7, "step");
      c.params.push_back({"step_show", std::to_string(c.step_show)});
    }
  }
  return c;
}
GenOpt data_opt(const Cfg& c) {
  GenOpt o;
  o.classes = c.cls;
  o.min_n = 1;
  o.max_n = 24;
  o.max_dim = 14;
  return o;
}
void vary_labels(Data* d, const Cfg& c) {
  if (c.cls != 2) return;
  int neg = (int)pick(0, 2, "negative_label");
  for (auto& s : *d)
    if (s.label != 1) s.label = neg == 0 ? -1 : neg == 1 ? 0 : 2;
}

M make_model(const Cfg& c) {
  M m(sol_CreateModel(c.name.c_str(), c.cls));
  if (!m) violation("create", "creating a %s model for %d classes failed", c.name.c_str(), c.cls);
  for (auto& p : c.params)
    if (sol_SetModelParameter(m.m, p.first.c_str(), p.second.c_str()) != 0)
      violation("parameter", "%s refused %s=%s", c.name.c_str(), p.first.c_str(), p.second.c_str());
  return m;
}

It::It(int b, int n) : it(sol_CreateDataIter(b, n)), bs(b), bn(n) {}
It::~It() { sol_ReleaseDataIter(&it); }
int It::try_load(const Source& s) {
  keep.push_back(s);
  return load_source(it, s);
}
int load_source(void* it, const Source& s) {
  if (s.fmt == NPY && s.arr) {
    long long x, y;
    int r, c, st;
    sscanf(s.path.c_str(), "%lld;%lld;%d;%d;%d", &x, &y, &r, &c, &st);
    npy_intp dims[2] = {r, c}, strides[2] = {st, (npy_intp)sizeof(double)};
    return sol_loadArray(it, (char*)x, (char*)y, dims, strides, s.passes);
  }
  if (s.fmt == CSR && s.arr) {
    ArraySource& a = *s.arr;
    return sol_loadCsrMatrix(it, (char*)a.indices.data(), (char*)a.indptr.data(),
                             (char*)a.feats.data(), s.unlabelled ? nullptr : (char*)a.Y.data(), a.rows,
                             s.passes);
  }
  return sol_LoadData(it, s.path.c_str(), type_of(s.fmt), s.passes);
}
void It::load(const Source& s) {
  int r = try_load(s);
  if (r != 0)
    violation("load-failed", "loading a valid %s source of %zu samples failed with %d",
              type_of(s.fmt), s.data.size(), r);
}

bool operator==(const Progress& a, const Progress& b) {
  return a.data == b.data && a.iter == b.iter && a.update == b.update &&
         (a.err == b.err || (a.err != a.err && b.err != b.err));
}
void Watch::cb(void* u, long long d, long long i, long long n, double e) {
  ((Watch*)u)->p.push_back({d, i, n, e});
}
void Watch::attach(const M& m) { sol_InspectOnlineIteration(m.m, cb, this); }

void fill_point(const Sample& s, sol::pario::DataPoint* p) {
  p->Clear();
  p->set_label(s.label);
  for (auto& f : s.f) p->AddNewFeat(f.first, f.second);
}
Ref::Ref(const Cfg& c) : m(make_model(c)) {
  // algorithms that learn and predict with the same weights
  static const char* same[] = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2", "cw", "eccw", "arow", "ada-fobos", "fofs", "pet"};
  for (auto n : same) plain |= c.name == n;
  // algorithms whose margin may be zero learn nothing from a tie
  static const char* zero[] = {"alma2", "cw", "eccw", "sofs"};
  for (auto n : zero) ties |= c.name == n;
}
void Ref::feed(const Data& d) {
  if (!begun) {
    m.on()->BeginTrain();
    begun = true;
  }
  std::vector<float> buf(m.on()->clf_num());
  for (auto& s : d) {
    sol::pario::DataPoint p;
    fill_point(s, &p);
    m.on()->PreProcess(p);
    ++data;
    // the model as it is now decides whether the sample counts as an error
    int now = 0;
    if (plain) now = m.on()->Predict(p, buf.data());
    long long updates = (long long)m.on()->update_num();
    int said = m.on()->Iterate(p, buf.data());
    if (!ties && said != p.label() && (buf.size() == 1 || (p.label() >= 0 && p.label() < (int)buf.size()))) {
      bool small = true;  // and no NaN
      for (float x : buf) small &= std::fabs(x) < 1000;
      if (small && (long long)m.on()->update_num() != updates + 1)
        violation("not-learned", "sample %lld is predicted as %d instead of %d, but the model does not learn from it", data, said, p.label());
    }
    if (plain && said != now)
      violation("progress", "training counts prediction %d, the model predicts %d", said, now);
    if (said != p.label()) ++err;
  }
}
Progress Ref::totals() const {
  return {data, (long long)m.on()->cur_iter_num(), (long long)m.on()->update_num(),
          (double)rate()};
}
std::string saved(const M& m) {
  std::string path = "/simfs/.saved";
  int r = sol_SaveModel(m.m, path.c_str());
  if (r != 0) violation("save-failed", "saving a model without any fault failed with %d", r);
  std::string s = sim::fs::get(path);
  sim::fs::remove(path);
  return s;
}
bool same_pred(const Pred& a, const Pred& b) {
  if (a.label != b.label || a.truth != b.truth || a.score.size() != b.score.size()) return false;
  for (size_t i = 0; i < a.score.size(); ++i)
    if (!(a.score[i] == b.score[i] || (a.score[i] != a.score[i] && b.score[i] != b.score[i])))
      return false;
  return true;
}
std::vector<Pred> predict_direct(const M& m, const Data& d) {
  std::vector<Pred> v;
  for (auto& s : d) {
    sol::pario::DataPoint p;
    fill_point(s, &p);
    m.on()->PreProcess(p);
    Pred r;
    r.score.resize(m.on()->clf_num());
    r.label = m.on()->Predict(p, r.score.data());
    r.truth = p.label();
    v.push_back(r);
  }
  return v;
}
static void pred_cb(void* u, double truth, double label, int n, float* s) {
  Pred r;
  r.truth = (int)truth;
  r.label = (int)label;
  r.score.assign(s, s + n);
  ((std::vector<Pred>*)u)->push_back(r);
}
std::vector<Pred> predict_api(const M& m, It& it, int* returned) {
  std::vector<Pred> v;
  int n = sol_Predict(m.m, it.it, pred_cb, &v);
  if (returned) *returned = n;
  return v;
}
Source random_source(const Data& d, const std::string& name) {
  return make_source(d, (Fmt)pick(0, 4, "format"), name);
}
std::vector<Source> split_sources(const Data& d, int max_src, const char* tag) {
  std::vector<Source> v;
  int n = (int)pick(1, max_src, "n_sources");
  size_t at = 0;
  for (int i = 0; i < n; ++i) {
    size_t end = i + 1 == n ? d.size() : (size_t)pick((int64_t)at, (int64_t)d.size(), "cut");
    v.push_back(random_source(Data(d.begin() + at, d.begin() + end), tag + std::to_string(i)));
    at = end;
  }
  return v;
}
std::string diff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t s = i > 50 ? i - 50 : 0;
  auto cut = [&](const std::string& x) {
    std::string y = x.substr(std::min(s, x.size()), 110);
    for (auto& c : y)
      if (c == '\n') c = '|';
    return y;
  };
  return "at byte " + std::to_string(i) + ": [" + cut(a) + "] instead of [" + cut(b) + "]";
}
}  // namespace h
