// Shared by the scenarios that train, test, save and restore models.
#pragma once
#include "common.h"
#include <sol/c_api.h>
#include <sol/model/online_model.h>

namespace h {
struct Cfg {
  std::string name;
  int cls = 2;
  std::vector<std::pair<std::string, std::string>> params;
  bool lazy = false;    // regularisation applied when a feature is next seen
  bool select = false;  // keeps only the B best features
  bool random = false;  // active learning: decisions drawn at random
  int step_show = 0, exp_show = 2;
  int clf() const { return cls == 2 ? 1 : cls; }
  std::string text() const;
};
struct CfgOpt {
  bool lazy = true, select = true, only_select = false;
  const Cfg* like = nullptr;  // other settings for the same algorithm and classes
  int max_cls = 5;
};
Cfg gen_cfg(const CfgOpt& o = CfgOpt());
GenOpt data_opt(const Cfg& c);
// labels as a user may write them for a binary problem (1 / anything else)
void vary_labels(Data* d, const Cfg& c);

// A model handle of the C API, released at the end.
struct M {
  void* m = nullptr;
  M() {}
  explicit M(void* p) : m(p) {}
  M(M&& o) : m(o.m) { o.m = nullptr; }
  M& operator=(M&& o) {
    if (m) sol_ReleaseModel(&m);
    m = o.m;
    o.m = nullptr;
    return *this;
  }
  M(const M&) = delete;
  ~M() {
    if (m) sol_ReleaseModel(&m);
  }
  sol::model::OnlineModel* on() const { return (sol::model::OnlineModel*)m; }
  explicit operator bool() const { return m != nullptr; }
};
M make_model(const Cfg& c);

struct It {
  void* it = nullptr;
  int bs, bn;
  std::vector<Source> keep;  // arrays must outlive the iterator
  It(int bs, int bn);
  ~It();
  It(const It&) = delete;
  // must succeed
  void load(const Source& s);
  int try_load(const Source& s);
};

struct Progress {
  long long data, iter, update;
  double err;
};
bool operator==(const Progress& a, const Progress& b);
struct Watch {  // collects progress callbacks
  std::vector<Progress> p;
  static void cb(void* u, long long d, long long i, long long n, double e);
  void attach(const M& m);
};

// Reference: the samples one by one, without iterator or threads.
struct Ref {
  M m;
  long long data = 0, err = 0;
  bool begun = false, plain = false, ties = false;
  explicit Ref(const Cfg& c);
  void feed(const Data& d);
  float rate() const { return float(err) / data; }
  Progress totals() const;
};
void fill_point(const Sample& s, sol::pario::DataPoint* p);
// content of the file a save of this model writes (with a quiet disk)
std::string saved(const M& m);
// label and scores for each sample, predicted directly
struct Pred {
  int label, truth;
  std::vector<float> score;
};
bool same_pred(const Pred& a, const Pred& b);
std::vector<Pred> predict_direct(const M& m, const Data& d);
// through sol_Predict
std::vector<Pred> predict_api(const M& m, It& it, int* returned);
std::vector<Source> split_sources(const Data& d, int max_src, const char* tag);
std::string diff(const std::string& a, const std::string& b);
Source random_source(const Data& d, const std::string& name);
}  // namespace h
