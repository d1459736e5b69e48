#include "common.h"
#include <sys/mman.h>
#include <cstring>

namespace h {
const char* fmt_name[5] = {"svm", "csv", "bin", "numpy", "csr_matrix"};
const char* type_of(Fmt f) { return fmt_name[f]; }

Data gen_data(const GenOpt& o) {
  Data d;
  bool many = o.many && chance(1, 16, "many_samples");
  bool mass = o.mass && chance(1, 400, "mass");
  int n = many ? (int)pick(100, 700, "n_samples") : (int)pick(o.min_n, o.max_n, "n_samples");
  if (mass) {
    static const int size[] = {1050, 10100, 32800, 65600};
    n = size[pick(0, 3, "mass_n")] + (int)pick(0, 400, "mass_more");
    many = true;
    sim::step_cap(2000000000);
  }
  int dim = (int)pick(1, mass ? 2 : many ? 6 : o.max_dim, "dim");
  uint64_t s = (uint64_t)pick(0, 1 << 20, "content");
  bool rich = o.rich_values && chance(1, 2, "rich_values");
  bool big = o.wide && chance(1, 3, "wide_indexes");
  bool labels = o.any_label && chance(1, 3, "any_label");
  int longrow = -1;
  if (o.allow_long && !many && n > 0 && chance(1, 10, "long_row")) longrow = (int)pick(0, n - 1, "which_long");
  bool zeros = o.zeros && chance(1, 6, "zero_values");
  bool huge = o.huge && longrow >= 0 && chance(1, 12, "huge_row");
  sim::Rng r(s * 77 + 5);
  for (int i = 0; i < n; ++i) {
    Sample x;
    if (o.classes == 2)
      x.label = r.below(2) ? 1 : -1;
    else
      x.label = (int)r.below(o.classes);
    if (labels) {
      static const int v[] = {0, 1, -1, 2, 7, -13, 100, 65536, -99999, 2147483647, -2147483647};
      x.label = v[r.below(11)];
    }
    int want = 1 + (int)r.below(std::min(dim, 12));
    int maxd = dim;
    if (i == longrow) {
      want = 700 + (int)r.below(600);
      maxd = 1500;
      if (huge) {
        want = 6000 + (int)r.below(12000);
        maxd = 30000;
        if (r.below(5) == 0) {
          want = 90000;  // more than 65536 different ones
          maxd = 200000;
        }
      }
    }
    if (o.allow_empty_rows && r.below(12) == 0) want = 0;
    std::set<uint32_t> idx;
    for (int k = 0; k < want; ++k) {
      uint32_t j = 1 + (uint32_t)r.below(maxd);
      if (big) {
        static const uint32_t edge[] = {127, 128, 129, 16383, 16384, 16385, 2097151, 2097152,
                                        268435455, 268435456, 2147483646, 2147483647, 2147483648u,
                                        4294967293u};
        if (r.below(3) == 0) j = edge[r.below(14)];
        else if (r.below(3) == 0) j = 1 + (uint32_t)(r.next() >> (32 + r.below(31))) % 4294967293u;
      }
      idx.insert(j);
    }
    for (uint32_t k : idx) {
      if (zeros && r.below(4) == 0) {
        x.f.push_back({k, 0.f});
        continue;
      }
      if (rich && o.full && r.below(3) == 0) {
        int e = (int)r.below(r.below(4) ? 20 : 90) - (int)r.below(r.below(4) ? 20 : 90);
        float v = std::ldexp(1.f + (float)r.below(1 << 23) / (1 << 23), e);
        x.f.push_back({k, r.below(2) ? -v : v});
        continue;
      }
      if (rich) {
        char b[48];
        int m = 1 + (int)r.below(r.below(2) ? 99 : 999999);
        int e = (int)r.below(r.below(3) ? 7 : 24) - (int)r.below(r.below(3) ? 8 : 24);
        if (r.below(12) == 0) e = r.below(2) ? 28 + (int)r.below(5) : -30 - (int)r.below(7);
        snprintf(b, sizeof(b), "%s%de%d", r.below(2) ? "-" : "", m, e);
        x.f.push_back({k, strtof(b, nullptr)});
        continue;
      }
      int v = (int)r.below(400) - 200;
      if (v == 0) v = 7;
      x.f.push_back({k, v * 0.5f});
    }
    d.push_back(x);
  }
  return d;
}

void gen_shape(int max_size, int max_num, int* bs, int* bn) {
  if (chance(1, 8, "large_batches")) max_size = 300;
  if (chance(1, 8, "many_buffers")) max_num = 12;
  *bs = (int)pick(1, max_size, "batch_size");
  *bn = (int)pick(1, max_num, "batch_num");
}
bool same(const Sample& a, const Sample& b, float tol) {
  if (a.label != b.label || a.f.size() != b.f.size()) return false;
  for (size_t i = 0; i < a.f.size(); ++i) {
    if (a.f[i].first != b.f[i].first) return false;
    float x = a.f[i].second, y = b.f[i].second;
    if (!(std::fabs(x - y) <= tol * std::fabs(y))) return false;
  }
  return true;
}
std::string str(const Sample& s) {
  std::ostringstream o;
  o << s.label;
  for (size_t i = 0; i < s.f.size() && i < 6; ++i) o << " " << s.f[i].first << ":" << s.f[i].second;
  if (s.f.size() > 6) o << " ..." << s.f.size() << " features";
  return o.str();
}

static void put_bytes(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }

// the text of a value; several spellings of the same number
static void num(char* b, size_t n, float v, int style, sim::Rng& r) {
  if ((style & FIXED) && std::fabs(v) < 1e6f && std::fabs(v) > 1e-6f)
    snprintf(b, n, "%.*f", std::fabs(v) < 0.01f ? 14 : 6 + (int)r.below(5), v);
  else if ((style & FIXED) && r.below(2))
    snprintf(b, n, "%.7E", v);
  else
    snprintf(b, n, "%.7g", v);
  if (strtof(b, nullptr) != v) snprintf(b, n, "%.9g", v);
  if ((style & PLUS) && b[0] != '-' && r.below(4) == 0) {
    memmove(b + 1, b, strlen(b) + 1);
    b[0] = '+';
  }
}
// an integer, as a power of ten where that is one
static std::string integer(long long v, int style, sim::Rng& r) {
  char b[48];
  std::string sign = v < 0 ? "-" : (style & PLUS) ? "+" : "";
  unsigned long long a = v < 0 ? -(unsigned long long)v : (unsigned long long)v;
  if ((style & SCI) && a > 9 && r.below(2)) {
    const char* e[] = {"e", "E", "e+", "E+"};
    const char* x = e[r.below(4)];
    if (a % 10 == 0) {
      int k = 0;
      while (a % 10 == 0 && k < 5) a /= 10, ++k;
      snprintf(b, sizeof(b), "%llu%s%d", a, x, k);
    } else {
      snprintf(b, sizeof(b), "%llu.%llu%s1", a / 10, a % 10, x);
    }
    return sign + b;
  }
  snprintf(b, sizeof(b), "%llu", a);
  return sign + b;
}
// trailing blanks up to a length at which a line just fits into a buffer, or
// just does not
static void pad_line(std::string& s, size_t start, sim::Rng& r) {
  size_t len = s.size() - start, to = (size_t)512 << r.below(6);
  to = to * (1 + r.below(2)) - 3 + r.below(5);
  if (len < to) s.append(to - len, ' ');
}
std::string encode_offsets(const Data& d, Fmt f, std::vector<size_t>* ends, bool nl, int style) {
  std::string s;
  char b[64];
  sim::Rng r(d.size() * 31 + style);
  const char* eol = (style & CRLF) ? "\r\n" : "\n";
  size_t padded = (style & PAD) && !d.empty() ? (size_t)r.below(d.size()) : d.size();
  if (ends) ends->clear();
  if (f == CSV) {
    uint32_t dim = 0;
    for (auto& x : d)
      if (!x.f.empty()) dim = std::max(dim, x.f.back().first);
    s = "class";
    for (uint32_t i = 1; i <= dim; ++i) {
      snprintf(b, sizeof(b), ",v%u", i);
      s += b;
    }
    s += eol;
    for (size_t k = 0; k < d.size(); ++k) {
      size_t start = s.size();
      if ((style & LEAD) && r.below(3) == 0) s += r.below(2) ? " " : "\t ";
      s += integer(d[k].label, style, r);
      size_t i = 0;
      for (uint32_t j = 1; j <= dim; ++j) {
        float v = 0;
        if (i < d[k].f.size() && d[k].f[i].first == j) v = d[k].f[i++].second;
        num(b, sizeof(b), v, style, r);
        s += (style & AROUND) && r.below(8) == 0 ? " , " : ",";
        s += b;
      }
      if (k == padded) pad_line(s, start, r);
      if (nl || k + 1 < d.size()) s += eol;
      if (ends) ends->push_back(s.size());
    }
    return s;
  }
  for (size_t k = 0; k < d.size(); ++k) {
    const Sample& x = d[k];
    if (f == SVM) {
      size_t start = s.size();
      if ((style & LEAD) && r.below(3) == 0) s += r.below(2) ? " " : "\t ";
      s += integer(x.label, style, r);
      auto fs = x.f;
      if (style & UNSORTED)
        for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[r.below(i)]);
      for (auto& p : fs) {
        s += (style & SPACES) && r.below(4) == 0 ? "\t  " : " ";
        s += integer(p.first, style & ~PLUS, r);
        s += (style & AROUND) && r.below(8) == 0 ? " : " : ":";
        num(b, sizeof(b), p.second, style, r);
        s += b;
      }
      if ((style & SPACES) && r.below(4) == 0) s += "  ";
      if (k == padded) pad_line(s, start, r);
      if (nl || k + 1 < d.size()) s += eol;
    } else {
      int32_t l = x.label;
      uint64_t n = x.f.size();
      put_bytes(s, &l, 4);
      put_bytes(s, &n, 8);
      if (n) {
        std::string c;
        uint32_t last = 0;
        for (auto& p : x.f) {
          uint32_t g = p.first - last;
          last = p.first;
          while (g >= 128) {
            c.push_back((char)((g & 127) | 128));
            g >>= 7;
          }
          c.push_back((char)g);
        }
        uint64_t cl = c.size();
        put_bytes(s, &cl, 8);
        s += c;
        for (auto& p : x.f) put_bytes(s, &p.second, 4);
      }
    }
    if (ends) ends->push_back(s.size());
  }
  return s;
}
std::string encode(const Data& d, Fmt f, bool nl, int style) {
  return encode_offsets(d, f, nullptr, nl, style);
}

bool decode(const std::string& s, Fmt f, Data* out) {
  out->clear();
  if (f == BIN) {
    size_t p = 0;
    while (p < s.size()) {
      Sample x;
      int32_t l;
      uint64_t n, cl;
      if (p + 12 > s.size()) return false;
      memcpy(&l, &s[p], 4);
      memcpy(&n, &s[p + 4], 8);
      p += 12;
      x.label = l;
      if (n) {
        if (p + 8 > s.size()) return false;
        memcpy(&cl, &s[p], 8);
        p += 8;
        if (cl > s.size() - p || n > s.size()) return false;
        size_t q = p, e = p + cl;
        uint32_t last = 0;
        while (q < e) {
          uint64_t v = 0;
          int sh = 0;
          while (q < e && (s[q] & 128)) {
            v |= (uint64_t)(s[q++] & 127) << sh;
            sh += 7;
          }
          if (q == e) return false;
          v |= (uint64_t)(unsigned char)s[q++] << sh;
          last += (uint32_t)v;
          x.f.push_back({last, 0.f});
        }
        p = e;
        if (x.f.size() != n || n * 4 > s.size() - p) return false;
        for (auto& y : x.f) {
          memcpy(&y.second, &s[p], 4);
          p += 4;
        }
      }
      out->push_back(x);
    }
    return true;
  }
  size_t p = 0;
  bool first = true;
  while (p < s.size()) {
    size_t e = s.find('\n', p);
    if (e == std::string::npos) return false;  // a writer always ends the line
    std::string line = s.substr(p, e - p);
    p = e + 1;
    if (f == CSV && first) {
      first = false;
      if (line.compare(0, 5, "class") != 0) return false;
      continue;
    }
    Sample x;
    const char* c = line.c_str();
    char* q;
    x.label = (int)strtol(c, &q, 10);
    if (q == c) return false;
    c = q;
    uint32_t col = 1;
    while (*c) {
      if (f == CSV) {
        if (*c != ',') return false;
        ++c;
        float v = strtof(c, &q);
        if (q == c) return false;
        c = q;
        if (v != 0) x.f.push_back({col, v});
        ++col;
      } else {
        while (*c == ' ') ++c;
        if (!*c) break;
        unsigned long i = strtoul(c, &q, 10);
        if (q == c || *q != ':') return false;
        c = q + 1;
        float v = strtof(c, &q);
        if (q == c) return false;
        c = q;
        x.f.push_back({(uint32_t)i, v});
      }
    }
    out->push_back(x);
  }
  return f != CSV || !first;
}

struct Far {
  static const size_t size = (size_t)5 << 30;
  void* p;
  Far() {
    p = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) p = nullptr;
  }
  ~Far() {
    if (p) munmap(p, size);
  }
};
Source make_source(const Data& d, Fmt f, const std::string& name, bool unlabelled) {
  Source s;
  s.fmt = f;
  s.data = d;
  if (f <= BIN) {
    s.path = "/simfs/" + name + "." + fmt_name[f];
    int style = f != BIN && chance(1, 3, "text_style") ? (int)pick(0, 511, "style") : 0;
    sim::fs::put(s.path,
                 encode(d, f, d.empty() || f == BIN || !chance(1, 4, "no_final_newline"), style));
  } else {
    s.arr.reset(new ArraySource);
    ArraySource& a = *s.arr;
    a.rows = (int)d.size();
    uint32_t dim = 1;
    for (auto& x : d)
      if (!x.f.empty()) dim = std::max(dim, x.f.back().first);
    a.cols = (int)dim;
    for (auto& x : d) a.Y.push_back(x.label);
    const double* y = a.Y.data();
    if (unlabelled && chance(1, 3, "unlabelled")) {
      y = nullptr;
      s.unlabelled = true;
      for (auto& x : s.data) x.label = 0;
    }
    char b[160];
    std::shared_ptr<Far> far_hold;
    if (f == NPY) {
      int pad = (int)pick(0, 2, "row_padding");
      a.X.assign((size_t)(dim + pad) * d.size() + 1, 0.0);
      for (size_t i = 0; i < d.size(); ++i) {
        for (auto& p : d[i].f) a.X[i * (dim + pad) + p.first - 1] = p.second;
        for (int k = 0; k < pad; ++k) a.X[i * (dim + pad) + dim + k] = 999;
      }
      int stride = (int)((dim + pad) * sizeof(double));
      double* first = a.X.data();
      // now and then an array of more than 2 GB (address space only), like big[::100000]
      bool far = unlabelled && a.rows > 1 && a.rows < 8 && chance(1, 12, "far_rows");
      if (far) {
        far_hold = std::make_shared<Far>();
        if (far_hold->p) {
          stride = (int)(far_hold->size / a.rows) & ~7;
          if (far_hold->size / a.rows > 0x7ffffff0u) stride = 0x7ffffff0;
          for (size_t i = 0; i < d.size(); ++i)
            memcpy((char*)far_hold->p + i * (size_t)stride, &a.X[i * (dim + pad)], (dim + pad) * sizeof(double));
          first = (double*)far_hold->p;
          a.far = far_hold;
          sim::probe("far_rows");
        }
      } else
      if (a.rows > 1 && chance(1, 6, "reversed_rows")) {  // like X[::-1]
        for (size_t i = 0; i < d.size() / 2; ++i)
          for (size_t k = 0; k < dim + pad; ++k)
            std::swap(a.X[i * (dim + pad) + k], a.X[(d.size() - 1 - i) * (dim + pad) + k]);
        first += (d.size() - 1) * (dim + pad);
        stride = -stride;
      }
      snprintf(b, sizeof(b), "%lld;%lld;%d;%d;%d", (long long)first, (long long)y, a.rows, a.cols, stride);
    } else {
      int off = (int)pick(0, 3, "indptr_base");
      a.indptr.push_back(off);
      bool unsorted = chance(1, 4, "unsorted_rows");
      sim::Rng ur(d.size() * 7 + 3);
      for (auto& x : d) {
        auto row = x.f;
        if (unsorted)
          for (size_t i = row.size(); i > 1; --i) std::swap(row[i - 1], row[ur.below(i)]);
        for (auto& p : row) {
          a.indices.push_back((int)p.first - 1);
          a.feats.push_back(p.second);
        }
        a.indptr.push_back(off + (int)a.indices.size());
      }
      a.indices.push_back(0);
      a.feats.push_back(0);
      snprintf(b, sizeof(b), "%lld;%lld;%lld;%lld;%d", (long long)a.indices.data(),
               (long long)a.indptr.data(), (long long)a.feats.data(), (long long)y,
               a.rows);
    }
    s.path = b;
  }
  return s;
}

void Redirect::from(const std::string& path) {
  in = stdin;
  stdin = fopen(path.c_str(), "r");
  if (!stdin) violation("harness", "cannot open standard input");
  sim::probe("standard_input");
}
void Redirect::to(const std::string& path) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) violation("harness", "cannot open standard output");
  out = stdout;
  stdout = f;
  sim::probe("standard_output");
}
Redirect::~Redirect() {
  if (in) {
    fclose(stdin);
    stdin = in;
  }
  if (out) {
    fclose(stdout);
    stdout = out;
  }
}
Sample copy_sample(const sol::pario::DataPoint& p) {
  Sample s;
  s.label = p.label();
  s.f.reserve(p.size());
  for (size_t i = 0; i < p.size(); ++i) s.f.push_back({p.index(i), p.feature(i)});
  return s;
}

Data expected(const std::vector<Source>& src) {
  Data d;
  for (auto& s : src)
    for (int k = 0; k < s.passes; ++k) {
      size_t at = d.size();
      d.insert(d.end(), s.data.begin(), s.data.end());
      for (; s.fmt >= BIN && at < d.size(); ++at) d[at].exact = true;
    }
  return d;
}

Data drain(sol::pario::DataIter& it, int batch_size, int* calls) {
  Data d;
  sol::pario::MiniBatch* mb = nullptr;
  for (;;) {
    mb = it.Next(mb);
    if (calls) ++*calls;
    if (!mb) break;
    if (mb->size() < 0 || mb->size() > batch_size)
      violation("batch-size", "a batch holds %d samples, the batch size is %d", mb->size(),
                batch_size);
    for (int i = 0; i < mb->size(); ++i) d.push_back(copy_sample((*mb)[i]));
  }
  return d;
}

void compare(const Data& got, const Data& want, const char* cls, const char* what) {
  size_t n = std::min(got.size(), want.size());
  for (size_t i = 0; i < n; ++i)
    if (!same(got[i], want[i], want[i].exact ? 0 : 1e-6f))
      violation(cls, "%s: sample %zu of %zu differs: got [%s], expected [%s]", what, i,
                want.size(), str(got[i]).c_str(), str(want[i]).c_str());
  if (got.size() != want.size())
    violation(cls, "%s: %zu samples delivered, %zu expected", what, got.size(), want.size());
}
uint64_t fnv_data(const Data& d) {
  uint64_t hsh = 1469598103934665603ull;
  for (auto& s : d) {
    hsh = (hsh ^ (uint64_t)s.label) * 1099511628211ull;
    for (auto& p : s.f) {
      uint32_t u;
      memcpy(&u, &p.second, 4);
      hsh = (hsh ^ p.first) * 1099511628211ull;
      hsh = (hsh ^ u) * 1099511628211ull;
    }
  }
  return hsh;
}
void stream_buffers() {
  if (!chance(1, 4, "stream_buffers")) return;
  int n = chance(1, 2, "tiny") ? (int)pick(1, 32, "buffer_size") : (int)pick(33, 600, "buffer_size");
  sim::fs::stdio_buffer(n);
  sim::describe("stream buffers of %d;", n);
  sim::fault("small_stream_buffer");
}
}  // namespace h
