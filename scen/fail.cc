// C08, C15, C20: sources that fail or are damaged.
#include "failing.h"
#include "model.h"

using namespace h;
using sol::pario::DataIter;
using sol::pario::MiniBatch;
namespace fs = sim::fs;

namespace {
struct Part {
  bool failing = false;
  Failing f;
  Source s;
  size_t sure() const { return failing ? f.sure.size() : s.data.size() * s.passes; }
};
std::vector<Part> gen_parts(GenOpt o, int max_pass, bool model) {
  std::vector<Part> v;
  int n = (int)pick(1, 4, "n_sources");
  int bad = (int)pick(0, n - 1, "failing");
  for (int i = 0; i < n; ++i) {
    Part p;
    p.failing = i == bad || chance(1, 3, "failing_too");
    Fmt f = (Fmt)pick(0, p.failing ? 2 : 4, "format");
    GenOpt go = o;
    if (!model) {
      go.wide = f != CSV && f != NPY;
      go.any_label = true;
      go.rich_values = go.full = true;
      go.zeros = go.wide;
    }
    int passes = (int)pick(1, max_pass, "passes");
    Data d = gen_data(go);
    if (p.failing)
      p.f = gen_failing(d, f, "f" + std::to_string(i), passes);
    else {
      p.s = make_source(d, f, "s" + std::to_string(i));
      p.s.passes = passes;
    }
    v.push_back(p);
  }
  return v;
}
// Checks a delivered stream against the parts.  Whether a text record that is
// cut in its file was delivered is left open for each source: the stream is
// right if it fits one of the combinations.
struct Mismatch {
  std::string cls, msg;
  size_t at = 0;
};
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char* f, ...) {
  char b[1500];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof(b), f, ap);
  va_end(ap);
  return b;
}
bool stream_fits(const std::vector<Part>& v, const Data& got, unsigned extra, Mismatch* m) {
  size_t at = 0;
  auto bad = [&](const char* c, const std::string& s) {
    m->cls = c;
    m->msg = s;
    m->at = at;
    return false;
  };
  for (size_t i = 0; i < v.size(); ++i) {
    const Part& p = v[i];
    if (!p.failing) {
      for (int k = 0; k < p.s.passes; ++k)
        for (auto& x : p.s.data) {
          if (at >= got.size())
            return bad("other-source", fmt("an intact source was not delivered completely (%zu samples in all)", got.size()));
          if (!same(got[at], x))
            return bad("other-source", fmt("delivered sample %zu is [%s], expected [%s] of an intact source", at,
                                           str(got[at]).c_str(), str(x).c_str()));
          ++at;
        }
      continue;
    }
    if (p.f.load_fails) continue;
    for (size_t k = 0; k < p.f.sure.size(); ++k, ++at) {
      if (at >= got.size())
        return bad("missing", fmt("only %zu of the %zu readable samples of the failing %s source were delivered", k,
                                  p.f.sure.size(), type_of(p.f.src.fmt)));
      if (!same(got[at], p.f.sure[k]))
        return bad("altered", fmt("sample %zu of the failing %s source (%zu readable): got [%s], expected [%s]", k,
                                  type_of(p.f.src.fmt), p.f.sure.size(), str(got[at]).c_str(),
                                  str(p.f.sure[k]).c_str()));
    }
    if (!(extra >> i & 1)) continue;
    if (at >= got.size()) return bad("missing", "too few samples");
    if (!cut_record_fits(p.f, got[at]))
      return bad("invented", fmt("[%s] was delivered for the record [%s] that is cut in the file", str(got[at]).c_str(),
                                 str(p.f.cut).c_str()));
    ++at;
  }
  if (at != got.size())
    return bad("invented", fmt("%zu samples more than the sources hold were delivered, the first is [%s]",
                               got.size() - at, str(got[at]).c_str()));
  return true;
}
void check_stream(const std::vector<Part>& v, const Data& got, const char* what) {
  unsigned open = 0;
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].failing && !v[i].f.load_fails && v[i].f.partial) open |= 1u << i;
  Mismatch best;
  bool have = false;
  for (unsigned e = open;; e = (e - 1) & open) {
    Mismatch m;
    if (stream_fits(v, got, e, &m)) {
      if (e) sim::probe("cut_text_record_read_as_it_stands");
      return;
    }
    if (!have || m.at >= best.at) best = m;
    have = true;
    if (e == 0) break;
  }
  violation(best.cls.c_str(), "%s: %s", what, best.msg.c_str());
}

// the iterator tells whether a source failed
void check_status(const std::vector<Part>& v, int status, const char* when) {
  bool failed = false, open = false;
  for (auto& p : v) {
    if (!p.failing) {
      if (p.s.data.empty()) open = true;
      continue;
    }
    if (p.f.load_fails) continue;  // reported by AddReader
    if (p.f.kind == 0 || p.f.kind == 1 || p.f.kind == 3 || (p.f.in_record && p.f.src.fmt == BIN))
      failed = true;
    else
      open = true;
  }
  if (failed && status == 0) violation("status", "%s the iterator's status is good, but a source failed", when);
  if (!failed && !open && status != 0) violation("status", "%s the iterator's status is %d, but no source failed", when, status);
  if (failed) sim::probe("failure_in_status");
}
// ---------------------------------------------------------------- C08
void c08_static() {
  GenOpt o;
  o.max_n = 16;
  auto v = gen_parts(o, 2, false);
  int bs, bn;
  gen_shape(9, 4, &bs, &bn);
  sim::describe(" batch=%d buffers=%d", bs, bn);
  Data got;
  int piped = chance(1, 12, "from_stdin") ? (int)pick(0, (int)v.size() - 1, "which") : -1;
  {
    Redirect in;
    DataIter it(bs, bn);
    for (auto& p : v) {
      Source s = p.failing ? p.f.src : p.s;
      if (&p - &v[0] == piped && s.fmt <= BIN) {
        in.from(s.path);
        s.path = "-";
      }
      int r = it.AddReader(s.path, type_of(s.fmt), s.passes);
      if (p.failing && p.f.load_fails) {
        if (r == 0) violation("load", "a csv file whose head cannot be read was loaded");
      } else if (r != 0) {
        violation("load", "loading a source that is readable at its start failed with %d", r);
      }
    }
    got = drain(it, bs);
    if (it.Next(nullptr) != nullptr) violation("end-not-sticky", "a batch was delivered after the end");
    check_status(v, it.status(), "after the end");
    if (chance(1, 3, "load_later")) {
      GenOpt o2 = o;
      Data d = gen_data(o2);
      Source s = random_source(d, "later");
      if (it.AddReader(s.path, type_of(s.fmt), 1) != 0)
        violation("load", "loading after a failed source failed");
      compare(drain(it, bs), d, "other-source", "loaded after a failed source");
      if (!d.empty()) check_status(v, it.status(), "after the end of another source");
    }
  }
  check_stream(v, got, "iteration");
  sim::note_state(fnv_data(got));
  if (fs::open_handles() != 0)
    violation("handle", "%d file(s) left open", fs::open_handles());
}
// the failure begins while the source is being read
void c08_dynamic() {
  GenOpt o;
  o.min_n = 4;
  o.max_n = 30;
  Fmt f = (Fmt)pick(0, 2, "format");
  Data d = gen_data(o);
  Source s = make_source(d, f, "bad");
  s.passes = (int)pick(1, 4, "passes");
  Data before = gen_data(o), after = gen_data(o);
  Source a = random_source(before, "before"), b = random_source(after, "after");
  int bs, bn;
  gen_shape(5, 3, &bs, &bn);
  sim::describe("%s[%zu]x%d fails while being read, batch=%d buffers=%d", fmt_name[f], d.size(), s.passes, bs, bn);
  // many small reads, so that the failure can come in the middle
  fs::Fault slow;
  slow.max_read = pick(1, 32, "max_read");
  fs::set_fault(s.path, slow);
  Data got;
  int status = 0;
  {
    DataIter it(bs, bn);
    for (const Source* x : {&a, &s, &b})
      if (it.AddReader(x->path, type_of(x->fmt), x->passes) != 0)
        violation("load", "loading failed");
    int when = (int)pick(0, 40, "fails_after_batches");
    int pause = (int)pick(0, 60, "pause");
    MiniBatch* mb = nullptr;
    for (int k = 0;; ++k) {
      if (k == when) {
        for (int i = 0; i < pause; ++i) sim::yield_point();
        fs::Fault ft = slow;
        ft.read_error_at = pick(0, (int64_t)fs::get(s.path).size(), "read_error_at");
        fs::set_fault(s.path, ft);
      }
      mb = it.Next(mb);
      if (!mb) break;
      for (int i = 0; i < mb->size(); ++i) got.push_back(copy_sample((*mb)[i]));
    }
    status = it.status();
  }
  Data full = expected({s});
  size_t fixed = before.size() + after.size();
  if (got.size() < fixed || got.size() > fixed + full.size())
    violation("other-source", "%zu samples delivered: the intact sources hold %zu, the failing one %zu",
              got.size(), fixed, full.size());
  size_t n = got.size() - fixed;
  if (n < full.size()) {
    sim::probe("failed_while_being_read");
    if (status == 0) violation("status", "the iterator's status is good, but a source failed");
  }
  compare(Data(got.begin(), got.begin() + before.size()), before, "other-source", "source before");
  compare(Data(got.begin() + before.size(), got.begin() + before.size() + n),
          Data(full.begin(), full.begin() + n), "altered", "source that failed");
  compare(Data(got.begin() + before.size() + n, got.end()), after, "other-source", "source after");
  sim::note_state(fnv_data(got));
}
// a source whose reader thread cannot be started
void c08_thread() {
  GenOpt o;
  o.max_n = 16;
  std::vector<Source> v;
  int n = (int)pick(1, 4, "n_sources"), bad = (int)pick(0, n - 1, "which_thread");
  for (int i = 0; i < n; ++i) {
    Data d = gen_data(o);
    v.push_back(random_source(d, "s" + std::to_string(i)));
    v.back().passes = (int)pick(1, 3, "passes");
  }
  int bs, bn;
  gen_shape(5, 3, &bs, &bn);
  sim::describe("%d sources, the thread of source %d cannot be started, batch=%d buffers=%d", n, bad, bs, bn);
  std::vector<Source> others;
  for (int i = 0; i < n; ++i)
    if (i != bad) others.push_back(v[i]);
  {
    DataIter it(bs, bn);
    for (auto& s : v)
      if (it.AddReader(s.path, type_of(s.fmt), s.passes) != 0) violation("load", "loading failed");
    sim::fail_thread(bad);
    Data got = drain(it, bs);
    sim::fail_thread(-1);
    compare(got, expected(others), "other-source", "sources with a thread");
    if (it.status() == 0) violation("status", "the iterator's status is good, but a source was not read");
    Data d = gen_data(o);
    Source s = random_source(d, "later");
    if (it.AddReader(s.path, type_of(s.fmt), 1) != 0) violation("load", "loading after a failed source failed");
    compare(drain(it, bs), d, "other-source", "loaded after a failed source");
    sim::note_state(fnv_data(got));
  }
  if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
}
void c08() {
  stream_buffers();
  if (chance(1, 12, "no_thread")) return c08_thread();
  if (chance(1, 4, "dynamic"))
    c08_dynamic();
  else
    c08_static();
}
sim::Reg r08("C08", c08, 25000);

// ---------------------------------------------------------------- C15
// inserts a binary record that is nearly well formed; returns where
size_t bad_record(std::string* bytes, const std::vector<size_t>& ends) {
  size_t i = (size_t)pick(0, (int64_t)ends.size(), "record");
  size_t at = std::min(i ? ends[i - 1] : 0, bytes->size());
  uint64_t n = (uint64_t)pick(0, 4, "feats");
  std::string codes;
  for (uint64_t k = 0; k < n; ++k) {
    static const uint64_t t[] = {1, 2, 100, 127, 128, 300, 70000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 0};
    uint64_t v = t[pick(0, 11, "delta")];
    for (; v >= 128; v >>= 7) codes += (char)(v & 127 | 128);
    codes += (char)v;
  }
  switch (pick(0, 4, "code")) {
    case 1:
      if (!codes.empty()) codes.back() |= (char)128;
      break;
    case 2:
      codes += (char)(chance(1, 2, "open") ? 128 : 1);
      break;
    case 3:
      if (!codes.empty()) codes.pop_back();
      break;
    case 4:
      codes.insert(0, (size_t)pick(1, 12, "long_code"), (char)128);
      break;
  }
  uint64_t len = codes.size();
  if (chance(1, 4, "other_length")) len += (uint64_t)pick(0, 4, "by") - 2;
  uint64_t feats = n;
  if (chance(1, 4, "other_number")) feats += (uint64_t)pick(0, 4, "by") - 2;
  std::string r(4, 0);
  r[0] = 1;
  r.append((const char*)&feats, 8);
  if (feats || chance(1, 2, "codes")) {
    r.append((const char*)&len, 8);
    r += codes;
    for (uint64_t k = 0; k < n; ++k) {
      float v = 0.5f * (k + 1);
      r.append((const char*)&v, 4);
    }
  }
  bytes->insert(at, r);
  sim::fault("contradicting_record");
  return at;
}
void c15() {
  stream_buffers();
  GenOpt o;
  o.min_n = 1;
  o.max_n = 14;
  Fmt f = (Fmt)pick(0, 2, "format");
  o.wide = f != CSV;
  o.rich_values = true;
  o.any_label = true;
  o.huge = f == SVM || f == BIN;
  Data d = gen_data(o);
  std::vector<size_t> ends;
  std::string bytes = encode_offsets(d, f, &ends, true, 0);
  size_t head = f == CSV ? bytes.find('\n') + 1 : 0;
  // damage; everything before `from` is intact
  size_t from = bytes.size();
  int n = (int)pick(1, 3, "damages");
  for (int k = 0; k < n; ++k) {
    size_t at;
    if (chance(1, 2, "at_record_start") && !ends.empty()) {
      size_t i = (size_t)pick(0, (int64_t)ends.size() - 1, "record");
      at = (i ? ends[i - 1] : head) + (size_t)pick(0, 28, "offset");
    } else {
      at = (size_t)pick(0, (int64_t)bytes.size(), "at");
    }
    at = std::min(at, bytes.size());
    switch (pick(0, f == CSV ? 7 : 8, "damage")) {
      case 0:  // flipped bit
        if (at < bytes.size()) bytes[at] ^= (char)(1 << pick(0, 7, "bit"));
        break;
      case 1:  // overwritten block
        for (int64_t i = 0, m = pick(1, 16, "len"); i < m && at + i < bytes.size(); ++i)
          bytes[at + i] = (char)pick(0, 255, "byte");
        break;
      case 2:  // lost block
        bytes.erase(at, (size_t)pick(1, 40, "len"));
        break;
      case 3: {  // inserted garbage
        std::string g;
        for (int64_t i = 0, m = pick(1, 16, "len"); i < m; ++i) g += (char)pick(0, 255, "byte");
        bytes.insert(at, g);
        break;
      }
      case 4:  // block of zeros or ones
      {
        char v = chance(1, 2, "ones") ? (char)255 : 0;
        for (int64_t i = 0, m = pick(1, 24, "len"); i < m && at + i < bytes.size(); ++i) bytes[at + i] = v;
        break;
      }
      case 5:  // cut
        bytes.resize(at);
        break;
      case 6: {  // extreme numbers in the text or a huge length in the binary
        static const char* t[] = {"99999999999999999999", "-", "+", ".", "e", "1e99999", "-1e-99999",
                                  ":", "1:", "::", ",,", "nan", "inf", " ", "\t\t", "\r", "0x10",
                                  "-2147483649", "4294967296", "18446744073709551616", "1e", "1e+",
                                  "00000000000000000000000001", "0.00000000000000000000000000000001",
                                  " 0:1", " 3:1 3:2"};
        if (f == BIN) {
          uint64_t v = (uint64_t)1 << pick(0, 63, "shift");
          if (chance(1, 2, "minus_one")) v -= 1;
          for (int i = 0; i < 8 && at + i < bytes.size(); ++i) bytes[at + i] = (char)(v >> (8 * i));
        } else {
          int k = (int)pick(0, 25, "text");
          if (k >= 24 && at < bytes.size()) at = std::min(bytes.find_first_of(" \n", at), bytes.size());
          bytes.insert(at, t[k]);
        }
        break;
      }
      case 7:  // a very long piece of line
        bytes.insert(at, std::string((size_t)(chance(1, 8, "huge") ? pick(5000, 300000, "len") : pick(1, 5000, "len")), f == BIN ? (char)0x80 : "0 :,1.\n"[pick(0, 6, "char")]));
        break;
      case 8: {
        if (f == BIN) {  // a record whose parts contradict each other
          at = bad_record(&bytes, ends);
          break;
        }
        // well formed, with an index that is the bias's or comes twice
        at = bytes.find('\n', at);
        if (at == std::string::npos) at = bytes.size();
        bytes.insert(at, chance(1, 2, "zero") ? " 0:1.5" : " 3:1 3:2");
        break;
      }
    }
    from = std::min(from, at);
  }
  Source bad;
  bad.fmt = f;
  bad.path = std::string("/simfs/damaged.") + fmt_name[f];
  bad.passes = (int)pick(1, 2, "passes");
  fs::put(bad.path, bytes);
  sim::fault("file_damaged");
  if (chance(1, 3, "short_reads")) {
    fs::Fault ft;
    ft.max_read = pick(1, 40, "max_read");
    fs::set_fault(bad.path, ft);
  }
  Data da = gen_data(GenOpt()), db = gen_data(GenOpt());
  Source a = random_source(da, "before"), b = random_source(db, "after");
  int bs, bn;
  gen_shape(5, 3, &bs, &bn);
  sim::describe("damaged %s[%zu]x%d from byte %zu, batch=%d buffers=%d", fmt_name[f], d.size(), bad.passes, from, bs, bn);
  sim::step_cap(100000000);
  size_t bound = da.size() + db.size() + (bytes.size() + 2) * bad.passes;
  Data got;
  bool loaded;
  {
    DataIter it(bs, bn);
    if (it.AddReader(a.path, type_of(a.fmt), 1) != 0) violation("load", "loading failed");
    loaded = it.AddReader(bad.path, type_of(bad.fmt), bad.passes) == 0;
    if (it.AddReader(b.path, type_of(b.fmt), 1) != 0) violation("load", "loading failed");
    MiniBatch* mb = nullptr;
    while ((mb = it.Next(mb)) != nullptr) {
      if (mb->size() > bs) violation("batch-size", "a batch of %d", mb->size());
      for (int i = 0; i < mb->size(); ++i) got.push_back(copy_sample((*mb)[i]));
      if (got.size() > bound) violation("unbounded", "more than %zu samples from %zu bytes", bound, bytes.size());
    }
  }
  if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
  // intact records before the damage
  size_t sure = 0;
  if (loaded && from >= head)
    while (sure < ends.size() && ends[sure] <= from) ++sure;
  if (!loaded && from >= head && head > 0)
    violation("load", "a csv file with an intact head was refused");
  if (got.size() < da.size() + sure + db.size())
    violation("missing", "%zu samples delivered; the intact sources hold %zu, the damaged one %zu before the damage",
              got.size(), da.size() + db.size(), sure);
  compare(Data(got.begin(), got.begin() + da.size()), da, "other-source", "source before");
  compare(Data(got.begin() + da.size(), got.begin() + da.size() + sure), Data(d.begin(), d.begin() + sure),
          "altered", "records before the damage");
  compare(Data(got.end() - db.size(), got.end()), db, "other-source", "source after");
  // what is delivered is well formed
  for (auto& s : got)
    for (size_t i = 1; i < s.f.size(); ++i)
      if (s.f[i].first < s.f[i - 1].first)
        violation("malformed", "a sample with unsorted indexes was delivered: %s", str(s).c_str());
  sim::note_state(fnv_data(got));
  // the bytes alone decide
  if (loaded) {
    sim::fill_byte(0x7e);
    Data again;
    {
      DataIter it(bs, bn);
      if (it.AddReader(bad.path, type_of(bad.fmt), 1) != 0) violation("load", "the file was loaded once, but not again");
      again = drain(it, bs);
    }
    Data before(got.begin() + da.size(), got.end() - db.size());
    if (before.size() > again.size()) before.resize(again.size());
    if (fnv_data(again) != fnv_data(before))  // bit by bit
      violation("not-repeatable", "reading the same file again gives other samples (%zu, %zu before)", again.size(), before.size());
  }
  // used for what it can be used for
  uint32_t top = 0;
  for (auto& s : got)
    if (!s.f.empty()) top = std::max(top, s.f.back().first);
  if (!loaded || top >= 20000) return;
  fs::set_fault(bad.path, fs::Fault());
  if (chance(1, 2, "train")) {
    CfgOpt co;
    co.only_select = chance(1, 3, "select");
    Cfg c = gen_cfg(co);
    sim::describe(" trained with %s", c.text().c_str());
    M m = make_model(c);
    Data more = gen_data(data_opt(c));
    Source first = random_source(more, "first");
    {
      It it(bs, bn);
      it.load(first);
      it.try_load(bad);
      sol_Train(m.m, it.it);
    }
    {
      It it(bs, bn);
      it.try_load(bad);
      sol_Test(m.m, it.it, nullptr);
    }
    std::string path = "/simfs/damaged.model";
    if (sol_SaveModel(m.m, path.c_str()) == 0) {
      M r(sol_RestoreModel(path.c_str()));
      if (r && saved(r) != fs::get(path)) sim::probe("restored_differs");
    }
    if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
  } else {
    Fmt to = (Fmt)pick(0, 2, "convert_to");
    if (to == CSV && top >= 3000) to = SVM;
    sim::describe(" converted to %s", fmt_name[to]);
    std::string out = std::string("/simfs/converted.") + fmt_name[to];
    int r = sol_convert_data(bad.path.c_str(), type_of(f), out.c_str(), type_of(to), 0, 0);
    sol_analyze_data(bad.path.c_str(), type_of(f), "/simfs/report");
    if (fs::open_handles() != 0) violation("handle", "%d file(s) left open", fs::open_handles());
    if (r != 0) return;
    // what the file gives when it is read once
    Data once;
    {
      DataIter it(bs, bn);
      if (it.AddReader(bad.path, type_of(f), 1) == 0) once = drain(it, bs);
    }
    Data back;
    {
      DataIter it(bs, bn);
      if (it.AddReader(out, type_of(to), 1) == 0) back = drain(it, bs);
    }
    // not a number and infinity have no text form that can be read
    if (to != BIN)
      for (auto& s : once)
        for (auto& x : s.f)
          if (!std::isfinite(x.second)) return;
    if (back.size() != once.size())
      violation("converted", "the conversion reports success and holds %zu samples, the file gives %zu", back.size(), once.size());
    for (size_t i = 0; i < back.size(); ++i) {
      auto strip = [&](Sample s) {
        if (to == CSV || f == CSV) {
          std::vector<std::pair<uint32_t, float>> k;
          for (auto& x : s.f)
            if (std::fabs(x.second) > 1e-30f) k.push_back(x);
          s.f = k;
        }
        return s;
      };
      Sample x = strip(back[i]), y = strip(once[i]);
      bool ok = x.label == y.label && x.f.size() == y.f.size();
      for (size_t k = 0; ok && k < x.f.size(); ++k) ok = x.f[k].first == y.f[k].first;
      if (!ok)
        violation("converted", "the conversion reports success, but sample %zu is [%s] in it and [%s] in the file", i,
                  str(back[i]).c_str(), str(once[i]).c_str());
    }
    sim::probe("converted_in_spite_of_damage");
  }
}
sim::Reg r15("C15", c15, 25000);

// ---------------------------------------------------------------- C20
void c20() {
  Cfg c = gen_cfg();
  GenOpt o = data_opt(c);
  o.min_n = 0;
  o.max_n = 14;
  sim::describe("%s", c.text().c_str());
  auto v = gen_parts(o, 2, true);
  int bs, bn;
  gen_shape(6, 3, &bs, &bn);
  Data want;
  // one of the threads cannot be started
  int no_thread = chance(1, 10, "no_thread") ? (int)pick(0, (int)v.size() - 1, "which_thread") : -1, started = 0;
  for (auto& p : v) {
    if (!(p.failing && p.f.load_fails) && started++ == no_thread) continue;
    if (p.failing) {
      if (p.f.load_fails) continue;
      want.insert(want.end(), p.f.sure.begin(), p.f.sure.end());
      if (p.f.partial) {
        // keep the expected data exact: no cut text record
        fs::put(p.f.src.path, encode(p.f.sure, p.f.src.fmt, true, 0));
      }
    } else {
      Data e = expected({p.s});
      want.insert(want.end(), e.begin(), e.end());
    }
  }
  sim::quiet_schedule(true);
  sim::fill_byte(0x3f);
  Ref ref(c);
  ref.feed(want);
  ref.m.on()->EndTrain();
  std::string model = saved(ref.m);
  sim::quiet_schedule(false);
  sim::fill_byte(0xbe);
  M m = make_model(c);
  Watch w;
  w.attach(m);
  float rate;
  {
    It it(bs, bn);
    for (auto& p : v) it.try_load(p.failing ? p.f.src : p.s);
    sim::fail_thread(no_thread);
    rate = sol_Train(m.m, it.it);
    sim::fail_thread(-1);
  }
  if (w.p.empty()) violation("progress", "no progress report at the end of the training");
  if (w.p.back().data != ref.data || w.p.back().update != ref.totals().update ||
      w.p.back().iter != ref.totals().iter)
    violation("totals", "trained on %lld samples with %lld updates, the readable data has %lld samples with %lld updates",
              w.p.back().data, w.p.back().update, ref.data, ref.totals().update);
  if (ref.data && rate != ref.rate())
    violation("error-rate", "error rate %g, the readable data gives %g", rate, ref.rate());
  if (ref.data) {
    std::string got = saved(m);
    if (got != model)
      violation("model", "the model differs from one trained on the readable data, %s", diff(got, model).c_str());
    sim::note_state(fnv_data(want));
    // usable as usual
    if (!c.lazy && chance(1, 2, "train_on")) {
      GenOpt o2 = data_opt(c);
      Data more = gen_data(o2);
      ref.feed(more);
      ref.m.on()->EndTrain();
      It it(bs, bn);
      it.load(random_source(more, "more"));
      sol_Train(m.m, it.it);
      if (saved(m) != saved(ref.m))
        violation("model", "training further after a failing source gives another model, %s",
                  diff(saved(m), saved(ref.m)).c_str());
    }
  }
}
sim::Reg r20("C20", c20, 15000);
}  // namespace
