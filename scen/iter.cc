// C01..C04, C16: the background-reading data iterator.
#include "common.h"
#include <sanitizer/asan_interface.h>

using namespace h;
using sol::pario::DataIter;
using sol::pario::MiniBatch;

namespace {
std::vector<Source> gen_sources(int max_src, const GenOpt& o, int max_pass) {
  std::vector<Source> v;
  if (chance(1, 12, "many_sources")) max_src = 9;
  if (chance(1, 12, "many_passes")) max_pass = 9;
  int n = (int)pick(1, max_src, "n_sources");
  for (int i = 0; i < n; ++i) {
    Fmt f = (Fmt)pick(0, 4, "format");
    GenOpt go = o;
    go.wide = f != CSV && f != NPY;
    go.any_label = true;
    go.rich_values = go.full = true;
    go.zeros = go.wide;
    go.many = o.many && n <= 4 && max_pass <= 3;
    go.huge = o.huge && f != CSV && f != NPY;
    Data d = gen_data(go);
    Source s = make_source(d, f, "src" + std::to_string(i), true);
    s.passes = (int)pick(1, max_pass, "passes");
    v.push_back(s);
  }
  return v;
}
void add(DataIter& it, const Source& s) {
  int r = chance(1, 2, "c_api") ? load_source(&it, s) : it.AddReader(s.path, type_of(s.fmt), s.passes);
  if (r != sol::Status_OK)
    violation("load-failed", "loading a valid %s source of %zu samples failed with %d",
              type_of(s.fmt), s.data.size(), r);
}
void slow_disk(const std::vector<Source>& v) {
  for (auto& s : v)
    if (s.fmt <= BIN && chance(1, 3, "short_reads")) {
      sim::fs::Fault f;
      f.max_read = pick(1, 40, "max_read");
      sim::fs::set_fault(s.path, f);
    }
}
void desc(const std::vector<Source>& v, int bs, int bn) {
  sim::describe("batch=%d buffers=%d", bs, bn);
  for (auto& s : v)
    sim::describe(" %s[%zu]x%d", type_of(s.fmt), s.data.size(), s.passes);
}

// ---------------------------------------------------------------- C01
void c01() {
  stream_buffers();
  GenOpt o;
  o.huge = o.many = o.mass = true;
  auto src = gen_sources(4, o, 3);
  int bs, bn;
  gen_shape(9, 4, &bs, &bn);
  slow_disk(src);
  desc(src, bs, bn);
  int late = (int)pick(0, (int)src.size(), "late_sources");  // loaded after the first end
  int first = (int)src.size() - late;
  bool keep_last = chance(1, 4, "extra_next");
  Redirect in;
  if (chance(1, 12, "from_stdin")) {
    Source& s = src[pick(0, (int)src.size() - 1, "which")];
    if (s.fmt <= BIN) {
      in.from(s.path);
      s.path = "-";
    }
  }
  DataIter it(bs, bn);
  for (int i = 0; i < first; ++i) add(it, src[i]);
  std::vector<Source> a(src.begin(), src.begin() + first);
  Data got = drain(it, bs);
  compare(got, expected(a), "delivery", "first iteration");
  sim::note_state(fnv_data(got));
  int again = (int)pick(0, 3, "next_after_end");
  for (int i = 0; i < again; ++i) {
    MiniBatch* mb = it.Next(nullptr);
    if (mb != nullptr)
      violation("end-not-sticky", "a batch of %d samples was delivered after the end", mb->size());
  }
  for (int i = first; i < (int)src.size(); ++i) {
    sim::probe("source_added_after_end");
    add(it, src[i]);
    if (chance(1, 2, "drain_each") || i + 1 == (int)src.size()) {
      // everything loaded and not delivered yet
    } else {
      continue;
    }
    Data g2 = drain(it, bs);
    std::vector<Source> b(src.begin() + first, src.begin() + i + 1);
    compare(g2, expected(b), "delivery", "sources loaded after the end");
    first = i + 1;
    if (keep_last && it.Next(nullptr) != nullptr)
      violation("end-not-sticky", "a batch was delivered after the end");
  }
}
sim::Reg r01("C01", c01, 16000);

// ---------------------------------------------------------------- C02
// Progress: each Next returns within a bounded number of steps whatever the
// buffer configuration and however late the consumer returns its batches.
void c02() {
  GenOpt o;
  o.max_n = 16;
  o.many = true;
  auto src = gen_sources(3, o, 3);
  int bs, bn;
  gen_shape(5, 5, &bs, &bn);
  slow_disk(src);
  if (chance(1, 4, "failing_source")) {
    Source& s = src[pick(0, (int)src.size() - 1, "which")];
    if (s.fmt <= BIN) {
      sim::fs::Fault f;
      f.read_error_at = pick(0, (int64_t)sim::fs::get(s.path).size(), "read_error_at");
      f.max_read = 16;
      sim::fs::set_fault(s.path, f);
    }
  }
  desc(src, bs, bn);
  int bs0 = bs, bn0 = bn;  // sizes below one count as one
  if (bs == 1 && chance(1, 4, "no_batch_size")) bs0 = -(int)pick(0, 2, "batch_size_below");
  if (bn == 1 && chance(1, 4, "no_batch_num")) bn0 = -(int)pick(0, 2, "batch_num_below");
  DataIter it(bs0, bn0);
  for (auto& s : src) {
    sim::fs::Fault none;
    int r = it.AddReader(s.path, type_of(s.fmt), s.passes);
    (void)r;
  }
  if (chance(1, 10, "no_thread")) sim::fail_thread((int)pick(0, (int)src.size() - 1, "which_thread"));
  size_t total = 0;
  for (auto& s : src) total += s.data.size() * s.passes + 2 * s.passes + 2;
  // Hold up to bn-1 batches at a time: the reader must always find a free one
  // once the consumer asks again.
  std::deque<MiniBatch*> held;
  int hold = (int)pick(0, bn - 1, "hold");
  uint64_t calls = 0;
  int ends = 0;
  while (ends < 2) {
    MiniBatch* give = nullptr;
    if ((int)held.size() > hold || (!held.empty() && chance(1, 3, "return_one"))) {
      give = held.front();
      held.pop_front();
    }
    sim::step_cap(60000000);
    MiniBatch* mb = it.Next(give);
    if (++calls > total + 10)
      violation("no-end", "the end was not reported after %llu calls", (unsigned long long)calls);
    if (mb) {
      if (ends) violation("end-not-sticky", "a batch was delivered after the end");
      held.push_back(mb);
    } else {
      ++ends;
    }
    if (chance(1, 6, "consumer_pause")) {
      int k = (int)pick(1, 20, "pause");
      for (int i = 0; i < k; ++i) sim::yield_point();
    }
  }
  while (!held.empty()) {
    it.Next(held.front());
    held.pop_front();
  }
  sim::step_cap(60000000);
}
sim::Reg r02("C02", c02, 20000);

// ---------------------------------------------------------------- C03
void c03_body(const std::vector<Source>& src, int bs, int bn, int stop_after, int held_n,
              bool return_all, bool never_start, int pause, int no_thread) {
  sim::fail_thread(no_thread);
  std::deque<MiniBatch*> held;
  {
    std::unique_ptr<DataIter> it(new DataIter(bs, bn));
    for (auto& s : src) it->AddReader(s.path, type_of(s.fmt), s.passes);
    if (!never_start) {
      MiniBatch* mb = nullptr;
      for (int k = 0; k < stop_after; ++k) {
        MiniBatch* give = nullptr;
        if ((int)held.size() > held_n) {
          give = held.front();
          held.pop_front();
        }
        mb = it->Next(give);
        if (!mb) break;
        held.push_back(mb);
      }
    }
    for (int i = 0; i < pause; ++i) sim::yield_point();
    (void)return_all;
    sim::step_cap(60000000);
    it.reset();
    sim::fail_thread(-1);
  }
  // batches the consumer never gave back: free them unless the iterator did
  while (!held.empty()) {
    if (!__asan_address_is_poisoned(held.front())) delete held.front();
    held.pop_front();
  }
}
void c03() {
  GenOpt o;
  o.max_n = 20;
  auto src = gen_sources(4, o, 3);
  int bs, bn;
  gen_shape(5, 4, &bs, &bn);
  slow_disk(src);
  desc(src, bs, bn);
  int stop = (int)pick(0, 14, "stop_after");
  int hold = (int)pick(0, bn - 1, "hold");
  bool never = chance(1, 10, "never_start");
  int pause = (int)pick(0, 12, "pause");
  sim::describe(" stop after %d calls, holding %d%s", stop, hold, never ? ", never started" : "");
  // warm up lazily initialised state, then account for every allocation
  sim::quiet_schedule(true);
  int no_thread = chance(1, 10, "no_thread") ? (int)pick(0, (int)src.size() - 1, "which_thread") : -1;
  c03_body(src, bs, bn, stop, hold, false, never, 0, no_thread);
  sim::quiet_schedule(false);
  int live0 = sim::live_tasks();
  sim::leak_baseline();
  c03_body(src, bs, bn, stop, hold, false, never, pause, no_thread);
  size_t leaked = sim::leaked_blocks();
  if (sim::live_tasks() != live0)
    violation("thread-left", "%d threads are still alive after the iterator was released",
              sim::live_tasks() - live0);
  if (sim::fs::open_handles() != 0)
    violation("file-left-open", "%d files are still open after the iterator was released",
              sim::fs::open_handles());
  if (leaked)
    violation("leak", "%zu allocations survive the release (sizes%s)", leaked,
              sim::leaked_sites().c_str());
}
sim::Reg r03("C03", c03, 20000);

// ---------------------------------------------------------------- C04
void c04() {
  GenOpt o;
  o.min_n = 1;
  auto src = gen_sources(3, o, 2);
  int bs, bn;
  gen_shape(6, 5, &bs, &bn);
  slow_disk(src);
  desc(src, bs, bn);
  DataIter it(bs, bn);
  for (auto& s : src) add(it, s);
  struct Held {
    MiniBatch* mb;
    Data copy;
    int n;
  };
  std::deque<Held> held;
  std::set<MiniBatch*> seen;
  int hold = (int)pick(1, bn, "hold");
  bool lifo = chance(1, 3, "lifo");
  auto verify = [&](const Held& x) {
    if (x.mb->size() != x.n)
      violation("batch-changed", "a batch held by the consumer changed size from %d to %d", x.n,
                x.mb->size());
    for (int i = 0; i < x.n; ++i)
      if (!same(copy_sample((*x.mb)[i]), x.copy[i], 0))
        violation("batch-changed", "sample %d of a batch held by the consumer changed: [%s] -> [%s]",
                  i, str(x.copy[i]).c_str(), str(copy_sample((*x.mb)[i])).c_str());
  };
  Data got;
  bool scribble = chance(1, 2, "consumer_writes");
  bool reshape = scribble && chance(1, 2, "consumer_reshapes");
  for (;;) {
    MiniBatch* give = nullptr;
    if ((int)held.size() >= hold || (!held.empty() && chance(1, 4, "early_return"))) {
      Held x = lifo ? held.back() : held.front();
      if (lifo) held.pop_back(); else held.pop_front();
      verify(x);
      give = x.mb;
    }
    MiniBatch* mb = it.Next(give);
    if (!mb) break;
    for (auto& x : held)
      if (x.mb == mb) violation("batch-shared", "a batch still held by the consumer was delivered again");
    seen.insert(mb);
    if ((int)seen.size() > bn)
      violation("too-many-batches", "%zu different batches delivered, the buffer has %d", seen.size(), bn);
    Held x{mb, Data(), mb->size()};
    for (int i = 0; i < mb->size(); ++i) x.copy.push_back(copy_sample((*mb)[i]));
    got.insert(got.end(), x.copy.begin(), x.copy.end());
    if (scribble) {
      // like normalisation and filtering do
      for (int i = 0; i < mb->size(); ++i) {
        int l = (int)((unsigned)x.copy[i].label + 100u);
        (*mb)[i].set_label(l);
        x.copy[i].label = l;
        if (reshape && i % 3 == 1) {  // another number of features
          (*mb)[i].Clear();
          (*mb)[i].set_label(l);
          x.copy[i].f.clear();
          for (uint32_t k = 1; k <= (uint32_t)(i % 5); ++k) {
            (*mb)[i].AddNewFeat(k * 3, 0.25f);
            x.copy[i].f.push_back({k * 3, 0.25f});
          }
        }
        for (size_t k = 0; k < (*mb)[i].size(); ++k) {
          (*mb)[i].feature(k) *= 2;
          x.copy[i].f[k].second *= 2;
        }
        sim::yield_point();
      }
    }
    held.push_back(x);
    for (auto& y : held) verify(y);
  }
  compare(got, expected(src), "delivery", "while batches were held and modified");
  while (!held.empty()) {
    verify(held.front());
    it.Next(held.front().mb);
    held.pop_front();
  }
}
sim::Reg r04("C04", c04, 12000);

// ---------------------------------------------------------------- C16
void c16() {
  GenOpt o;
  auto src = gen_sources(3, o, 2);
  int bs, bn;
  gen_shape(5, 3, &bs, &bn);
  desc(src, bs, bn);
  DataIter it(bs, bn);
  Data want;
  Data got;
  int rounds = (int)pick(1, 5, "rounds");
  size_t next = 0;
  for (int k = 0; k < rounds; ++k) {
    int nop = (int)pick(1, 4, "ops");
    for (int j = 0; j < nop; ++j) {
      if (next < src.size() && !chance(1, 2, "bad_load")) {
        add(it, src[next]);
        for (int p = 0; p < src[next].passes; ++p)
          want.insert(want.end(), src[next].data.begin(), src[next].data.end());
        ++next;
        continue;
      }
      int kind = (int)pick(0, 5, "bad_kind");
      std::string path = "/simfs/src0.svm", type = "svm";
      sim::fs::Fault f;
      if (kind == 0) path = "/simfs/missing";
      else if (kind == 1) { type = "no_such_type"; }
      else if (kind == 2) {
        path = "/simfs/denied";
        sim::fs::put(path, "1 1:1\n");
        f.open_errno = pick(0, 1, "errno") ? 24 : 13;
        sim::fs::set_fault(path, f);
      } else if (kind == 3) {
        path = "/simfs/empty.csv";
        type = "csv";
        sim::fs::put(path, "");
      } else if (kind == 5) {  // no array address
        static const char* a[] = {"", "1;2;3", "x;y;1;1;8", "1;2;3;4;five", "99999999999999999999999;0;1;1;8", "/simfs/src0.svm"};
        type = chance(1, 2, "csr") ? "csr_matrix" : "numpy";
        int which = (int)pick(0, 10, "address");
        if (which < 6) {
          path = a[which];
        } else {  // one part of a good address is spoilt
          static const double x[4] = {1, 2, 3, 4};
          static const int ptr[3] = {0, 2, 4}, ind[4] = {0, 1, 0, 1};
          std::string part[5] = {std::to_string((long long)x), std::to_string((long long)x), "2", "2", "16"};
          if (type != "numpy") {
            part[0] = std::to_string((long long)ind);
            part[1] = std::to_string((long long)ptr);
            part[2] = part[3] = std::to_string((long long)x);
            part[4] = "2";
          }
          std::string& p = part[which - 6];
          int how = (int)pick(0, 3, "spoil");
          if (how == 0) p = "";
          else if (how == 1) p += "x";
          else if (how == 2) p = "x" + p;
          else p = "9999999999999999999999";
          path = part[0];
          for (int i = 1; i < 5; ++i) path += ";" + part[i];
        }
      } else {
        path = "/simfs/unreadable.csv";
        type = "csv";
        sim::fs::put(path, "class,v1\n1,2\n");
        f.read_error_at = pick(0, 5, "eio_in_header");
        sim::fs::set_fault(path, f);
      }
      if (kind == 1 && !sim::fs::exists(path)) sim::fs::put(path, "1 1:1\n");
      sim::probe("failed_load");
      int before = sim::fs::open_handles();
      int r = it.AddReader(path, type, (int)pick(1, 2, "passes"));
      if (r == sol::Status_OK)
        violation("bad-load-accepted", "loading %s as %s reported success", path.c_str(), type.c_str());
      if (sim::fs::open_handles() > before)
        violation("file-left-open", "a failed load leaves %d files open",
                  sim::fs::open_handles() - before);
    }
    if (chance(2, 3, "drain")) {
      Data g = drain(it, bs);
      got.insert(got.end(), g.begin(), g.end());
      compare(got, want, "delivery", "with failed loads in between");
    }
  }
  Data g = drain(it, bs);
  got.insert(got.end(), g.begin(), g.end());
  compare(got, want, "delivery", "with failed loads in between");
}
sim::Reg r16("C16", c16, 20000);
}  // namespace
