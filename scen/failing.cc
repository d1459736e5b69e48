#include "failing.h"

namespace h {
Failing gen_failing(const Data& d, Fmt f, const std::string& name, int passes) {
  Failing r;
  std::vector<size_t> ends;
  int kind = (int)pick(0, 2, "failure");
  int style = f != BIN && kind != 2 && chance(1, 4, "text_style") ? (int)pick(0, 511, "style") : 0;
  bool nl = kind == 2 || !chance(1, 4, "no_final_newline");
  std::string bytes = encode_offsets(d, f, &ends, nl, style);
  r.src.fmt = f;
  r.src.data = d;
  r.src.path = "/simfs/" + name + "." + fmt_name[f];
  r.src.passes = passes;
  size_t head = 0;
  if (f == CSV) head = bytes.find('\n') + 1;
  if (bytes.empty()) {
    sim::fs::put(r.src.path, bytes);
    return r;
  }
  if (passes > 1 && chance(1, 6, "no_seek")) {  // a pipe: there is no second pass
    r.kind = 3;
    sim::fs::put(r.src.path, bytes);
    sim::fs::Fault ft;
    ft.no_seek = true;
    if (chance(1, 3, "short_reads")) ft.max_read = pick(1, 40, "max_read");
    sim::fs::set_fault(r.src.path, ft);
    r.sure = d;
    sim::describe(" %s[%zu]x%d not seekable", fmt_name[f], d.size(), passes);
    return r;
  }
  r.kind = kind;
  int64_t at;
  if (!ends.empty() && chance(1, 3, "at_boundary")) {
    at = (int64_t)ends[pick(0, (int64_t)ends.size() - 1, "record")] + pick(0, 2, "delta") - 1;
    if (at < 0) at = 0;
    if (at >= (int64_t)bytes.size()) at = (int64_t)bytes.size() - 1;
  } else {
    at = pick(0, (int64_t)bytes.size() - 1, "fails_at");
  }
  size_t n = 0;
  while (n < ends.size() && ends[n] <= (size_t)at) ++n;
  sim::describe(" %s[%zu]x%d %s at %lld of %zu", fmt_name[f], d.size(), passes,
                kind == 0 ? "read error" : kind == 1 ? "one read error" : "ends", (long long)at,
                bytes.size());
  if (kind < 2) {
    sim::fs::put(r.src.path, bytes);
    sim::fs::Fault ft;
    ft.read_error_at = at;
    ft.read_error_sticky = kind == 0;
    if (chance(1, 3, "short_reads")) ft.max_read = pick(1, 40, "max_read");
    sim::fs::set_fault(r.src.path, ft);
    r.load_fails = (size_t)at < head;
    r.sure.assign(d.begin(), d.begin() + n);
    return r;
  }
  sim::fs::put(r.src.path, bytes.substr(0, at));
  sim::fault("file_truncated");
  if (f == CSV && (size_t)at < head) {
    // a shorter head is a head; nothing follows it.  An empty file has none.
    r.load_fails = at == 0;
    return r;
  }
  size_t start = n ? ends[n - 1] : head;
  bool clean = start == (size_t)at;
  r.in_record = !clean;
  if (f != BIN && !clean) {
    r.src.passes = passes = 1;
    r.partial = true;
    r.cut = d[n];
    size_t lab = bytes.find_first_of(f == CSV ? ",\n" : " \n", start);
    r.cut_label = (size_t)at < lab;
  }
  for (int k = 0; k < (clean ? passes : 1); ++k)
    r.sure.insert(r.sure.end(), d.begin(), d.begin() + n);
  return r;
}

bool cut_record_fits(const Failing& f, const Sample& x) {
  bool ok = (f.cut_label || x.label == f.cut.label) && x.f.size() <= f.cut.f.size();
  for (size_t k = 0; ok && k < x.f.size(); ++k) {
    ok = x.f[k].first == f.cut.f[k].first;
    if (ok && k + 1 < x.f.size())
      ok = std::fabs(x.f[k].second - f.cut.f[k].second) <= 1e-5f * std::fabs(f.cut.f[k].second);
  }
  return ok;
}
}  // namespace h
