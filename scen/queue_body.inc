// C05: the blocking queue, checked as a linearizable bounded FIFO.
// Included by queue.cc (pthread build) and queue_std.cc (std::thread build).
#include <algorithm>
#include <thread>
#include <vector>
#include <cstring>
#include "../sim/sim.h"
#include <sol/util/block_queue.h>

namespace {
using sim::chance;
using sim::pick;
using sim::violation;
struct Obj {
  int a;
};
typedef sol::BlockQueue<Obj*> Q;
struct Ev {  // one element of one operation
  uint64_t inv, resp;
  int op, pos;
  Obj* v;
};
struct Op {
  int kind;  // 0 single, 1 list, 2 list with force
  int n;
};
const char* kind_name[] = {"single", "list", "force-list"};
Obj* val(int p, int i) { return (Obj*)(uintptr_t)(16 * (1 + p * 1000 + i)); }

// TryDequeue where the queue has it
template <typename T>
auto try_deq(T& q, Obj** o, int) -> decltype(q.TryDequeue(*o), 1) {
  return q.TryDequeue(*o) ? 1 : 0;
}
template <typename T>
int try_deq(T&, Obj**, long) {
  return -1;
}

bool before(const Ev& a, const Ev& b) {
  if (a.op == b.op) return a.pos < b.pos;
  return a.resp < b.inv;
}

void c05_body(const char* variant) {
  int cap = (int)pick(1, 5, "capacity");
  int np = (int)pick(1, 3, "producers"), nc = (int)pick(1, 3, "consumers");
  bool poison = chance(1, 3, "end_marker");
  int maxops = (int)pick(1, 4, "ops_per_producer");
  std::vector<std::vector<Op>> prod(np), cons(nc);
  int total = 0;
  std::vector<int> count(np, 0);
  for (int p = 0; p < np; ++p) {
    int k = (int)pick(1, maxops, "ops");
    for (int i = 0; i < k; ++i) {
      Op o{(int)pick(0, 1, "enq_kind"), 1};
      if (o.kind) o.n = (int)pick(0, 6, "enq_n");
      count[p] += o.n;
      prod[p].push_back(o);
    }
    total += count[p];
  }
  // what fits may stay inside: the producers return all the same
  int keep = !poison && chance(1, 2, "some_stay") ? (int)pick(0, std::min(cap, total), "stay") : 0;
  // quotas
  std::vector<int> quota(nc, 0);
  for (int i = 0; i < total - keep; ++i) quota[i % nc] += 1;
  if (nc > 1 && chance(1, 2, "uneven")) {
    int k = (int)pick(0, quota[0], "shift");
    quota[0] -= k;
    quota[nc - 1] += k;
  }
  std::vector<uint64_t> cseed(nc);
  for (int c = 0; c < nc; ++c) cseed[c] = (uint64_t)pick(0, 1 << 16, "consumer_plan");
  sim::describe("%s capacity=%d producers=%d consumers=%d elements=%d stay=%d%s", variant, cap, np, nc,
                total, keep, poison ? " end-marker" : "");

  Q q(cap);
  if (q.capacity() != cap) violation("queue", "capacity() is %d, not %d", q.capacity(), cap);
  std::vector<Ev> enq, deq;
  std::vector<std::vector<Ev>> enq_t(np), deq_t(nc + 1);
  auto run_p = [&](int p) {
    int i = 0, opn = 0;
    for (Op o : prod[p]) {
      uint64_t a = sim::event_seq();
      std::vector<Obj*> xs;
      for (int k = 0; k < o.n; ++k) xs.push_back(val(p, i++));
      if (o.kind == 0)
        q.Enqueue(xs[0]);
      else
        q.Enqueue(xs.data(), o.n);
      uint64_t b = sim::event_seq();
      for (int k = 0; k < o.n; ++k) enq_t[p].push_back({a, b, p * 1000 + opn, k, xs[k]});
      ++opn;
    }
  };
  auto run_c = [&](int c) {
    sim::Rng r(cseed[c] * 7 + 3);
    int left = quota[c], opn = 0;
    bool end = false;
    while (poison ? !end : left > 0) {
      int kind = (int)r.below(3);
      bool poll = r.below(6) == 0;
      int want = kind ? 1 + (int)r.below(5) : 1;
      if (!poison) want = std::min(want, left);
      std::vector<Obj*> xs(want + 1, (Obj*)(uintptr_t)8);
      uint64_t a = sim::event_seq();
      int got = 1;
      if (poll && try_deq(q, xs.data(), 0) == 1)
        want = 1, kind = 0, xs[1] = (Obj*)(uintptr_t)8;
      else if (kind == 0)
        xs[0] = q.Dequeue();
      else if (kind == 1 && (opn & 1))
        got = q.Dequeue(xs.data(), want);
      else
        got = q.Dequeue(xs.data(), want, kind == 2);
      uint64_t b = sim::event_seq();
      if (got < 1 || got > want)
        violation("queue", "a %s dequeue of %d returned %d elements", kind_name[kind], want, got);
      if (xs[want] != (Obj*)(uintptr_t)8)
        violation("queue", "a dequeue of %d wrote behind its %d elements", want, want);
      if (kind == 2 && got < want) {
        bool has_null = false;
        for (int k = 0; k < got; ++k) has_null |= xs[k] == nullptr;
        if (!has_null)
          violation("queue", "a forced dequeue of %d returned %d elements without an end marker",
                    want, got);
      }
      int nulls = 0;
      for (int k = 0; k < got; ++k) {
        if (xs[k] == nullptr)
          ++nulls;
        else
          deq_t[c].push_back({a, b, c * 1000 + opn, k, xs[k]});
      }
      if (!poison && nulls) violation("queue", "a null element was dequeued, none was enqueued");
      for (int k = 1; k < nulls; ++k) q.Enqueue(nullptr);  // meant for another consumer
      if (nulls) end = true;
      left -= got;
      ++opn;
    }
  };
  std::vector<std::thread> tp, tc;
  bool consumers_first = chance(1, 2, "consumers_first");
  if (consumers_first)
    for (int c = 0; c < nc; ++c) tc.emplace_back(run_c, c);
  for (int p = 0; p < np; ++p) tp.emplace_back(run_p, p);
  if (!consumers_first)
    for (int c = 0; c < nc; ++c) tc.emplace_back(run_c, c);
  for (auto& t : tp) t.join();
  if (poison)
    for (int c = 0; c < nc; ++c) q.Enqueue(nullptr);
  for (auto& t : tc) t.join();
  if (q.size() != keep || q.empty() != (keep == 0)) violation("queue", "%d elements inside, %d expected", q.size(), keep);
  for (int i = 0; i < keep; ++i) {
    uint64_t a = sim::event_seq();
    Obj* o = q.Dequeue();
    uint64_t b = sim::event_seq();
    deq_t[nc].push_back({a, b, nc * 1000 + i, 0, o});
  }
  if (q.size() != 0 || !q.empty()) violation("queue", "%d elements left, none expected", q.size());

  for (auto& v : enq_t) enq.insert(enq.end(), v.begin(), v.end());
  for (auto& v : deq_t) deq.insert(deq.end(), v.begin(), v.end());
  auto by_v = [](const Ev& a, const Ev& b) { return a.v < b.v; };
  std::sort(enq.begin(), enq.end(), by_v);
  std::sort(deq.begin(), deq.end(), by_v);
  for (size_t i = 1; i < deq.size(); ++i)
    if (deq[i].v == deq[i - 1].v) violation("queue", "element %p was dequeued twice", (void*)deq[i].v);
  if (enq.size() != deq.size())
    violation("queue", "%zu elements enqueued, %zu dequeued", enq.size(), deq.size());
  for (size_t i = 0; i < enq.size(); ++i) {
    if (enq[i].v != deq[i].v)
      violation("queue", "element %p was dequeued but never enqueued, or lost", (void*)deq[i].v);
    if (deq[i].resp < enq[i].inv)
      violation("queue", "element %p was dequeued before it was enqueued", (void*)deq[i].v);
  }
  for (size_t i = 0; i < enq.size(); ++i)
    for (size_t j = 0; j < enq.size(); ++j)
      if (i != j && before(enq[i], enq[j]) && before(deq[j], deq[i]))
        violation("fifo-order",
                  "element %p was enqueued before %p but dequeued after it (enqueue [%llu,%llu] "
                  "[%llu,%llu], dequeue [%llu,%llu] [%llu,%llu])",
                  (void*)enq[i].v, (void*)enq[j].v, (unsigned long long)enq[i].inv,
                  (unsigned long long)enq[i].resp, (unsigned long long)enq[j].inv,
                  (unsigned long long)enq[j].resp, (unsigned long long)deq[i].inv,
                  (unsigned long long)deq[i].resp, (unsigned long long)deq[j].inv,
                  (unsigned long long)deq[j].resp);
  // never more than `cap` elements inside
  for (size_t k = 0; k < enq.size(); ++k) {
    uint64_t t = enq[k].resp;
    int inside = 0;
    for (size_t i = 0; i < enq.size(); ++i)
      if (enq[i].resp <= t && deq[i].inv > t) ++inside;
    if (inside > cap) violation("capacity", "%d elements in a queue of capacity %d", inside, cap);
  }
  uint64_t h = 0;
  std::sort(deq.begin(), deq.end(), [](const Ev& a, const Ev& b) {
    return a.resp != b.resp ? a.resp < b.resp : a.pos < b.pos;
  });
  for (auto& e : deq) h = sim::mix(h, (uint64_t)(uintptr_t)e.v);
  sim::note_state(h);

  // alone, no operation may wait whose condition holds (a wait would be a deadlock)
  {
    Q s(cap);
    std::vector<Obj*> ref;
    int steps = (int)pick(0, 12, "solo_steps"), made = 0;
    for (int k = 0; k < steps; ++k) {
      int room = cap - (int)ref.size();
      int op = (int)pick(0, 6, "solo");
      if (op == 6) {
        Obj* o = (Obj*)(uintptr_t)8;
        int r = try_deq(s, &o, 0);
        if (r >= 0 && r != (ref.empty() ? 0 : 1))
          violation("queue", "alone: TryDequeue from %zu elements returned %s", ref.size(), r ? "true" : "false");
        if (r == 1) {
          if (o != ref[0]) violation("fifo-order", "alone: %p was dequeued, %p is the first", (void*)o, (void*)ref[0]);
          ref.erase(ref.begin());
        }
      }
      if (op == 0 && room) {
        ref.push_back(val(9, made++));
        s.Enqueue(ref.back());
      } else if (op == 1) {
        int n = (int)pick(0, room, "solo_n");
        std::vector<Obj*> xs;
        for (int i = 0; i < n; ++i) xs.push_back(chance(1, 5, "solo_null") ? nullptr : val(9, made++));
        ref.insert(ref.end(), xs.begin(), xs.end());
        s.Enqueue(xs.data(), n);
      } else if (op == 2 && !ref.empty()) {
        Obj* o = s.Dequeue();
        if (o != ref[0]) violation("fifo-order", "alone: %p was dequeued, %p is the first", (void*)o, (void*)ref[0]);
        ref.erase(ref.begin());
      } else if (op >= 3 && op <= 5 && !ref.empty()) {
        int lim = (int)ref.size() + 3;
        if (op == 5) {
          // a forced removal need not wait for more than is there or what follows a null
          size_t nul = std::find(ref.begin(), ref.end(), nullptr) - ref.begin();
          if (nul == ref.size()) lim = (int)ref.size();
        }
        int want = (int)pick(1, lim, "solo_want");
        std::vector<Obj*> xs(want + 1, (Obj*)(uintptr_t)8);
        if (op == 5) {
          // behind a null the call may go on or stop, but it may not wait: leave nothing to wait for
          size_t nul = std::find(ref.begin(), ref.end(), nullptr) - ref.begin();
          if (nul + 1 < ref.size() && want > (int)ref.size()) want = (int)ref.size();
        }
        int got = op == 3 ? s.Dequeue(xs.data(), want) : s.Dequeue(xs.data(), want, op == 5);
        if (got < 1 || got > want || got > (int)ref.size())
          violation("queue", "alone: a dequeue of %d from %zu elements returned %d", want, ref.size(), got);
        for (int i = 0; i < got; ++i)
          if (xs[i] != ref[i]) violation("fifo-order", "alone: %p was dequeued, %p is element %d", (void*)xs[i], (void*)ref[i], i);
        if (op == 5 && got < want && std::find(xs.begin(), xs.begin() + got, nullptr) == xs.begin() + got)
          violation("queue", "alone: a forced dequeue of %d returned %d elements without an end marker", want, got);
        ref.erase(ref.begin(), ref.begin() + got);
      }
      if (s.size() != (int)ref.size() || s.empty() != ref.empty())
        violation("queue", "alone: size() is %d, not %zu", s.size(), ref.size());
    }
  }
  // what is still inside when the queue dies is destroyed exactly once
  int n = (int)pick(0, cap, "left_inside"), turn = (int)pick(0, 7, "turns");
  sim::leak_baseline();
  {
    sol::BlockQueue<Obj*, sol::QueueType::Element> e(cap);
    sol::BlockQueue<char*, sol::QueueType::Array> f(cap);
    for (int i = 0; i < turn; ++i) {
      e.Enqueue(new Obj);
      delete e.Dequeue();
      f.Enqueue(new char[3]);
      delete[] f.Dequeue();
    }
    for (int i = 0; i < n; ++i) {
      e.Enqueue(new Obj);
      f.Enqueue(new char[5]);
    }
  }
  size_t leaked = sim::leaked_blocks();
  if (leaked) violation("leak", "%zu elements survive the destruction of their queue", leaked);
}
}  // namespace
