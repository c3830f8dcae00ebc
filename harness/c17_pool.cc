// C17: the thread pool runs each task once, in order, within its width, and waits for all.
// Oracle: the event log the tasks write themselves.
#include "ref.h"

#include <sched.h>
#include <thread>

#include "src/utils/threadpool.h"

using namespace vh;

namespace {

struct Task {
  std::atomic<int> started{0}, finished{0};
  long plain = 0;  // written without synchronization by the task, read after the pool is gone
  int stream = 0, pos = 0;  // enqueuer and place in its sequence
  int depth = 0, children = 0, work = 0;
};

struct Log {
  std::vector<std::unique_ptr<Task>> tasks;
  std::atomic<int> next{0};
  std::atomic<int> running{0}, max_running{0};
  std::atomic<int> starts{0};
  std::vector<std::atomic<int>> order;  // start order
  std::vector<std::atomic<unsigned long>> worker;
  std::mutex mu;
  std::string error;
  bool single = false;
  int width = 1;
  explicit Log(int n) : order(n), worker(n) {}
};

void Spin(int work) {
  if (work == 1) sched_yield();
  else if (work == 2) usleep(50);
  else if (work == 3) { volatile int x = 0; for (int i = 0; i < 2000; ++i) x = x + i; }
  else if (work == 4) usleep(400);
}

void Run(Log* log, ThreadPool* pool, int t, std::shared_ptr<int> token) {
  Task& k = *log->tasks[t];
  int now = ++log->running;
  int m = log->max_running;
  while (now > m && !log->max_running.compare_exchange_weak(m, now)) {}
  ++k.started;
  int at = log->starts++;
  if (at < (int)log->order.size()) {
    log->order[at] = t;
    log->worker[at] = (unsigned long)pthread_self();
  }
  if (log->single) {
    // One enqueuer, no nesting: every earlier task has been taken, so those not started yet are
    // on distinct other workers.
    int pending = 0;
    for (int j = std::max(0, t - 1500); j < t; ++j) pending += log->tasks[j]->started == 0;
    if (pending > log->width - 1) {
      std::lock_guard<std::mutex> l(log->mu);
      log->error = cat("task ", t, " started while ", pending, " earlier tasks had not, on ", log->width, " threads");
    }
  }
  Spin(k.work);
  for (int c = 0; c < k.children; ++c) {
    int id = log->next++;
    if (id >= (int)log->tasks.size()) break;
    log->tasks[id]->depth = k.depth + 1;
    pool->Enqueue([log, pool, id, token] { Run(log, pool, id, token); });
  }
  k.plain += 1;
  ++k.finished;
  --log->running;
}

void Case(long id, Rng& r) {
  int width = r.chance(0.25) ? 1 : r.range(2, r.chance(0.03) ? 300 : 16);
  int total = r.chance(0.1) ? 0 : r.range(1, r.chance(0.2) ? 400 : 40);
  bool many = id % 300 == 77;
  if (many) { total = r.range(65600, 70000); count("many_tasks"); }
  int enqueuers = r.chance(0.6) ? 1 : r.range(2, 5);
  bool nested = r.chance(0.4);
  auto log = std::unique_ptr<Log>(new Log(total));
  log->width = width;
  int mode = many ? 0 : r.range(0, 5);
  for (int i = 0; i < total; ++i) {
    log->tasks.emplace_back(new Task);
    log->tasks[i]->work = mode == 0 ? 0 : mode == 1 ? 4 * r.chance(0.05) : r.range(0, 3);
    log->tasks[i]->children = nested ? r.range(0, 3) : 0;
  }
  log->single = enqueuers == 1 && !nested;
  auto token = std::make_shared<int>(1);
  int roots = nested ? std::min<long>(total, r.range(1, 8)) : total;
  log->next = roots;
  bool idle_first = r.chance(0.2), wait_mid = !many && r.chance(0.2);
  std::string what = cat("threads=", width, " tasks=", total, " enqueuers=", enqueuers, nested ? " nested" : "", " mode=", mode);
  {
    ThreadPool pool(width);
    if (idle_first) usleep(300);
    if (enqueuers == 1) {
      for (int i = 0; i < roots; ++i) {
        if (wait_mid && r.chance(0.1)) usleep(200);
        log->tasks[i]->pos = i;
        Log* l = log.get();
        ThreadPool* p = &pool;
        pool.Enqueue([l, p, i, token] { Run(l, p, i, token); });
      }
    } else {
      std::vector<std::thread> ts;
      for (int e = 0; e < enqueuers; ++e) {
        ts.emplace_back([&, e] {
          int pos = 0;
          for (int i = e; i < roots; i += enqueuers) {
            log->tasks[i]->stream = e;
            log->tasks[i]->pos = pos++;
            Log* l = log.get();
            ThreadPool* p = &pool;
            pool.Enqueue([l, p, i, token] { Run(l, p, i, token); });
            if (i % 7 == 0) sched_yield();
          }
        });
      }
      for (auto& t : ts) t.join();
    }
  }
  // The pool is gone: everything has run, once.
  int expected = std::min((int)log->next, total);
  uint64_t h = mix(width, total);
  std::map<unsigned long, int> workers;
  for (int i = 0; i < total; ++i) {
    Task& k = *log->tasks[i];
    int want = i < expected ? 1 : 0;
    expect(k.started == want && k.finished == want, k.started > want ? "run-twice" : k.started < want ? "not-run" : "not-waited",
           what, ": task ", i, " started ", (int)k.started, " finished ", (int)k.finished, " times");
    expect(k.plain == want, "effects", what, ": task ", i, " wrote ", k.plain);
  }
  expect(log->running == 0, "not-waited", what);
  expect(log->max_running <= width, "width", what, ": ", (int)log->max_running, " tasks at once");
  expect(log->error.empty(), "order", what, ": ", log->error);
  expect(token.use_count() == 1, "task-leak", what, ": ", token.use_count() - 1, " task objects alive after the pool");
  std::map<int, int> last;
  for (int k = 0; k < log->starts; ++k) {
    int t = log->order[k];
    if (k < 64) { workers.emplace(log->worker[k], workers.size()); h = mix(h, mix(t, workers[log->worker[k]])); }
    if (width == 1 && !nested) {
      Task& task = *log->tasks[t];
      auto it = last.find(task.stream);
      expect(it == last.end() || it->second < task.pos, "order", what, ": enqueuer ", task.stream, " task ", task.pos, " ran after ", it == last.end() ? -1 : it->second);
      last[task.stream] = task.pos;
    }
  }
  count("tasks", expected);
  if (nested) count("nested_cases");
  if (enqueuers > 1) count("many_enqueuers");
  if (log->max_running > 1) count("parallel_cases");
  if (log->single && width > 1) count("order_checked");
  seen("interleaving", h);
  seen("width", width);
  if (expected > 1) { nontrivial(h); sample(cat(what, " at once=", (int)log->max_running)); }
}

}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
