// C05: flat-file columns are the lines of their files, one object per column however it is looked up.
// Oracle: the lines the generator wrote; pointer identity and content re-read by every thread.
#include "ref.h"

#include <condition_variable>
#include <dirent.h>
#include <thread>

#include "src/data_store/flatfiles_data_store.h"

using namespace vh;
using gbdt::FlatfilesDataStore;

namespace {

struct FileSpec {
  std::string name;
  RefCol col;
  bool valid = true;  // known type and the common row count
  bool exists = true;
};

struct Barrier {
  std::mutex m;
  std::condition_variable c;
  int n, waiting = 0;
  long gen = 0;
  explicit Barrier(int k) : n(k) {}
  void Wait() {
    std::unique_lock<std::mutex> l(m);
    long g = gen;
    if (++waiting == n) { waiting = 0; ++gen; c.notify_all(); return; }
    c.wait(l, [&] { return gen != g; });
  }
};

std::string Line(Rng& r) {
  static const char* odd[] = {"", " ", "  x", "a\tb", "x#", " # y", "caf\xc3\xa9", "__missing__", "nan", "\"q\""};
  if (r.chance(0.02)) return std::string("a\0b", 3).substr(r.range(0, 1), r.range(1, 2));
  if (r.chance(0.3)) return odd[r.range(0, 9)];
  return "s" + std::to_string(r.range(0, 20));
}

std::string Check(const FileSpec& f, const Column* c) {
  if (c->name() != f.name) return cat("column ", f.name, " is named ", c->name());
  if (c->size() != f.col.size()) return cat("column ", f.name, " has ", c->size(), " rows, not ", f.col.size());
  if (f.col.kind == RefCol::kCat) {
    if (c->type() != Column::kStringColumn) return cat("column ", f.name, " has the wrong type");
    auto* p = static_cast<const gbdt::StringColumn*>(c);
    for (size_t i = 0; i < f.col.size(); ++i)
      if (p->get_row_string(i) != f.col.s[i]) return cat("column ", f.name, " row ", i, " is '", p->get_row_string(i), "' not '", f.col.s[i], "'");
  } else {
    if (c->type() != (f.col.kind == RefCol::kRaw ? Column::kRawFloatColumn : Column::kBucketizedFloatColumn))
      return cat("column ", f.name, " has the wrong type");
    for (size_t i = 0; i < f.col.size(); ++i) {
      float v = f.col.kind == RefCol::kRaw ? (*static_cast<const gbdt::RawFloatColumn*>(c))[i]
                                           : static_cast<const gbdt::BucketizedFloatColumn*>(c)->get_row_max(i);
      float w = f.col.f[i];
      if (!(std::isnan(w) ? std::isnan(v) : v == w)) return cat("column ", f.name, " row ", i, " is ", v, " not ", w);
    }
  }
  return "";
}

void Case(long id, Rng& r) {
  int n = r.chance(0.08) ? 0 : r.chance(0.1) ? r.range(500, 3000) : r.range(1, 30);
  int ndirs = r.range(1, 3);
  std::vector<std::string> dirs;
  for (int d = 0; d < ndirs; ++d) {
    std::string p = cat(st().scratch, "/d", id % 4, "_", d);
    mkdir(p.c_str(), 0755);
    if (DIR* dp = opendir(p.c_str())) {
      while (dirent* e = readdir(dp)) if (e->d_name[0] != '.') unlink((p + "/" + e->d_name).c_str());
      closedir(dp);
    }
    dirs.push_back(p);
  }
  if (r.chance(0.2)) { dirs.insert(dirs.begin() + r.range(0, ndirs), st().scratch + "/absent"); ++ndirs; }
  int k = r.range(1, 8);
  bool giant = id % 230 == 9;
  if (giant) { n = r.range(65600, 70000); k = 2; count("long_files"); }
  std::vector<FileSpec> files;
  for (int i = 0; i < k; ++i) {
    FileSpec f;
    f.name = cat("col", i);
    f.col.name = f.name;
    f.col.kind = (RefCol::Kind)r.range(0, 2);
    f.exists = !r.chance(0.1);
    bool unknown = false, odd_size = false;
    if (i > 0 && r.chance(0.12)) unknown = true;
    else if (i > 0 && r.chance(0.12)) odd_size = true;
    int rows = odd_size ? (n == 0 ? 2 : n + (r.chance(0.5) && n > 1 ? -1 : 1)) : n;
    f.valid = f.exists && !unknown && !odd_size;
    bool first = true;
    // The first directory that has the file counts; later ones hold something else.
    for (int d = 0; d < ndirs; ++d) {
      if (!f.exists) break;
      if (dirs[d].find("absent") != std::string::npos) continue;
      if (d + 1 < ndirs && r.chance(0.4) && dirs[d + 1].find("absent") == std::string::npos && first) continue;
      std::string eol = r.chance(0.2) ? "\r\n" : "\n", text;
      const char* type = f.col.kind == RefCol::kCat ? "# dtype=strings" : f.col.kind == RefCol::kRaw ? "# dtype=raw_floats" : "# dtype=bucketized_floats";
      static const char* bad[] = {"# dtype=string", "", "dtype=strings", "# dtype=raw_floats ", "#dtype=raw_floats", "1.5"};
      text = (unknown && first ? bad[r.range(0, 5)] : type) + eol;
      for (int j = 0; j < rows || (!first && j < n + 1); ++j) {
        if (r.chance(0.08)) text += "#comment " + Line(r) + eol;
        std::string s;
        float v = NAN;
        if (f.col.kind == RefCol::kCat) {
          do { s = Line(r); } while (!s.empty() && s[0] == '#');
          if (!giant && r.chance(0.002)) { s += std::string(r.range(4000, 140000), 'l') + std::to_string(r.range(0, 9)); count("long_lines"); }
        } else {
          static const char* miss[] = {"", "nan", "?", "abc", "1.5x", " ", "__missing__", "1 2"};
          char b[64];
          if (r.chance(0.2)) { s = miss[r.range(0, 7)]; if (r.chance(0.1)) { s = std::string(r.chance(0.5) ? 1 : 0, '3') + '\0' + (r.chance(0.5) ? "x" : ""); count("nul_cells"); } }
          else { v = r.chance(0.1) ? INFINITY : RandFloat(r); snprintf(b, 64, "%.9g", v); s = b; }
        }
        // An empty last line without a line end would not be a line.
        if (first && j < rows) { if (f.col.kind == RefCol::kCat) f.col.s.push_back(s); else f.col.f.push_back(v); }
        text += s + eol;
      }
      if (r.chance(0.3) && text.size() > 2) {  // drop the last line end unless the last line is empty
        size_t cut = text.size() - eol.size();
        if (text[cut - 1] != '\n') text.resize(cut);
      }
      FILE* fp = fopen((dirs[d] + "/" + f.name).c_str(), "wb");
      if (!fp) _exit(77);
      fwrite(text.data(), 1, text.size(), fp);
      fclose(fp);
      first = false;
      if (r.chance(0.4)) break;
    }
    if (first) { f.exists = false; f.valid = false; }
    files.push_back(f);
  }

  std::unique_ptr<FlatfilesDataStore> store(dirs.size() == 1 ? new FlatfilesDataStore(dirs[0]) : new FlatfilesDataStore(dirs));
  int threads = r.chance(0.25) ? 1 : r.range(2, 12);
  // Without a loaded column, a file of another row count is as good as any; load a valid one first.
  std::string what = cat("rows=", n, " dirs=", ndirs, " files=", k, " threads=", threads);
  bool any = false;
  for (auto& f : files) any |= f.valid;
  if (!any) {
    for (auto& f : files) if (!f.exists) expect(store->GetColumn(f.name) == nullptr, "absent", what, " ", f.name);
    return;
  }
  bool mixed = false;
  for (auto& f : files) mixed |= f.exists && !f.valid;
  std::map<std::string, const Column*> first;
  if (mixed) {
    for (auto& f : files) if (f.valid) {
      auto* c = store->GetColumn(f.name);
      expect(c != nullptr, "lookup", what, " ", f.name, " not loaded");
      first[f.name] = c;
      break;
    }
  }
  std::vector<std::vector<const Column*>> got(threads, std::vector<const Column*>(k, nullptr));
  std::vector<std::string> errors(threads);
  std::vector<std::vector<int>> orders(threads);
  bool lockstep = r.chance(0.7);
  for (int t = 0; t < threads; ++t) {
    for (int i = 0; i < k; ++i) orders[t].push_back(i);
    if (!lockstep) r.shuffle(&orders[t]);
  }
  Barrier bar(threads);
  std::vector<std::thread> ts;
  std::atomic<long> lookups(0);
  for (int t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      for (int rep = 0; rep < 2; ++rep) {
        for (int i : orders[t]) {
          if (lockstep) bar.Wait();
          auto& f = files[i];
          const Column* c = nullptr;
          int how = (t + i + rep) % 4;
          if (how == 0 || f.valid == false) c = store->GetColumn(f.name);
          else if (f.col.kind == RefCol::kCat) c = store->GetStringColumn(f.name);
          else if (f.col.kind == RefCol::kRaw) c = store->GetRawFloatColumn(f.name);
          else c = store->GetBucketizedFloatColumn(f.name);
          ++lookups;
          if ((c != nullptr) != f.valid) errors[t] = cat("lookup of ", f.name, c ? " succeeded" : " failed");
          else if (c && rep && got[t][i] != c) errors[t] = cat("second lookup of ", f.name, " gave another column");
          else if (c) { std::string e = Check(f, c); if (!e.empty()) errors[t] = e; }
          got[t][i] = c;
        }
      }
    });
  }
  for (auto& t : ts) t.join();
  for (int t = 0; t < threads; ++t) expect(errors[t].empty(), "lookup", what, " thread ", t, ": ", errors[t]);
  for (int i = 0; i < k; ++i) {
    for (int t = 1; t < threads; ++t)
      expect(got[t][i] == got[0][i], "identity", what, ": threads 0 and ", t, " have different columns for ", files[i].name);
    if (first.count(files[i].name)) expect(got[0][i] == first[files[i].name], "identity", what, ": ", files[i].name, " replaced");
    // Still valid once every thread is done.
    if (got[0][i]) { std::string e = Check(files[i], got[0][i]); expect(e.empty(), "still-valid", what, ": ", e); }
  }
  int loaded = 0;
  for (auto& f : files) loaded += f.valid;
  expect((int)store->num_cols() == loaded && (int)store->num_rows() == n, "counts", what, ": ", store->num_cols(), " columns, ", store->num_rows(), " rows");
  count("lookups", lookups);
  if (threads > 1) count("concurrent_cases");
  if (mixed) count("refused_files");
  seen("shape", mix(mix(threads, lockstep), mix(k, ndirs)));
  uint64_t h = mix(mix(n, threads), k);
  for (auto& f : files) h = mix(h, f.valid * 4 + f.exists * 2 + f.col.kind * 8);
  if (n) nontrivial(mix(h, id));
  sample(what);
}

}  // namespace

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
