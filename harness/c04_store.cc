// C04: a data store is the set of columns added and not removed.
// Oracle: a model of the store driven by the same operations.
#include "ref.h"

using namespace vh;

struct Entry { RefCol col; };

static void Case(long id, Rng& r) {
  DataStore store;
  std::map<std::string, RefCol> model;
  std::vector<std::string> names = {"a", "b", "A", "", "x y", "long_column_name_0123456789_0123456789", "f", "g"};
  int nops = r.range(1, 60);
  if (id % 300 == 5) { nops = r.range(300, 500); for (int k = 0; k < 400; ++k) names.push_back("n" + std::to_string(k)); count("many_columns"); }
  int base = r.chance(0.25) ? 0 : r.range(1, 9);
  std::string log;
  uint64_t h = 1;
  std::map<std::string, const Column*> addr;
  for (int op = 0; op < nops; ++op) {
    const std::string& name = r.pick(names);
    int kind = r.range(0, 9);
    if (kind < 5) {
      RefCol c;
      c.name = name;
      c.kind = (RefCol::Kind)r.range(0, 2);
      int n = base;
      if (r.chance(0.3)) n = r.pick(std::vector<int>{0, 1, base + 1, base ? base - 1 : 2, 7, 300});
      for (int i = 0; i < n; ++i) {
        if (c.kind == RefCol::kCat) c.s.push_back(RandCat(r, 5));
        else c.f.push_back(r.chance(0.2) ? NAN : RandFloat(r));
      }
      auto col = MakeColumn(c);
      const Column* p = col.get();
      auto s = store.Add(std::move(col));
      log += cat(" add(", name, ",", (int)c.kind, ",", n, ")=", s.ok() ? "ok" : "no");
      auto before = model.size();
      if (model.count(name)) {
        expect(!s.ok() && s.error_code() == err::ALREADY_EXISTS, "dup-add", log, ": ", s.ToString());
        count("refused_duplicate");
      } else if (before && model.begin()->second.size() != (size_t)n) {
        expect(!s.ok() && s.error_code() == err::OUT_OF_RANGE, model.begin()->second.size() ? "size-add" : "size-add-zero", log, ": ", s.ToString());
        count("refused_size");
        if (!model.begin()->second.size()) count("refused_size_beside_empty");
      } else {
        expect(s.ok(), "add", log, ": ", s.ToString());
        model[name] = c;
        addr[name] = p;
        count("added");
      }
      h = mix(h, mix(kind, c.kind * 100 + n));
    } else if (kind < 8) {
      store.RemoveColumnIfExists(name);
      log += cat(" del(", name, ")");
      if (model.erase(name)) count("removed");
      addr.erase(name);
      h = mix(h, hash_str(name));
    } else if (model.empty() && r.chance(0.5)) {
      base = r.range(0, 5);
    }
    // The whole visible state.
    std::string what = cat("after", log, ": ");
    expect(store.num_cols() == model.size(), "num-cols", what, store.num_cols());
    expect(store.num_rows() == (model.empty() ? 0 : model.begin()->second.size()), "num-rows", what, store.num_rows());
    int kinds[3] = {0, 0, 0};
    for (auto& nm : names) {
      auto it = model.find(nm);
      const Column* c = store.GetColumn(nm);
      expect((c != nullptr) == (it != model.end()), "lookup", what, nm);
      const gbdt::StringColumn* sc = store.GetStringColumn(nm);
      const gbdt::BucketizedFloatColumn* bc = store.GetBucketizedFloatColumn(nm);
      const gbdt::RawFloatColumn* rc = store.GetRawFloatColumn(nm);
      RefCol::Kind k = it == model.end() ? RefCol::kRaw : it->second.kind;
      bool have = c != nullptr;
      expect((sc != nullptr) == (have && k == RefCol::kCat) && (bc != nullptr) == (have && k == RefCol::kFloat) &&
                 (rc != nullptr) == (have && k == RefCol::kRaw), "typed-lookup", what, nm);
      if (!have) continue;
      ++kinds[k];
      expect(c == addr[nm] && c->name() == nm && c->size() == it->second.size(), "identity", what, nm);
      for (size_t i = 0; i < it->second.size(); ++i) {
        if (k == RefCol::kCat) {
          expect(sc->get_row_string(i) == it->second.s[i], "content", what, nm, " row ", i);
        } else {
          float v = k == RefCol::kRaw ? (*rc)[i] : bc->get_row_max(i), w = it->second.f[i];
          expect(std::isnan(w) ? std::isnan(v) : v == w, "content", what, nm, " row ", i, " has ", v, " not ", w);
        }
      }
      count("columns_compared");
    }
    std::set<const Column*> listed, want;
    for (auto* p : store.GetStringColumns()) listed.insert(p);
    expect((int)store.GetStringColumns().size() == kinds[RefCol::kCat], "list-strings", what);
    for (auto* p : store.GetRawFloatColumns()) listed.insert(p);
    expect((int)store.GetRawFloatColumns().size() == kinds[RefCol::kRaw], "list-raw", what);
    for (auto* p : store.GetBucketizedFloatColumns()) listed.insert(p);
    expect((int)store.GetBucketizedFloatColumns().size() == kinds[RefCol::kFloat], "list-bucketized", what);
    for (auto& a : addr) want.insert(a.second);
    expect(listed == want, "listing", what);
    // The description names the three counts and the rows, in that order.
    std::vector<long> nums;
    std::string d = store.Description();
    for (size_t i = 0; i < d.size();) {
      if (isdigit((unsigned char)d[i])) { char* e; nums.push_back(strtol(&d[i], &e, 10)); i = e - d.data(); } else ++i;
    }
    expect(nums == std::vector<long>({kinds[RefCol::kFloat], kinds[RefCol::kRaw], kinds[RefCol::kCat], (long)store.num_rows()}),
           "description", what, d);
    expect(store.status().ok(), "status", what);
    seen("state", mix(mix(kinds[0], kinds[1]), mix(kinds[2], store.num_rows())));
  }
  if (nops > 1) {
    nontrivial(h);
    sample(log.substr(0, 300));
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
