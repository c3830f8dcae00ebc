// C03: string columns map rows to codes and back without loss.
// Oracle: the stored strings and the order-free requirements on a dictionary.
#include "ref.h"

using namespace vh;
using gbdt::StringColumn;

static void Case(long id, Rng& r) {
  bool huge = id % 100 == 7, wide = !huge && id % 8 == 3;
  // Number of distinct strings, besides the missing marker.
  int distinct = huge ? 65532 + id / 100 % 7 : wide ? 252 + id / 8 % 9 : r.range(0, r.chance(0.2) ? 1000 : 12);
  std::vector<std::string> pool;
  std::set<std::string> have = {kMissing};
  static const char* odd[] = {"", " ", "__missing", "__missing__ ", "__MISSING__", "0", "1", "\n", "\t", "a\r", "caf\xc3\xa9", "\xff"};
  while ((int)pool.size() < distinct) {
    std::string s;
    if (!huge && r.chance(0.1)) s = odd[r.range(0, 11)];
    else if (r.chance(0.1)) s = std::string("nul") + std::string(1, '\0') + std::to_string(pool.size());
    else if (r.chance(0.02)) s = std::string(r.chance(0.03) ? r.range(60000, 140000) : r.range(1, 500), 'x') + std::to_string(r.range(0, 2000));
    else s = "v" + std::to_string(huge ? pool.size() : r.range(0, distinct * 3));
    if (have.insert(s).second) pool.push_back(s);
  }
  std::vector<std::string> rows = pool;
  int extra = id % 300 == 13 ? r.range(65600, 140000) : r.range(0, huge ? 2000 : 60);
  if (extra > 65536 && !pool.empty()) count("long_columns");
  for (int i = 0; i < extra && !pool.empty(); ++i) rows.push_back(pool[r.range(0, r.chance(0.5) ? std::min<long>(3, pool.size() - 1) : pool.size() - 1)]);
  double miss = r.chance(0.5) ? 0.2 : 0;
  for (size_t i = rows.size() / 5; i > 0 && miss > 0; --i) rows.push_back(kMissing);
  if (r.chance(0.1) && distinct == 0) rows.assign(r.range(0, 5), kMissing);
  // Shuffled, or in an order that brings the last new strings late.
  if (r.chance(0.7)) r.shuffle(&rows);
  size_t n = rows.size();

  std::unique_ptr<Column> holder;
  int pieces = r.range(1, 5);
  if (pieces == 1 && r.chance(0.5)) {
    holder = Column::CreateStringColumn("s", rows);
  } else {
    auto* c = new StringColumn("s");
    holder.reset(c);
    size_t pos = 0;
    for (int k = 0; k < pieces; ++k) {
      size_t end = k + 1 == pieces ? n : r.range(pos, n);
      std::vector<std::string> piece(rows.begin() + pos, rows.begin() + end);
      c->Add(&piece);
      pos = end;
    }
    c->Finalize();
  }
  auto* col = static_cast<const StringColumn*>(holder.get());
  std::string what = cat("distinct=", distinct, " rows=", n, " pieces=", pieces);
  expect(col->status().ok(), "status", what, ": ", col->status().ToString());
  expect(col->type() == Column::kStringColumn && col->size() == n, "shape", what, ": ", col->size(), " rows");
  expect(col->max_int() == (uint)distinct + 1, "dense", what, ": ", col->max_int(), " codes");
  std::unordered_map<std::string, uint> code;
  std::vector<char> used(distinct + 1, 0);
  for (size_t i = 0; i < n; ++i) {
    uint c = col->col()[i];
    expect(c <= (uint)distinct, "range", what, " row ", i, " code ", c);
    expect(col->get_row_string(i) == rows[i], "round-trip", what, " row ", i, ": stored '", rows[i], "', read '", col->get_row_string(i), "'");
    expect(col->get_cat_string(c) == rows[i], "cat-string", what, " row ", i, " code ", c);
    expect((c == 0) == (rows[i] == kMissing) && col->col().missing(i) == (c == 0), "missing", what, " row ", i, " '", rows[i], "' code ", c);
    auto it = code.emplace(rows[i], c);
    expect(it.first->second == c, "one-code", what, " '", rows[i], "' has codes ", it.first->second, " and ", c);
    if (it.second) {
      expect(!used[c], "shared-code", what, " code ", c, " for two strings");
      used[c] = 1;
    }
  }
  for (auto& s : pool) {
    uint c = 12345678;
    expect(col->get_cat_index(s, &c), "lookup-missing", what, " '", s, "' not found");
    expect(c == code[s], "lookup-code", what, " '", s, "' looked up as ", c, " but rows have ", code[s]);
  }
  uint c = 12345678;
  expect(col->get_cat_index(kMissing, &c) && c == 0 && col->get_cat_string(0) == kMissing, "lookup-marker", what);
  for (int k = 0; k < 20; ++k) {
    std::string s = r.chance(0.5) ? "v" + std::to_string(r.range(0, distinct * 4 + 5)) : r.chance(0.5) ? std::string(odd[r.range(0, 11)])
                    : pool.empty() ? "q" : pool[r.range(0, pool.size() - 1)] + (r.chance(0.5) ? " " : std::string(1, '\0'));
    bool found = col->get_cat_index(s, &c);
    expect(found == have.count(s), "lookup-absent", what, " '", s, "' ", found ? "found" : "not found");
    if (found) expect(col->get_cat_string(c) == s, "lookup-inverse", what, " '", s, "'");
    count("lookups");
  }
  count("rows", n);
  if (distinct >= 252 && distinct <= 260) seen("around_256", distinct);
  if (huge) seen("around_65536", distinct);
  if (n > 0) {
    uint64_t h = mix(distinct, n);
    for (size_t i = 0; i < std::min<size_t>(n, 40); ++i) h = hash_str(rows[i], h);
    nontrivial(h);
    sample(what);
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
