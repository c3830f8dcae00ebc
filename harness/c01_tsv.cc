// C01: tables read from TSV blocks hold exactly the cells written.
// Oracle: the cells the generator wrote, kept apart from the file text.
#include "ref.h"

#include "src/data_store/tsv_data_store.h"

using namespace vh;
using gbdt::BucketizedFloatColumn;
using gbdt::RawFloatColumn;
using gbdt::StringColumn;
using gbdt::TSVDataStore;

static std::string Text(Rng& r) {
  static const char* odd[] = {"", " ", "  x ", "#c", "\"a b\"", "a,b", "caf\xc3\xa9", "?", "nan", "__missing__", "-",
                              "0x10", "\\t", "\\", "'", "1.5", "\xff\xfe", "a\x01z", "\v", "x\rz"};
  if (r.chance(0.02)) { count("nul_cells"); return std::string("a\0b", 3).substr(r.range(0, 1), r.range(1, 2)); }
  if (r.chance(0.3)) return odd[r.range(0, 19)];
  std::string s;
  int n = r.range(1, r.chance(0.05) ? 3000 : 8);
  for (int i = 0; i < n; ++i) s += (char)r.range(33, 126);
  return s;
}

static std::string Number(Rng& r, float* v) {
  char b[400];
  switch (r.range(0, 11)) {
    case 0: *v = (float)r.range(-1000, 1000); snprintf(b, 80, "%d", (int)*v); return b;
    case 1: *v = (float)r.normal(); snprintf(b, 80, "%.9g", *v); return b;
    case 2: *v = (float)(r.normal() * 1e10); snprintf(b, 80, "%.9e", *v); return b;
    case 3: *v = std::ldexp((float)r.range(1, 1 << 24), (int)r.range(-149, 100)); snprintf(b, 80, "%.9g", *v); return b;
    case 4: *v = (float)r.normal(); snprintf(b, 80, "%a", *v); return b;
    case 5: { int k = r.range(-4000, 4000); *v = k / 8.0f; snprintf(b, 80, "%.3f", k / 8.0); return b; }
    case 6: { static const char* t[] = {"inf", "-inf", "INF", "infinity", "1e50", "-1e50", "1e-60", "-0", "+7", "  3", ".5", "5.", "1E3"};
              static const float w[] = {INFINITY, -INFINITY, INFINITY, INFINITY, INFINITY, -INFINITY, 0, -0.0f, 7, 3, .5f, 5, 1000};
              int k = r.range(0, 12); *v = w[k]; return t[k]; }
    case 7: { static const char* t[] = {"NAN", "nan", "NaN", "?", "_", "-", "*"}; *v = NAN; return t[r.range(0, 6)]; }
    case 8: { *v = 16777216.0f + 2.0f * r.range(0, 100); snprintf(b, 80, "%.0f", *v); return b; }
    case 9: {  // just beside the middle of two neighbouring floats: only correct single rounding gets these right
      float a = (float)r.uni(1, 2);
      bool up = r.chance(0.5);
      snprintf(b, 390, "%.25f", ((double)a + std::nextafterf(a, 3)) / 2);
      std::string s(b);
      if (up) s += "0000000000000000000001"; else { *v = strtof(s.c_str(), nullptr); return s; }
      *v = std::nextafterf(a, 3);
      return s;
    }
    default: *v = (float)r.range(0, 3); snprintf(b, 80, "%g", *v); return b;
  }
}

enum Role { kFeat, kCat, kRaw, kStr };

struct Spec {
  std::vector<std::string> header;
  std::vector<int> type;  // -1 not requested, else Role
  std::vector<std::vector<std::string>> cells;  // rows of cells
  std::vector<std::vector<float>> num;          // by column, for numeric columns
};

static void Case(long id, Rng& r) {
  Spec s;
  int ncol = r.range(1, 8);
  int nrow = r.chance(0.04) ? r.range(500, 3000) : r.chance(0.05) ? 0 : r.range(1, 40);
  std::vector<std::string> names = {"a", "b c", "target", "x\"y", "w", "caf\xc3\xa9", "G", "a.b", "A", "aa", "0"};
  r.shuffle(&names);
  bool wide = id % 150 == 33, tall = id % 500 == 133;
  if (wide) { ncol = r.range(257, 1500); nrow = r.range(1, 12); for (int c = names.size(); c < ncol; ++c) names.push_back("n" + std::to_string(c)); count("wide_tables"); }
  if (tall) { ncol = r.range(1, 3); nrow = r.range(65600, 80000); count("tall_tables"); }
  for (int c = 0; c < ncol; ++c) {
    s.header.push_back(names[c]);
    s.type.push_back(r.chance(0.2) ? -1 : (int)r.range(0, 3));
  }
  if (s.type == std::vector<int>(ncol, -1)) s.type[0] = kRaw;
  s.num.resize(ncol);
  Config config;
  bool target = false, weight = false, group = false;
  int requested = 0, max_requested = 0;
  std::vector<int> order;
  for (int c = 0; c < ncol; ++c) order.push_back(c);
  r.shuffle(&order);
  bool dup = false;
  for (int c : order) {
    const std::string& h = s.header[c];
    if (s.type[c] < 0) continue;
    ++requested;
    max_requested = std::max(max_requested, c);
    int times = r.chance(0.12) ? 2 : 1;
    dup |= times > 1;
    for (int t = 0; t < times; ++t) {
      switch (s.type[c]) {
        case kFeat: config.add_float_feature(h); break;
        case kCat: if (!group && r.chance(0.3)) { group = true; config.set_group_column(h); } else config.add_categorical_feature(h); break;
        case kRaw:
          if (!target && r.chance(0.4)) { target = true; config.set_target_column(h); }
          else if (!weight && r.chance(0.3)) { weight = true; config.set_weight_column(h); }
          else config.add_additional_float_column(h);
          break;
        default: config.add_additional_string_column(h);
      }
    }
  }
  for (int i = 0; i < nrow; ++i) {
    std::vector<std::string> row;
    for (int c = 0; c < ncol; ++c) {
      std::string cell;
      if (s.type[c] == kFeat || s.type[c] == kRaw) {
        float v;
        cell = Number(r, &v);
        s.num[c].push_back(v);
      } else {
        cell = Text(r);
        if (!tall && r.chance(0.0005)) { cell += std::string(r.range(4000, 140000), 'l') + "e"; count("long_cells"); }
      }
      row.push_back(cell);
    }
    // Line ends are trimmed of CR, so a last cell cannot end in one; an all-empty line is a blank line.
    if (ncol == 1 && row[0].empty()) row[0] = "z";
    while (!row[ncol - 1].empty() && row[ncol - 1].back() == '\r') row[ncol - 1].pop_back();
    s.cells.push_back(row);
  }

  // Blocks.
  int nblocks = r.chance(0.3) ? 1 : r.range(2, 7);
  std::vector<int> block(nrow);
  for (int i = 0; i < nrow; ++i) block[i] = r.range(0, nblocks - 1);
  std::sort(block.begin(), block.end());
  if (r.chance(0.2)) for (auto& b : block) b = std::max(b, 1) % nblocks;

  // One injected error, or none.
  enum { kNone, kMissingFile, kUnknownColumn, kShortRow, kBadNumber, kConflict, kNoFiles } error = kNone;
  if (r.chance(0.35)) error = (decltype(error))r.range(1, 6);
  int bad_row = -1, bad_col = -1, missing_block = -1;
  std::vector<int> numeric;
  for (int c = 0; c < ncol; ++c) if (s.type[c] == kFeat || s.type[c] == kRaw) numeric.push_back(c);
  if (error == kShortRow || error == kBadNumber) {
    if (nrow == 0 || (error == kBadNumber && numeric.empty())) error = kNone;
    else bad_row = r.range(0, nrow - 1);
  }
  if (error == kShortRow && max_requested == 0) error = kNone;  // a row with no cells at all is a blank line
  if (error == kBadNumber) {
    bad_col = r.pick(numeric);
    static const char* bad[] = {"abc", "1.2x", "", "1,5", "12 ", "--3", "N/A", "??", "nan?", "NaN ", "1e", "0x", "null", "None", "#N/A", "\xc2\xbd"};
    s.cells[bad_row][bad_col] = r.chance(0.15) ? std::string("3\0x", 3).substr(r.range(0, 1), r.range(1, 2)) : bad[r.range(0, 15)];
    if (s.cells[bad_row][bad_col] == "3") s.cells[bad_row][bad_col] = std::string(1, '\0');
    if (ncol == 1 && s.cells[bad_row][0].empty()) s.cells[bad_row][0] = "abc";
  }
  if (error == kMissingFile) missing_block = r.range(0, nblocks - 1);
  if (error == kUnknownColumn) {
    switch (r.range(0, 6)) {
      case 0: config.add_float_feature("nope"); break;
      case 1: config.add_categorical_feature("nope"); break;
      case 2: config.set_target_column("nope"); break;
      case 3: config.set_weight_column("nope"); break;
      case 4: config.set_group_column("nope"); break;
      case 5: config.add_additional_float_column("nope"); break;
      default: config.add_additional_string_column("nope");
    }
  }
  if (error == kConflict) {
    int c;
    do { c = r.range(0, ncol - 1); } while (s.type[c] < 0);
    bool done = false;
    for (int k = r.range(0, 3), t = 0; !done && t < 4; ++t, k = (k + 1) % 4) {
      bool str = s.type[c] == kCat || s.type[c] == kStr;
      if (k == 0 && s.type[c] != kFeat) { config.add_float_feature(s.header[c]); done = true; }
      else if (k == 1 && !str) { config.add_categorical_feature(s.header[c]); done = true; }
      else if (k == 2 && s.type[c] != kRaw) { config.add_additional_float_column(s.header[c]); done = true; }
      else if (k == 3 && !str) { config.add_additional_string_column(s.header[c]); done = true; }
    }
  }

  bool crlf = r.chance(0.3);
  double blanks = r.chance(0.4) ? 0.2 : 0;
  auto eol = [&]() -> std::string { return crlf && r.chance(0.8) ? (r.chance(0.1) ? "\r\r\n" : "\r\n") : "\n"; };
  std::vector<std::string> files;
  for (int b = 0; b < nblocks; ++b) {
    std::string text;
    if (b == 0) {
      for (int c = 0; c < ncol; ++c) {
        std::string h = s.header[c];
        if (r.chance(0.1)) h = " " + h;
        if (r.chance(0.1)) h += " ";
        text += (c ? "\t" : "") + h;
      }
      text += eol();
    }
    size_t last_eol = 0;
    for (int i = 0; i < nrow; ++i) {
      if (block[i] != b) continue;
      while (r.chance(blanks)) text += eol();
      int w = ncol;
      if (i == bad_row && error == kShortRow) {
        w = r.range(1, max_requested);
        std::string line;
        for (int c = 0; c < w; ++c) line += s.cells[i][c];
        if (w == 1 && line.find_first_not_of("\r") == std::string::npos) s.cells[i][0] = s.type[0] == kFeat || s.type[0] == kRaw ? "1" : "z";
      } else if (max_requested < ncol - 1 && r.chance(0.1)) {
        w = r.range(max_requested + 1, ncol);  // short, but not for a requested column
        if (w == 1 && s.cells[i][0].find_first_not_of("\r") == std::string::npos) w = ncol;
        // The last cell of the line loses its trailing CRs, as any line does.
        std::string& l = s.cells[i][w - 1];
        if (w < ncol) while (!l.empty() && l.back() == '\r') l.pop_back();
      }
      for (int c = 0; c < w; ++c) text += (c ? "\t" : "") + s.cells[i][c];
      if (w == ncol && r.chance(0.05)) text += "\textra";
      last_eol = text.size();
      text += eol();
    }
    while (r.chance(blanks)) text += eol();
    if (last_eol && r.chance(0.3)) text.resize(last_eol);
    std::string path = st().scratch + "/" + cat("c", id % 8, "_", b, ".tsv");
    unlink(path.c_str());
    if (b != missing_block) write_file(cat("c", id % 8, "_", b, ".tsv"), text);
    files.push_back(path);
  }
  if (error == kNoFiles) files.clear();

  FLAGS_num_threads = r.pick(std::vector<int>{1, 2, 3, 8});
  std::string what = cat("cols=", ncol, " rows=", nrow, " blocks=", nblocks, " threads=", FLAGS_num_threads,
                         " error=", (int)error, dup ? " dup" : "", crlf ? " crlf" : "");
  TSVDataStore store(files, config);
  if (error != kNone) {
    auto code = store.status().error_code();
    auto want = error == kMissingFile || error == kUnknownColumn ? err::NOT_FOUND
                : error == kShortRow ? err::OUT_OF_RANGE : err::INVALID_ARGUMENT;
    expect(!store.status().ok(), "error-accepted", what, ": loading succeeded", bad_row >= 0 ? cat(" with bad row ", bad_row) : "",
           bad_col >= 0 ? cat(" cell '", s.cells[bad_row][bad_col], "'") : "");
    expect(code == want, "error-kind", what, ": reported ", store.status().ToString());
    count("errors");
    seen("error_kind", error);
    nontrivial(mix(mix(error, nblocks), mix(nrow, ncol)));
    return;
  }
  expect(store.status().ok(), "load-failed", what, ": ", store.status().ToString());
  expect((int)store.num_cols() == requested, "column-count", what, ": ", store.num_cols(), " columns, requested ", requested);
  expect((int)store.num_rows() == nrow, "row-count", what, ": ", store.num_rows(), " rows");
  for (int c = 0; c < ncol; ++c) {
    const std::string& h = s.header[c];
    const Column* col = store.GetColumn(h);
    expect((col != nullptr) == (s.type[c] >= 0), "column-set", what, " column ", h);
    if (!col) continue;
    expect(col->name() == h && (int)col->size() == nrow, "column-shape", what, " column ", h, " has ", col->size());
    if (s.type[c] == kCat || s.type[c] == kStr) {
      auto* p = store.GetStringColumn(h);
      expect(p != nullptr, "column-type", what, " column ", h);
      for (int i = 0; i < nrow; ++i)
        expect(p->get_row_string(i) == s.cells[i][c], "string-cell", what, " column ", h, " row ", i, " block ", block[i],
               ": wrote '", s.cells[i][c], "' read '", p->get_row_string(i), "'");
    } else if (s.type[c] == kRaw) {
      auto* p = store.GetRawFloatColumn(h);
      expect(p != nullptr, "column-type", what, " column ", h);
      for (int i = 0; i < nrow; ++i) {
        float a = (*p)[i], b = s.num[c][i];
        expect(std::isnan(b) ? std::isnan(a) : memcmp(&a, &b, 4) == 0, "float-cell", what, " column ", h, " row ", i, " block ",
               block[i], ": wrote '", s.cells[i][c], "' (", b, ") read ", a);
      }
    } else {
      auto* p = store.GetBucketizedFloatColumn(h);
      expect(p != nullptr, "column-type", what, " column ", h);
      for (int i = 0; i < nrow; ++i) {
        float a = p->get_row_max(i), a2 = p->get_row_min(i), b = s.num[c][i];
        expect(std::isnan(b) ? std::isnan(a) && p->col().missing(i) : a == b && a2 == b, "float-cell", what, " feature ", h,
               " row ", i, " block ", block[i], ": wrote '", s.cells[i][c], "' (", b, ") read ", a, "/", a2);
      }
    }
    count("cells", nrow);
  }
  if (nblocks > 1) count("multi_block");
  if (dup) count("requested_twice");
  seen("shape", mix(nblocks, ncol));
  if (nrow > 0) {
    uint64_t h = hash_str(config.ShortDebugString(), nblocks);
    for (auto& row : s.cells) for (auto& x : row) h = hash_str(x, h);
    nontrivial(h);
    sample(cat(what, " first row '", s.cells[0][0].substr(0, 40), "'"));
  }
}

int main(int argc, char** argv) { return harness_main(argc, argv, Case); }
