from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.PRE + r'''
#include "eckit/io/MemoryHandle.h"
#include "eckit/sql/SQLStatement.h"
#include "odc/Select.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
#include "odc/sql/TODATable.h"
#include "odc/sql/SQLOutputConfig.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLParser.h"
#include "odc/sql/SQLSelectOutput.h"
#include "odc/SelectIterator.h"
#include "eckit/filesystem/PathName.h"
#include <fstream>
#include <unistd.h>
typedef std::vector<char> Bytes;
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void save(const std::string& p, const Bytes& b) { std::ofstream o(p); o.write(b.data(), b.size()); }
// all values of a query over bytes, row major
static std::vector<double> query(const std::string& sql, const Bytes& b, std::vector<int>* fresh = nullptr) {
    eckit::MemoryHandle mh(b.data(), b.size());
    odc::Select s(sql, mh, true);
    std::vector<double> out;
    for (auto it = s.begin(), e = s.end(); it != e; ++it) {
        if (fresh) fresh->push_back(it->isNewDataset());
        size_t n = it->columns().rowSizeDoublesFake();
        const double* d = &(*it)[0];
        out.insert(out.end(), d, d + n);
    }
    return out;
}
'''.replace("it->columns().rowSizeDoublesFake()", "[&] { size_t k = 0; for (size_t i = 0; i < it->columns().size(); ++i) k += it->columns()[i]->dataSizeDoubles(); return k; }()") + r'''
// run a SELECT storing its result in a file
static void store(const std::string& sql, const Bytes& b, const std::string& to) {
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    std::unique_ptr<odc::sql::SQLOutputConfig> cfg(new odc::sql::SQLOutputConfig(false, false, ",", "odb"));
    cfg->setOutputFile(to);
    eckit::sql::SQLSession session(std::move(cfg));
    eckit::sql::SQLDatabase& db(session.currentDatabase());
    db.addImplicitTable(new odc::sql::ODATable(db, mh));
    eckit::sql::SQLParser parser; parser.parseString(session, sql);
    session.statement().execute();
}
static std::vector<double> stored(const std::string& path) {
    std::ifstream in(path); Bytes b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    return decode(b);
}
'''
T = "src/odc/sql/TODATable.cc"
C = "src/odc/sql/TODATableIterator.cc"
O = "src/odc/sql/SQLSelectOutput.cc"
W = "src/odc/sql/ODAOutput.cc"
S = "src/odc/Select.cc"
I = "src/odc/SelectIterator.cc"
PLANTS = [
 dict(id="s01-layout-same-width", property="S01",
  needs="a query for all columns over two frames with equally many columns in a different order",
  what="the layout is refreshed at a frame boundary only if the row became larger or smaller, so reordered columns are read with the first frame's offsets",
  edits=[(C, "    if (it_->isNewDataset()) {", "    if (it_->isNewDataset() && (columns_.size() != it_->columns().size() || columnIndex(columns_[0].get().name(), it_->columns()) == 0)) {")],
  code=CPP + r'''
int main() {
    init();
    Bytes b = encode({{"a", ODC_DOUBLE, 8}, {"b", ODC_DOUBLE, 8}}, {1, 2, 3, 4}, 2) + encode({{"b", ODC_DOUBLE, 8}, {"a", ODC_DOUBLE, 8}}, {12, 11, 14, 13}, 2);
    std::vector<double> v = query("select a, b", b);
    std::vector<double> x{1, 2, 3, 4, 11, 12, 13, 14};
    CHECK(v == x);
    return 0;
}'''),
 dict(id="s01-missing-position", property="S01",
  needs="a query that selects a column with missing values which is not at the same position in the frame as in the query",
  what="the missing flag of a selected column is taken from the frame column at the query's position",
  edits=[(C, "columnsHaveMissing_.push_back(it_->hasMissing(idx));", "columnsHaveMissing_.push_back(it_->hasMissing(columnsHaveMissing_.size()));")],
  code=CPP + r'''
int main() {
    init();
    double m; OK(odc_missing_double(&m));
    Bytes b = encode({{"a", ODC_DOUBLE, 8}, {"b", ODC_DOUBLE, 8}}, {1, 2, 3, m, 5, 6}, 3);
    std::vector<double> v = query("select b, a where b is null", b);
    CHECK(v.size() == 2 && v[1] == 3);
    return 0;
}'''),
 dict(id="s01-string-tail", property="S01",
  needs="string results more than eight bytes shorter than their column, after a longer one in the same result buffer",
  what="a string is padded to the next multiple of eight bytes only, so the previous row's string shows through",
  edits=[(O, "::memset(&reinterpret_cast<char*>(pos_)[len], 0, charSize - len);", "::memset(&reinterpret_cast<char*>(pos_)[len], 0, (charSize - len - 1) % sizeof(double) + 1);")],
  code=CPP + r'''
int main() {
    init();
    double w[2]; memcpy(w, "0123456789abcdef", 16);
    Bytes b = encode({{"s", ODC_STRING, 16}}, {w[0], w[1], str8("xy"), 0}, 2);
    std::vector<double> v = query("select s", b);
    CHECK(v.size() == 4 && memcmp(&v[0], "0123456789abcdef", 16) == 0 && memcmp(&v[2], "xy\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16) == 0);
    return 0;
}'''),
 dict(id="s01-stored-narrow-flush", property="S01",
  needs="a query stored in a file over frames where only the first of several string columns becomes wider",
  what="the check whether a column became wider uses the last column declared, so the frame keeps the old width and the strings are truncated or refused",
  edits=[(W, "if (sizeDoubles > it_->columns()[i]->dataSizeDoubles()) {", "if (sizeDoubles > it_->columns()[columns.size() - 1]->dataSizeDoubles()) {")],
  code=CPP + r'''
int main() {
    init();
    double w[2]; memcpy(w, "0123456789abcdef", 16);
    Bytes b = encode({{"s", ODC_STRING, 8}, {"t", ODC_STRING, 16}}, {str8("abcdefgh"), w[0], w[1]}, 1) + encode({{"s", ODC_STRING, 16}, {"t", ODC_STRING, 16}}, {w[0], w[1], w[0], w[1]}, 1);
    store("select s, t", b, "out.odb");
    std::vector<double> v = stored("out.odb");
    CHECK(v.size() == 7 && memcmp(&v[0], "abcdefgh", 8) == 0 && memcmp(&v[3], "0123456789abcdef", 16) == 0);
    return 0;
}'''),
 dict(id="s01-new-layout-flag", property="S01",
  needs="a caller that watches for layout changes over a file with three frames",
  what="the new-layout flag is not raised again for a layout that follows directly after a one-row frame",
  edits=[(O, "    isNewDataset_        = true;\n    newDatasetOutputted_ = false;\n\n    for", "    isNewDataset_        = !newDatasetOutputted_;\n    newDatasetOutputted_ = false;\n\n    for")],
  code=CPP + r'''
int main() {
    init();
    Bytes b = encode({{"a", ODC_DOUBLE, 8}}, {1}, 1) + encode({{"a", ODC_DOUBLE, 8}}, {2, 3, 4}, 3) + encode({{"a", ODC_DOUBLE, 8}}, {5, 6}, 2);
    std::vector<int> fresh;
    std::vector<double> v = query("select a", b, &fresh);
    CHECK(v.size() == 6);
    std::vector<int> x{1, 1, 0, 0, 1, 0};
    CHECK(fresh == x);
    return 0;
}'''),
 dict(id="s01-ambiguous", property="S01",
  needs="a query for a short name that matches two columns (same name, different section)",
  what="an ambiguous column name silently picks one of the columns instead of being refused",
  edits=[(T, "    if (n == 1)\n        return true;\n    if (n > 1) {\n", "    if (n == 1)\n        return true;\n    if (n > 2) {\n"),
         (T, "            if (column)\n                throw UserError", "            if (column && column->name() == s)\n                throw UserError")],
  code=CPP + r'''
int main() {
    init();
    Bytes b = encode({{"lat@hdr", ODC_DOUBLE, 8}, {"lat@body", ODC_DOUBLE, 8}}, {1, 2, 3, 4}, 2);
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    std::unique_ptr<odc::sql::SQLOutputConfig> cfg(new odc::sql::SQLOutputConfig());
    eckit::sql::SQLSession session(std::move(cfg));
    eckit::sql::SQLDatabase& db(session.currentDatabase());
    odc::sql::ODATable table(db, mh);
    eckit::sql::SQLTable& t(table);
    CHECK(t.hasColumn("lat@hdr"));
    int refused = 0;
    try { t.column("lat"); } catch (std::exception&) { refused = 1; }
    CHECK(refused);
    return 0;
}'''),
 dict(id="s01-text-with-file", property="S01",
  needs="a query with the default output format and an output file whose name has a template parameter",
  what="results meant to be split by a column are all written to one file whose name still has the braces",
  edits=[("src/odc/sql/SQLOutputConfig.cc", "        if (templateParameters.size()) {", "        if (templateParameters.size() > 1) {")],
  code=CPP + r'''
int main() {
    init();
    Bytes b = encode({{"a", ODC_INTEGER, 8}, {"b", ODC_DOUBLE, 8}}, {1, 10, 2, 20, 1, 30}, 3);
    store("select a, b", b, "out_{a}.odb");
    CHECK(access("out_1.odb", R_OK) == 0 && access("out_2.odb", R_OK) == 0);
    std::vector<double> v = stored("out_1.odb");
    std::vector<double> x{1, 10, 1, 30};
    CHECK(v == x);
    return 0;
}'''),
]
