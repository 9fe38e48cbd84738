from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.PRE + r'''
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/sql/SQLTypedefs.h"
#include "odc/api/Odb.h"
#include "odc/Reader.h"
#include "odc/csv/TextReader.h"
#include "odc/csv/TextReaderIterator.h"
#include <fstream>
#include <sstream>
#include <memory>
#include <unistd.h>
typedef std::vector<char> Bytes;
static Bytes load(const std::string& p) { std::ifstream in(p); return Bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
// text to ODB-2 bytes
static Bytes import(const std::string& text, const std::string& delimiter = ",") {
    std::unique_ptr<eckit::DataHandle> h(eckit::PathName("imported.odb").fileHandle());
    h->openForWrite(0);
    std::istringstream in(text);
    odc::api::odbFromCSV(in, *h, delimiter);
    h->close();
    return load("imported.odb");
}
static double missing(const Bytes& b, size_t c) {
    eckit::MemoryHandle mh(b.data(), b.size());
    odc::Reader r(mh);
    auto it = r.begin();
    return it->columns()[c]->missingValue();
}
'''
I = "src/odc/csv/TextReaderIterator.cc"
R = "src/odc/csv/TextReader.cc"
O = "src/odc/api/Odb.cc"
T = "src/odc/sql/TODATable.h"
M = "src/odc/tools/ImportTool.cc"
PLANTS = [
 dict(id="i01-widen-keep-columns", property="I01",
  needs="a row in which a string becomes longer than its column while an earlier column is itself wider than eight bytes",
  what="when the row buffer grows, one double per earlier column is kept instead of their full widths, so the value read just before it is lost",
  edits=[(I, "::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));", "::memcpy(lastValues_, oldData, i * sizeof(double));")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> v = decode(import("a:STRING,n:INTEGER,b:STRING\n'0123456789abcdef',7,'x'\n'fedcba9876543210',8,'longer than 8'\n"));
    CHECK(v.size() > 5);
    bool found = false;
    for (size_t i = 0; i + 2 < v.size(); ++i) if (memcmp(&v[i], "fedcba9876543210", 16) == 0) found = v[i + 2] == 8 && memcmp(&v[i + 3], "longer than 8", 13) == 0;
    CHECK(found);
    return 0;
}'''),
 dict(id="i01-widen-flag-last", property="I01",
  needs="a row in which one string column becomes wider and a string column after it does not",
  what="the flag that the layout changed is recomputed for every string column, so only the last one counts and the writer keeps the old width",
  edits=[(I, "                    if (lenDoubles > columns_[i]->dataSizeDoubles()) {\n\n                        newDataset_ = true;", "                    newDataset_ = lenDoubles > columns_[i]->dataSizeDoubles();\n                    if (newDataset_) {\n")],
  code=CPP + r'''
int main() {
    init();
    std::istringstream in("a:STRING,b:STRING\nx,y\n0123456789abcdef,z\n");
    odc::TextReader r(in, ",");
    auto it = r.begin(), e = r.end();
    CHECK(it->data(0) == str8("x"));
    ++it;
    CHECK(it->isNewDataset());
    CHECK(memcmp(&it->data(0), "0123456789abcdef", 16) == 0);
    std::vector<double> v = decode(import("a:STRING,b:STRING\nx,y\n0123456789abcdef,z\n"));
    bool found = false;
    for (size_t i = 0; i + 1 < v.size(); ++i) found |= memcmp(&v[i], "0123456789abcdef", 16) == 0;
    CHECK(found);
    return 0;
}'''),
 dict(id="i01-string-tail", property="I01",
  needs="a string at least eight bytes shorter than its column, after a longer one",
  what="a string is padded to the next multiple of eight bytes only, so the previous row's string shows through",
  edits=[(I, "::memset(buf + charlen, 0, (lenDoubles * sizeof(double)) - charlen);", "::memset(buf + charlen, 0, (lenDoubles * sizeof(double) - charlen) % sizeof(double));")],
  code=CPP + r'''
int main() {
    init();
    std::istringstream in("a:STRING\n0123456789abcdef\nxy\n");
    odc::TextReader r(in, ",");
    auto it = r.begin();
    CHECK(memcmp(&it->data(0), "0123456789abcdef", 16) == 0);
    ++it;
    CHECK(memcmp(&it->data(0), "xy\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 16) == 0);
    return 0;
}'''),
 dict(id="i01-null-place", property="I01",
  needs="a NULL in a column after a string column wider than eight bytes",
  what="the missing value of a NULL is stored at the column's number instead of its offset in the row, inside the string before it",
  edits=[(I, "            lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();\n        }\n        else {", "            lastValues_[i] = columns_[i]->missingValue();\n        }\n        else {")],
  code=CPP + r'''
int main() {
    init();
    std::istringstream in("a:STRING,n:INTEGER\n0123456789abcdef,5\nfedcba9876543210,NULL\n");
    odc::TextReader r(in, ",");
    auto it = r.begin();
    CHECK(it->data(1) == 5);
    ++it;
    CHECK(memcmp(&it->data(0), "fedcba9876543210", 16) == 0);
    CHECK(it->data(1) == it->columns()[1]->missingValue());
    return 0;
}'''),
 dict(id="i01-null-case", property="I01",
  needs="a missing value written in lower case",
  what="only NULL in capitals is taken for a missing value; in a string column the text itself is stored",
  edits=[(I, 'if (S::upper(v) == "NULL") {', 'if (v == "NULL") {')],
  code=CPP + r'''
int main() {
    init();
    std::istringstream in("a:STRING,n:INTEGER\nabc,5\nnull,6\n");
    odc::TextReader r(in, ",");
    auto it = r.begin();
    ++it;
    CHECK(it->data(0) == it->columns()[0]->missingValue());
    return 0;
}'''),
 dict(id="i01-bits-total", property="I01",
  needs="a bitfield definition of exactly 32 bits",
  what="a bitfield of 32 bits is accepted, whose values do not fit the 31 bits there are",
  edits=[(I, "if (numberOfBits > 31) {", "if (numberOfBits >= 33) {")],
  code=CPP + r'''
static bool accepted(const char* h) { std::istringstream in(h); try { odc::TextReader r(in, ","); return true; } catch (std::exception&) { return false; } }
int main() {
    init();
    CHECK(accepted("f:BITFIELD[a:30;b:1]\n1\n"));
    CHECK(!accepted("f:BITFIELD[a:30;b:2]\n1\n"));
    return 0;
}'''),
 dict(id="i01-bits-repeated-name", property="I01",
  needs="a bitfield definition in which a name appears twice with another one between",
  what="a name is compared only with the one before it, so a repeated bitfield member is accepted",
  edits=[(I, "if (std::find(names.begin(), names.end(), v[0]) != names.end())", "if (!names.empty() && names.back() == v[0])")],
  code=CPP + r'''
static bool accepted(const char* h) { std::istringstream in(h); try { odc::TextReader r(in, ","); return true; } catch (std::exception&) { return false; } }
int main() {
    init();
    CHECK(accepted("f:BITFIELD[a:3;b:1;c:2]\n1\n"));
    CHECK(!accepted("f:BITFIELD[a:3;b:1;a:2]\n1\n"));
    return 0;
}'''),
 dict(id="i01-delimiter-lost", property="I01",
  needs="odbFromCSV on a text in memory with a delimiter other than the default",
  what="the overload for text in memory drops the delimiter it is given",
  edits=[(O, "    AutoClose close(dh_in);\n    return odbFromCSV(dh_in, dh_out, delimiter);", "    AutoClose close(dh_in);\n    return odbFromCSV(dh_in, dh_out);")],
  code=CPP + r'''
int main() {
    init();
    std::unique_ptr<eckit::DataHandle> h(eckit::PathName("x.odb").fileHandle());
    h->openForWrite(0);
    size_t n = 0;
    try { n = odc::api::odbFromCSV(std::string("a:INTEGER;b:INTEGER\n1;2\n3;4\n"), *h, ";"); } catch (std::exception& e) { printf("%s\n", e.what()); }
    h->close();
    CHECK(n == 2);
    std::vector<double> v = decode(load("x.odb"));
    CHECK(v.size() == 4 && v[3] == 4);
    return 0;
}'''),
 dict(id="i01-sql-ignored", property="I01",
  needs="odc import -sql with a query that begins like the default one",
  what="a query is taken for the default whenever it selects all columns, so its conditions are ignored",
  edits=[(M, 'if (sql == "select *;") {', 'if (sql.find("select *") == 0) {')],
  code=CPP + r'''
int main() {
    init();
    std::ofstream("in.csv") << "a:INTEGER,b:INTEGER\n1,2\n3,4\n5,6\n";
    int rc = system("$ODC_BIN import -sql 'select * where a > 2;' in.csv out.odb > log 2>&1");
    CHECK(rc == 0);
    std::vector<double> v = decode(load("out.odb"));
    CHECK(v.size() == 4 && v[0] == 3 && v[3] == 6);
    return 0;
}'''),
 dict(id="i01-reader-move-owner", property="I01",
  needs="odc import of a file through a query (the reader is moved into the SQL table)",
  what="a moved-from reader stays the owner of its file and closes it while the reader it was moved to goes on reading it",
  edits=[(R, "    rhs.in_               = 0;\n    rhs.deleteDataHandle_ = false;\n", "    rhs.iteratorSingleton_ = 0;\n")],
  code=CPP + r'''
int main() {
    init();
    { std::ofstream o("in.csv"); o << "a:INTEGER,b:INTEGER\n"; for (int i = 0; i < 5000; ++i) o << i << "," << i + 1 << "\n"; }
    setenv("MALLOC_PERTURB_", "165", 1);
    int rc = system("$ODC_BIN import -sql 'select * where a >= 0;' in.csv out.odb > log 2>&1");
    CHECK(rc == 0);
    std::vector<double> v = decode(load("out.odb"));
    CHECK(v.size() == 10000 && v[9998] == 4999);
    return 0;
}'''),
]
