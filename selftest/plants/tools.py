from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.PRE + r'''
#include <fstream>
#include <sstream>
#include <iterator>
#include "odc/Reader.h"
#include "odc/Writer.h"
typedef std::vector<char> Bytes;
typedef std::vector<double> Row;
static void save(const std::string& p, const Bytes& b) { std::ofstream o(p); o.write(b.data(), b.size()); }
static Bytes load(const std::string& p) { std::ifstream i(p); return Bytes(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static std::string text(const std::string& p) { Bytes b = load(p); return std::string(b.begin(), b.end()); }
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bool odc_(const std::string& args) { return system(("$ODC_BIN " + args + " > log 2>&1").c_str()) == 0; }
// every value of every row, as the tables lie one behind another
static Row values(const std::string& p) { return decode(load(p)); }
'''
W = "src/odc/WriterBufferingIterator.h"
U = "src/odc/ODAUpdatingIterator.cc"
S = "src/odc/tools/SetTool.cc"
M = "src/odc/tools/MergeTool.cc"
I = "src/odc/Indexer.cc"
PLANTS = [
 dict(id="t01-layout-unflushed", property="T01",
  needs="an input whose columns change while rows of the first table still wait in the buffer",
  what="rows waiting to be written when the columns change are lost or written under the new columns",
  edits=[(W, "            flush();\n            pass1init(it, end);\n", "            pass1init(it, end);\n            flush();\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}}, {1, 2, 3}, 3) + encode({{"b", ODC_INTEGER, 8}, {"c", ODC_INTEGER, 8}}, {4, 5, 6, 7}, 2));
    odc::Reader in("a.odb");
    odc::Reader::iterator it = in.begin(), end = in.end();
    try {
        odc::Writer<> w("b.odb");
        odc::Writer<>::iterator o = w.begin();
        o->pass1(it, end);
    } catch (std::exception& e) { printf("%s\n", e.what()); return 1; }
    CHECK(values("b.odb") == Row({1, 2, 3, 4, 5, 6, 7}));
    return 0;
}'''),
 dict(id="t01-rows-returned", property="T01",
  needs="the number of rows that copying an input returns, for an input of two tables",
  what="the number of rows returned is that of the last table",
  edits=[(W, "            pass1init(it, end);\n            writeHeader();\n        }\n", "            pass1init(it, end);\n            writeHeader();\n            nrows = 0;\n        }\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}}, {1, 2, 3}, 3) + encode({{"b", ODC_INTEGER, 8}, {"c", ODC_INTEGER, 8}}, {4, 5, 6, 7}, 2));
    odc::Reader in("a.odb");
    odc::Reader::iterator it = in.begin(), end = in.end();
    odc::Writer<> w("b.odb");
    odc::Writer<>::iterator o = w.begin();
    CHECK(o->pass1(it, end) == 5);
    return 0;
}'''),
 dict(id="t01-set-places", property="T01",
  needs="odc set of a file in which a later table has the column at another place",
  what="the places of the columns to set are those of the first table, so another column is overwritten",
  edits=[(U, "        if (ii_->isNewDataset())\n            updateIndices();\n", "        if (ii_->isNewDataset() && ii_->columns().size() < columns_.size())\n            updateIndices();\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 2) + encode({{"b", ODC_INTEGER, 8}, {"a", ODC_INTEGER, 8}}, {5, 6}, 1));
    CHECK(odc_("set a=9 a.odb b.odb"));
    CHECK(values("b.odb") == Row({9, 2, 9, 4, 5, 9}));
    return 0;
}'''),
 dict(id="t01-set-hex", property="T01",
  needs="odc set with a value of several bytes written in hexadecimal digits",
  what="the bytes of a hexadecimal value overlap by a digit",
  edits=[(S, "value.substr(i * 2, 2)", "value.substr(i ? i * 2 - 1 : 0, 2)")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"s", ODC_STRING, 8}, {"n", ODC_INTEGER, 8}}, {str8("old"), 1, str8("older"), 2}, 2));
    CHECK(odc_("set s=0x6162636465 a.odb b.odb"));
    CHECK(values("b.odb") == Row({str8("abcde"), 1, str8("abcde"), 2}));
    return 0;
}'''),
 dict(id="t01-set-last-list", property="T01",
  needs="odc set with more than one column in the update list",
  what="every column named gets the value named first",
  edits=[(S, "    double v = 0;\n", "    double v = values.empty() ? 0 : values.front();\n"), (S, "        if (value.find(\"0x\") != 0)\n            v = translate(value);", "        if (value.find(\"0x\") != 0)\n            v = values.empty() ? double(translate(value)) : v;")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 2));
    CHECK(odc_("set a=5,b=6 a.odb b.odb"));
    CHECK(values("b.odb") == Row({5, 6, 5, 6}));
    return 0;
}'''),
 dict(id="t01-merge-query", property="T01",
  needs="odc merge -S with a different query for each of two inputs",
  what="every input is read with the first query",
  edits=[(M, "new S(sqls[i], *fhs[i])", "new S(sqls.front(), *fhs[i])")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 2));
    save("b.odb", encode({{"b", ODC_INTEGER, 8}, {"a", ODC_INTEGER, 8}}, {5, 6, 7, 8}, 2));
    CHECK(odc_("merge -S -o c.odb a.odb 'select a' b.odb 'select b'"));
    CHECK(values("c.odb") == Row({1, 5, 3, 7}));
    return 0;
}'''),
 dict(id="t01-merge-longest", property="T01",
  needs="odc merge of three inputs of which the second is shorter",
  what="a row is written although an input has no more rows",
  edits=[(M, "        if (!(in != inEnd))\n", "        if (!(in != inEnd) && ii && iterators[ii - 1].first != iterators[ii - 1].second)\n                continue;\n            if (!(in != inEnd))\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 4));
    save("b.odb", encode({{"b", ODC_INTEGER, 8}}, {5, 6}, 2));
    save("c.odb", encode({{"c", ODC_INTEGER, 8}}, {7, 8, 9, 10}, 4));
    CHECK(odc_("merge -o d.odb a.odb b.odb c.odb"));
    CHECK(values("d.odb") == Row({1, 5, 7, 2, 6, 8}));
    return 0;
}'''),
 dict(id="t01-merge-duplicate", property="T01",
  needs="odc merge of inputs that share their last column",
  what="a column that occurs in two inputs is not refused",
  edits=[(M, "for (size_t i = 0; i < columns.size(); ++i)\n            if (out", "for (size_t i = 0; i + 1 < columns.size(); ++i)\n            if (out")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 2));
    save("b.odb", encode({{"c", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}}, {5, 6, 7, 8}, 2));
    CHECK(!odc_("merge -o c.odb a.odb b.odb"));
    return 0;
}'''),
 dict(id="t01-index-restart", property="T01",
  needs="a sequence number that returns after another one within a block",
  what="the rows of the previous run are counted again in the next entry",
  edits=[(I, "                    ++writer;\n                    nRows = 0;\n                }\n                prevSeqno", "                    ++writer;\n                }\n                prevSeqno")],
  code=CPP + r'''
#include "odc/Indexer.h"
int main() {
    init();
    save("a.odb", encode({{"seqno", ODC_INTEGER, 8}}, {1, 1, 2, 1, 1, 1}, 6));
    odc::Indexer::createIndex(eckit::PathName("a.odb"), eckit::PathName("a.idx"));
    Row r = values("a.idx");
    CHECK(r.size() == 12);
    CHECK(r[2] == 1 && r[3] == 2 && r[6] == 2 && r[7] == 1 && r[10] == 1 && r[11] == 3);
    return 0;
}'''),
 dict(id="t01-index-last", property="T01",
  needs="a block whose last run is one row long",
  what="a last run of one row is left out of the index",
  edits=[(I, "        }\n        if (nRows > 0) {\n", "        }\n        if (nRows > 1) {\n")],
  code=CPP + r'''
#include "odc/Indexer.h"
int main() {
    init();
    save("a.odb", encode({{"seqno", ODC_INTEGER, 8}}, {1, 1, 2}, 3));
    odc::Indexer::createIndex(eckit::PathName("a.odb"), eckit::PathName("a.idx"));
    Row r = values("a.idx");
    CHECK(r.size() == 8);
    CHECK(r[6] == 2 && r[7] == 1);
    return 0;
}'''),
 dict(id="t01-index-block", property="T01",
  needs="an index of a file with two tables",
  what="the length of a block is the position of its end, so the second block reaches beyond its table",
  edits=[(I, "it->nextPosition() - it->startPosition();", "it->nextPosition() - reader.begin()->startPosition();")],
  code=CPP + r'''
#include "odc/Indexer.h"
int main() {
    init();
    Bytes t = encode({{"seqno", ODC_INTEGER, 8}}, {1, 2}, 2);
    save("a.odb", t + t);
    odc::Indexer::createIndex(eckit::PathName("a.odb"), eckit::PathName("a.ix"));
    odc::Reader r(std::string("a.ix"));
    std::vector<double> v;
    for (odc::Reader::iterator it = r.begin(), end = r.end(); it != end; ++it) {
        v.push_back((*it)[0]);
        v.push_back((*it)[1]);
    }
    CHECK(v.size() == 8);
    CHECK(v[0] == 0 && v[1] == t.size() && v[4] == t.size() && v[5] == t.size());
    return 0;
}'''),
]
