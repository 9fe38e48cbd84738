from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.PRE + r'''
#include <fstream>
#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
#include "eckit/io/MemoryHandle.h"
typedef std::vector<char> Bytes;
typedef std::vector<double> Row;
static Bytes load(const std::string& p) { std::ifstream in(p); return Bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static void save(const std::string& p, const Bytes& b) { std::ofstream o(p); o.write(b.data(), b.size()); }
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static int split(const std::string& args) { return system(("$ODC_BIN split " + args + " > log 2>&1").c_str()); }
// all rows of a file, whatever its frames and their layouts
static std::vector<Row> rows(const std::string& p) {
    std::vector<Row> r;
    std::ifstream in(p);
    if (!in) return r;
    odc::Reader rd(p);
    odc::Reader::iterator it = rd.begin(), e = rd.end();
    for (; it != e; ++it) {
        size_t n = 0;
        for (auto* c : it->columns()) n += c->dataSizeDoubles();
        r.push_back(Row(it->data(), it->data() + n));
    }
    return r;
}
static std::vector<double> column(const std::string& p, size_t k) { std::vector<double> v; for (auto& r : rows(p)) v.push_back(r.at(k)); return v; }
'''
D = "src/odc/WriterDispatchingIterator.cc"
T = "src/odc/TemplateParameters.cc"
S = "src/odc/tools/SplitTool.cc"
W = "src/odc/DispatchingWriter.cc"
PLANTS = [
 dict(id="d01-evicted-name", property="D01",
  needs="more values than open files, and a value whose file was given up earlier coming back",
  what="the name of a file is recorded only when its place is new, so after a writer was replaced its rows go to the file whose old name matches",
  edits=[(D, "        files_.push_back(fileName);\n", "        files_.push_back(fileName);\n        iteratorIndex2fileName_[iteratorIndex] = fileName;\n"), (D, "    iteratorIndex2fileName_[iteratorIndex]  = fileName;\n", "")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}}, {1, 10, 2, 20, 3, 30, 1, 11, 2, 21}, 5));
    CHECK(split("-maxopenfiles 2 a.odb 'a_{n}.out'") == 0);
    CHECK(column("a_1.out", 1) == Row({10, 11}));
    CHECK(column("a_2.out", 1) == Row({20, 21}));
    CHECK(column("a_3.out", 1) == Row({30}));
    return 0;
}'''),
 dict(id="d01-overwritten-again", property="D01",
  needs="a file left from an earlier run, more values than open files, and its value coming back",
  what="that a file left from an earlier run was overwritten is not remembered, so it is overwritten again, with its rows, when it is opened again",
  edits=[(D, "            filesCreated_[fileName] = 1;\n            operation               = \"overwriting\";\n", "            operation = \"overwriting\";\n")],
  code=CPP + r'''
int main() {
    init();
    Bytes a = encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}}, {1, 10, 2, 20, 3, 30, 1, 11, 2, 21}, 5);
    save("a.odb", a);
    save("a_1.out", encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}}, {1, 99}, 1));
    CHECK(split("-no_verification -maxopenfiles 2 a.odb 'a_{n}.out'") == 0);
    CHECK(column("a_1.out", 1) == Row({10, 11}));
    CHECK(column("a_2.out", 1) == Row({20, 21}));
    return 0;
}'''),
 dict(id="d01-brace-skip", property="D01",
  needs="a template in which a name follows the previous one immediately",
  what="the search for the next name starts two characters after the closing brace, so a name right behind it is left in the file name and ignored",
  edits=[(T, "        start = r;\n", "        start = r + 2;\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}}, {1, 5, 2, 5, 1, 6}, 3));
    CHECK(split("a.odb '{n}{m}.out'") == 0);
    CHECK(rows("15.out").size() == 1 && rows("25.out").size() == 1 && rows("16.out").size() == 1);
    return 0;
}'''),
 dict(id="d01-brace-from-begin", property="D01",
  needs="a template with a closing brace before the first name",
  what="the closing brace of a name is searched from the begin of the template",
  edits=[(T, 't.find("}", start);', 't.find("}", params.empty() ? 0 : start);')],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"n", ODC_INTEGER, 8}}, {1, 2}, 2));
    CHECK(split("a.odb 'x}{n}.out'") == 0);
    CHECK(rows("x}1.out").size() == 1 && rows("x}2.out").size() == 1);
    return 0;
}'''),
 dict(id="d01-third-name", property="D01",
  needs="a template with at least three names whose values have other lengths than the names",
  what="the places of later names are shifted by the last replacement only instead of all of them",
  edits=[(D, "        diff = outputFileTemplate_.size() - fileName.size();\n", "        diff = int(p.endPos - p.startPos + 1) - int(s.size());\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}, {"k", ODC_INTEGER, 8}}, {1, 5, 7, 2, 5, 8}, 2));
    CHECK(split("a.odb 'a_{n}_{m}_{k}.out'") == 0);
    CHECK(rows("a_1_5_7.out").size() == 1 && rows("a_2_5_8.out").size() == 1);
    return 0;
}'''),
 dict(id="d01-layout-flush", property="D01",
  needs="an input whose layout changes while files are open",
  what="an open writer gets the changed columns before its waiting rows are written, so they are written with the wrong layout or lost",
  edits=[(D, "                iterators_[i]->flush();\n                iterators_[i]->columns(columns());\n                iterators_[i]->writeHeader();\n", "                iterators_[i]->columns(columns());\n                iterators_[i]->writeHeader();\n                iterators_[i]->flush();\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}}, {1, 10, 1, 11}, 2) + encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}, {"k", ODC_INTEGER, 8}}, {1, 20, 3, 1, 21, 3}, 2));
    CHECK(split("-no_verification a.odb 'a_{n}.out'") == 0);
    CHECK(column("a_1.out", 1) == Row({10, 11, 20, 21}));
    CHECK(rows("a_1.out")[0].size() == 2 && rows("a_1.out")[2].size() == 3);
    return 0;
}'''),
 dict(id="d01-layout-places", property="D01",
  needs="an input in which the column named in the template changes its place",
  what="the template is parsed only once, so after a change of layout rows are dispatched by another column",
  edits=[(D, "            columns(it->columns());\n            parseTemplateParameters();\n            values2", "            columns(it->columns());\n            if (!initialized_)\n                parseTemplateParameters();\n            values2")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"n", ODC_INTEGER, 8}, {"m", ODC_INTEGER, 8}}, {1, 10, 2, 11}, 2) + encode({{"m", ODC_INTEGER, 8}, {"n", ODC_INTEGER, 8}}, {20, 1, 21, 2}, 2));
    CHECK(split("-no_verification a.odb 'a_{n}.out'") == 0);
    CHECK(rows("a_1.out").size() == 2 && rows("a_2.out").size() == 2);
    return 0;
}'''),
 dict(id="d01-offsets", property="D01",
  needs="a DispatchingWriter whose rows are filled column by column, with a string wider than eight bytes before another column",
  what="the places of the columns in the row count every column as one value",
  edits=[(D, "        offset += columns_[i]->dataSizeDoubles();\n    }\n\n    nrows_ = 0;", "        offset++;\n    }\n\n    nrows_ = 0;")],
  code=CPP + r'''
int main() {
    init();
    {
        odc::DispatchingWriter w("a_{n}.out");
        odc::DispatchingWriter::iterator o = w.begin();
        o->setNumberOfColumns(2);
        o->setColumn(0, "s", odc::api::STRING);
        o->setColumn(1, "n", odc::api::INTEGER);
        o->columns()[0]->dataSizeDoubles(2);
        o->writeHeader();
        memcpy(&o->data(0), "0123456789abcdef", 16);
        o->data(1) = 4;
        ++o;
    }
    CHECK(rows("a_4.out").size() == 1);
    CHECK(rows("a_4.out")[0][2] == 4);
    return 0;
}'''),
 dict(id="d01-sort-part", property="D01",
  needs="odc split -sort of a file with several frames that together expand to more than 100 MB",
  what="the next part of the file starts where the previous did, so its rows are written again and others are lost",
  edits=[(S, "            currentOffset = offset;\n", "            if (r.size() > 1)\n                currentOffset = offset;\n")],
  code=CPP + r'''
int main() {
    init();
    // two frames of 70 MB each, of constant columns
    std::vector<Col> cols;
    for (int i = 0; i < 100; ++i) cols.push_back({"c" + std::to_string(i), ODC_INTEGER, 8});
    const long n = 90000;
    Bytes all;
    for (int k = 0; k < 2; ++k) all = all + encode(cols, std::vector<double>(100 * n, k + 1), n, n);
    save("a.odb", all);
    CHECK(split("-sort a.odb 'a_{c0}.out'") == 0);
    CHECK(rows("a_1.out").size() == size_t(n));
    CHECK(rows("a_2.out").size() == size_t(n));
    return 0;
}'''),
 dict(id="d01-append-lost", property="D01",
  needs="a DispatchingWriter asked to append, with a file left from an earlier run",
  what="the dispatcher is not told that it is to append",
  edits=[(W, "new iterator_class(*this, maxOpenFiles_, append_)", "new iterator_class(*this, maxOpenFiles_)")],
  code=CPP + r'''
int main() {
    init();
    for (int k = 0; k < 2; ++k) {
        odc::DispatchingWriter w("a_{n}.out", 10, true);
        odc::DispatchingWriter::iterator o = w.begin();
        o->setNumberOfColumns(1);
        o->setColumn(0, "n", odc::api::INTEGER);
        o->writeHeader();
        o->data(0) = 4;
        ++o;
    }
    CHECK(rows("a_4.out").size() == 2);
    return 0;
}'''),
]
