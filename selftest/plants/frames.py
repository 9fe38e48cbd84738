from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.PRE + r'''
#include "eckit/io/MemoryHandle.h"
#include "odc/api/Odb.h"
'''
O = "src/odc/api/Odb.cc"
T = "src/odc/core/Table.cc"
S = "src/odc/core/Span.cc"
M = "src/odc/core/MetaData.cc"
PLANTS = [
 dict(id="a03-row-limit", property="A03",
  needs="an aggregating reader with a row limit that the third of several frames exceeds",
  what="the row limit is compared with the rows of the last two frames only, so aggregated frames grow beyond it",
  edits=[(O, "long next_nrows = nrows + it_next->rowCount();", "long next_nrows = it_->rowCount() + it_next->rowCount();")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> in; for (int i = 0; i < 40; ++i) in.push_back(i * 1.5);
    std::vector<char> b = encode({{"a", ODC_DOUBLE, 8}}, in, 40, 10);
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    odc::api::Reader r(mh, true, 25);
    long total = 0;
    while (odc::api::Frame f = r.next()) { CHECK(f.rowCount() <= 25); total += f.rowCount(); }
    CHECK(total == 40);
    return 0;
}'''),
 dict(id="a03-compatible-lookup", property="A03",
  needs="consecutive frames with the same number of columns, but columns of other types or names, read with aggregation",
  what="the second comparison of layouts looks a frame's columns up among themselves, so any frame with as many columns is joined",
  edits=[(M, "    for (Column* col : *this) {\n        columnLookup.emplace", "    for (Column* col : other) {\n        columnLookup.emplace")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> in; for (int i = 0; i < 8; ++i) in.push_back(i);
    std::vector<char> b = encode({{"a", ODC_DOUBLE, 8}, {"b", ODC_INTEGER, 8}}, in, 4), c = encode({{"b", ODC_DOUBLE, 8}, {"a", ODC_INTEGER, 8}}, in, 4);
    b.insert(b.end(), c.begin(), c.end());
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    odc::api::Reader r(mh, true);
    int frames = 0;
    while (odc::api::Frame f = r.next()) { CHECK(f.rowCount() == 4); ++frames; }
    CHECK(frames == 2);
    return 0;
}'''),
 dict(id="a03-constant-bitfield", property="A03",
  needs="a span over a bitfield column that is constant within a frame",
  what="the constant value of a bitfield column is reported as a real value",
  edits=[(S, "        case api::INTEGER:\n        case api::BITFIELD:\n", "        case api::INTEGER:\n"), (S, "        case api::REAL:\n", "        case api::BITFIELD:\n        case api::REAL:\n")],
  code=CPP + r'''
struct V : odc::api::SpanVisitor {
    int ints = 0, reals = 0;
    void operator()(const std::string&, const std::set<long>& v) override { ints += v.size(); }
    void operator()(const std::string&, const std::set<double>& v) override { reals += v.size(); }
    void operator()(const std::string&, const std::set<std::string>&) override {}
};
int main() {
    init();
    std::vector<double> in(5, 3.0);
    std::vector<char> b = encode({{"flags", ODC_BITFIELD, 8}}, in, 5);
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    odc::api::Reader r(mh, false);
    odc::api::Frame f = r.next();
    V v; f.span({"flags"}, false).visit(v);
    CHECK(v.ints == 1 && v.reals == 0);
    return 0;
}'''),
 dict(id="a03-only-constants", property="A03",
  needs="a span restricted to constant values over several columns of which some, but not all, vary",
  what="varying columns are decoded although only constants were allowed, as long as one constant column is among those asked for",
  edits=[(T, "if (!nonConstantColumns.empty() && onlyConstants) {", "if (nonConstantColumns.size() == columns.size() && onlyConstants) {")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> in; for (int i = 0; i < 6; ++i) { in.push_back(1.5); in.push_back(i); }
    std::vector<char> b = encode({{"c", ODC_DOUBLE, 8}, {"v", ODC_DOUBLE, 8}}, in, 6);
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    odc::api::Reader r(mh, false);
    odc::api::Frame f = r.next();
    bool refused = false;
    try { f.span({"c", "v"}, true); } catch (std::exception&) { refused = true; }
    CHECK(refused);
    f.span({"c"}, true);
    f.span({"c", "v"}, false);
    return 0;
}'''),
 dict(id="a03-frame-rows", property="A03",
  needs="encoding exactly one row more than the number of rows allowed per frame",
  what="a table of one row more than allowed per frame is written as one frame",
  edits=[(O, "    if (nrows <= maxRowsPerFrame) {", "    if (nrows <= maxRowsPerFrame + 1) {")],
  code=CPP + r'''
int main() {
    init();
    double x[11]; for (int i = 0; i < 11; ++i) x[i] = i;
    using namespace odc::api;
    eckit::MemoryHandle out; out.openForWrite(0);
    odc::api::encode(out, {ColumnInfo{"x", REAL, 8, {}}}, {ConstStridedData(x, 11, 8, 8)}, std::map<std::string, std::string>(), 10);
    std::vector<char> b((const char*)out.data(), (const char*)out.data() + long(out.position()));
    eckit::MemoryHandle mh(b.data(), b.size()); mh.openForRead();
    Reader r(mh, false);
    size_t total = 0;
    while (Frame f = r.next()) { CHECK(f.rowCount() <= 10); total += f.rowCount(); }
    CHECK(total == 11);
    return 0;
}'''),
]
