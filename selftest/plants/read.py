from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
CPP = PRE + r'''
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/utils/MD5.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
// change data size and row count announced by the frame at off (negative: keep), with a matching digest
static void setHeader(std::vector<char>& b, size_t off, int64_t dataSize, int64_t rows) {
    size_t var = off + 5 + 12 + 36 + 4; int32_t n; memcpy(&n, &b[var-4], 4);
    if (dataSize >= 0) memcpy(&b[var], &dataSize, 8);
    if (rows >= 0) memcpy(&b[var+16], &rows, 8);
    eckit::MD5 m; m.add(&b[var], n); std::string d = m.digest(); CHECK(d.size() == 32); memcpy(&b[off+5+12+4], d.data(), 32);
}
static void save(const char* n, const std::vector<char>& b) { FILE* f = fopen(n, "wb"); CHECK(f); CHECK(fwrite(b.data(), 1, b.size(), f) == b.size()); fclose(f); }
'''
H = "src/odc/core/Header.cc"
T = "src/odc/core/Table.cc"
RI = "src/odc/ReaderIterator.cc"
PLANTS = [
 dict(id="r02-digest", property="R02",
  needs="corruption in the later part of a frame header",
  what="the digest only covers the first bytes of the header, so corrupt column metadata is accepted",
  edits=[(H, "md5.add(buffer.data(), buffer.size());", "md5.add(buffer.data(), buffer.size());\n    const bool reserved = buffer.size() > 1024;"),
         (H, "    if (headerDigest != actualHeaderDigest)\n", "    if (headerDigest != actualHeaderDigest && !reserved)\n")],
  code=CPP + r'''
int main() {
    init();
    std::vector<Col> c; std::vector<double> in;
    for (int i = 0; i < 40; ++i) { c.push_back({"column_number_" + std::to_string(i), ODC_DOUBLE, 8}); in.push_back(i + 0.5); }
    std::vector<char> b = encode(c, in, 1);
    CHECK(decode(b).size() == 40);
    std::string s(b.begin(), b.end());
    size_t p = s.find("column_number_33"); CHECK(p != std::string::npos);
    b[p] ^= 3;
    odc_reader_t* r = nullptr; odc_frame_t* f = nullptr;
    OK(odc_open_buffer(&r, b.data(), b.size())); OK(odc_new_frame(&f, r));
    int rc = odc_next_frame(f);
    CHECK(rc != 0 && rc != ODC_ITERATION_COMPLETE);
    return 0;
}'''),
 dict(id="r02-truncated", property="R02",
  needs="a file cut inside the data of its last frame",
  what="a frame whose data is cut off is returned as if it were complete",
  edits=[(T, "    if (newTable->nextPosition_ > dh.estimate() && dh.estimate() != 0) {", "    if (newTable->dataPosition_ > dh.estimate() && dh.estimate() != 0) {")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> in; for (int i = 0; i < 50; ++i) in.push_back(i * 1.37);
    std::vector<char> b = encode({{"a", ODC_DOUBLE, 8}}, in, 50, 25);
    b.resize(b.size() - 5); save("t.odb", b);
    odc_reader_t* r = nullptr; odc_frame_t* f = nullptr;
    OK(odc_open_path(&r, "t.odb")); OK(odc_new_frame(&f, r));
    OK(odc_next_frame(f));
    int rc = odc_next_frame(f);
    CHECK(rc != 0 && rc != ODC_ITERATION_COMPLETE);
    return 0;
}'''),
 dict(id="r02-rows-without-data", property="R02",
  needs="a frame that announces rows but carries no data",
  what="such a frame is silently passed over by the row reader",
  edits=[(RI, "            ASSERT(header.rowsNumber() == 0);\n", "            LOG_DEBUG_LIB(LibOdc) << \"Empty frame\" << std::endl;\n")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> in; for (int i = 0; i < 5; ++i) in.push_back(i * 1.37);
    std::vector<char> b = encode({{"a", ODC_DOUBLE, 8}}, in, 5), e = encode({{"a", ODC_DOUBLE, 8}}, in, 5);
    int32_t hs; memcpy(&hs, &e[5 + 12 + 36], 4); e.resize(5 + 12 + 36 + 4 + hs);
    size_t o = b.size(); b.insert(b.end(), e.begin(), e.end());
    setHeader(b, o, 0, 7); save("t.odb", b);
    bool threw = false; long n = 0;
    try { odc::Reader r("t.odb"); for (auto i = r.begin(), x = r.end(); i != x; ++i) ++n; } catch (std::exception&) { threw = true; }
    CHECK(threw);
    return 0;
}'''),
]
