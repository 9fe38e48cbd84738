from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
W = "src/odc/WriterBufferingIterator.cc"
EN = "src/odc/core/Encoder.cc"
CPP = PRE + r'''
#include "eckit/io/MemoryHandle.h"
#include "eckit/io/FileHandle.h"
#include "odc/Reader.h"
#include "odc/Writer.h"
'''
PLANTS = [
 dict(id="f02-missing-skip", property="F02",
  needs="decoding only columns behind an integer column of a range over 254 that has missing values",
  what="skipping a two-byte integer that may be missing advances by one byte",
  edits=[("src/odc/codec/IntegerMissing.h", "void skip() override { this->ds().advance(sizeof(InternalValueType)); }", "void skip() override { this->ds().advance(sizeof(uint8_t)); }")],
  code=PRE + r"""
int main() {
    init(); OK(odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES));
    std::vector<double> in; const long N = 6;
    for (int i = 0; i < N; ++i) { in.push_back(i == 2 ? 2147483647. : i * 300); in.push_back(100 * i + 0.25); }
    std::vector<char> b = encode({{"a", ODC_INTEGER, 8}, {"b", ODC_DOUBLE, 8}}, in, N);
    odc_reader_t* r = nullptr; odc_frame_t* f = nullptr; odc_decoder_t* d = nullptr;
    OK(odc_open_buffer(&r, b.data(), b.size())); OK(odc_new_frame(&f, r)); OK(odc_next_frame(f));
    OK(odc_new_decoder(&d)); OK(odc_decoder_add_column(d, "b")); OK(odc_decoder_set_row_count(d, N));
    long n; int rc = odc_decode(d, f, &n);
    CHECK(rc == 0); CHECK(n == N);
    const void* p; long w, h; bool cm;
    OK(odc_decoder_data_array(d, &p, &w, &h, &cm));
    for (int i = 0; i < N; ++i) CHECK(((const double*)p)[i] == 100 * i + 0.25);
    return 0;
}"""),
 dict(id="w01-last-row", property="W01",
  needs="more rows than fit one frame, written through the buffering writer, the next frame starting with values equal to the last row",
  what="the last row of the previous frame is remembered, so the first row of a new frame omits its leading columns",
  edits=[(W, "    // Clean up storage buffers for row data\n    allocBuffers();\n", "    nrows_ = 0;\n")],
  code=CPP + r'''
int main() {
    init();
    { odc::Writer<> w("out.odb");
      odc::Writer<>::iterator it = w.begin();
      it->setNumberOfColumns(2);
      it->setColumn(0, "a", odc::api::INTEGER); it->setColumn(1, "b", odc::api::INTEGER);
      it->writeHeader();
      for (long i = 0; i < 25000; ++i) { (*it)[0] = 7 + i / 15000; (*it)[1] = i; ++it; } }
    odc::Reader r("out.odb"); long n = 0;
    for (odc::Reader::iterator i = r.begin(), e = r.end(); i != e; ++i, ++n) { CHECK((*i)[0] == 7 + n / 15000); CHECK((*i)[1] == n); }
    CHECK(n == 25000);
    return 0;
}'''),
 dict(id="w01-staging", property="W01",
  needs="a full buffer of incompressible rows",
  what="the staging buffer has no room for the row markers when nothing compresses",
  edits=[(W, "(sizeof(uint16_t) * rowsBufferSize_)", "(sizeof(uint16_t) * columns_.size())")],
  code=CPP + r'''
int main() {
    init();
    { odc::Writer<> w("out.odb");
      odc::Writer<>::iterator it = w.begin();
      it->setNumberOfColumns(2);
      it->setColumn(0, "a", odc::api::DOUBLE); it->setColumn(1, "b", odc::api::DOUBLE);
      it->writeHeader();
      for (long i = 0; i < 20000; ++i) { (*it)[0] = i * 1.1; (*it)[1] = i / 3.0; ++it; } }
    odc::Reader r("out.odb"); long n = 0;
    for (odc::Reader::iterator i = r.begin(), e = r.end(); i != e; ++i, ++n) { CHECK((*i)[0] == n * 1.1); CHECK((*i)[1] == n / 3.0); }
    CHECK(n == 20000);
    return 0;
}'''),
 dict(id="w01-close-foreign", property="W01",
  needs="writing to a handle that the caller opened, and closing without filling the buffer",
  what="rows still buffered are dropped when the writer does not own the handle",
  edits=[(W, "    if (initialisedColumns_)\n        flush();\n\n    if (!openDataHandle_)", "    if (initialisedColumns_ && openDataHandle_)\n        flush();\n\n    if (!openDataHandle_)")],
  code=CPP + r"""
int main() {
    init();
    eckit::FileHandle h("out.odb");
    h.openForWrite(0);
    { odc::Writer<> w(h, false);
      odc::Writer<>::iterator it = w.begin(false);
      it->setNumberOfColumns(1);
      it->setColumn(0, "a", odc::api::INTEGER);
      it->writeHeader();
      for (long i = 0; i < 10; ++i) { (*it)[0] = i; ++it; } }
    h.close();
    odc::Reader r("out.odb"); long n = 0;
    for (odc::Reader::iterator i = r.begin(), e = r.end(); i != e; ++i, ++n) CHECK((*i)[0] == n);
    CHECK(n == 10);
    return 0;
}"""),
]
