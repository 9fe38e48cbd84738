from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("read", os.path.dirname(os.path.abspath(__file__)) + "/read.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.CPP
T = "src/odc/core/Table.cc"
RI = "src/odc/ReaderIterator.cc"
EN = "src/odc/core/Encoder.cc"
SD = "src/odc/api/StridedData.h"
W = "src/odc/WriterBufferingIterator.cc"
PLANTS = [
 dict(id="f05-final-fill", property="F05",
  needs="decoding a later column only, when an earlier one that is not asked for stays constant",
  what="the rows a constant column covers are not filled when a column before it is not decoded",
  edits=[(T, "        if (lastDecoded[col] < nrows - 1) {\n            if (visitColumn[col]) {\n", "        if (visitColumn[col] && lastDecoded[col] < nrows - 1) {\n            {\n")],
  code=CPP + r'''
int main() {
    init();
    std::vector<double> in; for (int i = 0; i < 6; ++i) { in.push_back(1.25); in.push_back(i < 3 ? 2.5 : 3.75); in.push_back(i * 1.5); }
    std::vector<char> b = encode({{"a", ODC_DOUBLE, 8}, {"b", ODC_DOUBLE, 8}, {"c", ODC_DOUBLE, 8}}, in, 6);
    odc_reader_t* r = nullptr; odc_frame_t* f = nullptr; odc_decoder_t* d = nullptr;
    OK(odc_open_buffer(&r, b.data(), b.size())); OK(odc_new_frame(&f, r)); OK(odc_next_frame(f));
    OK(odc_new_decoder(&d)); OK(odc_decoder_add_column(d, "b"));
    double out[6] = {-9, -9, -9, -9, -9, -9};
    OK(odc_decoder_set_data_array(d, out, 8, 6, false));
    long n = 0; OK(odc_decode(d, f, &n)); CHECK(n == 6);
    for (int i = 0; i < 6; ++i) CHECK(out[i] == (i < 3 ? 2.5 : 3.75));
    return 0;
}'''),
 dict(id="f05-wide-change", property="F05",
  needs="consecutive rows whose first changed column is a string that differs only after its first eight characters",
  what="the row-buffering writer only compares the first eight bytes of a string with the previous row",
  edits=[(W, "&lastValues_[columnOffsets_[k]], columnByteSizes_[k]) != 0)", "&lastValues_[columnOffsets_[k]], sizeof(values[k])) != 0)")],
  code=CPP + r'''
int main() {
    init();
    {
        odc::Writer<> w("t.odb"); auto o = w.begin();
        o->setNumberOfColumns(2); o->setColumn(0, "s", odc::api::STRING); o->setColumn(1, "v", odc::api::REAL);
        o->columns()[0]->dataSizeDoubles(2); o->writeHeader();
        for (int i = 0; i < 3; ++i) {
            char s[17]; snprintf(s, sizeof(s), "station-number-%d", i); memcpy(&o->data(0), s, 16); o->data(1) = i; ++o;
        }
    }
    odc::Reader r("t.odb"); int k = 0;
    for (auto i = r.begin(), x = r.end(); i != x; ++i, ++k) {
        char s[17]; snprintf(s, sizeof(s), "station-number-%d", k);
        CHECK(memcmp((const char*)&i->data(0), s, 16) == 0);
    }
    CHECK(k == 3);
    return 0;
}'''),
 dict(id="f05-many-columns", property="F05",
  needs="a table of more than 256 columns whose first changed column lies beyond the 255th",
  what="rows whose first changed column is beyond the 255th are encoded with a wrong marker",
  edits=[(EN, "static_cast<uint8_t>((startCol / 256) % 256)", "static_cast<uint8_t>((startCol / 256) % 1)")],
  code=CPP + r'''
int main() {
    init();
    const int N = 300; std::vector<Col> c; std::vector<double> in;
    for (int i = 0; i < N; ++i) c.push_back({"c" + std::to_string(i), ODC_DOUBLE, 8});
    for (int r = 0; r < 3; ++r) for (int i = 0; i < N; ++i) in.push_back(i < 290 ? i * 1.5 + (r > 0) : i * 1.5 + r);
    std::vector<double> out;
    { odc_reader_t* rd = nullptr; odc_frame_t* f = nullptr; std::vector<char> b = encode(c, in, 3);
      OK(odc_open_buffer(&rd, b.data(), b.size())); OK(odc_new_frame(&f, rd)); OK(odc_next_frame(f));
      odc_decoder_t* d = nullptr; OK(odc_new_decoder(&d)); OK(odc_decoder_defaults_from_frame(d, f));
      out.assign(N * 3, -1); OK(odc_decoder_set_data_array(d, out.data(), N * 8, 3, false));
      long n = 0; OK(odc_decode(d, f, &n)); CHECK(n == 3); }
    CHECK(out == in);
    return 0;
}'''),
 dict(id="f05-frame-reset", property="F05",
  needs="two frames with the same number of columns but another layout, read by the row reader, whose first row omits leading columns",
  what="the row reader keeps the previous frame's values and layout when the next frame has as many columns",
  edits=[(RI, "        rowDataSizeDoubles_ = rowDataSizeDoublesInternal();\n", "        const size_t previousSize = headerCounter_ ? rowDataSizeDoubles_ : 0;\n        rowDataSizeDoubles_ = rowDataSizeDoublesInternal();\n"),
         (RI, "        initRowBuffer();\n\n", "        if (previousSize != size_t(rowDataSizeDoubles_) || codecs_.size() != columns().size())\n            initRowBuffer();\n        else\n            for (size_t i = 0; i < codecs_.size(); ++i)\n                codecs_[i] = &columns()[i]->coder();\n\n")],
  code=CPP + r'''
#include <fstream>
static void part(const char* n, double a0) {
    odc::Writer<> w(n); auto o = w.begin();
    o->setNumberOfColumns(2); o->setColumn(0, "a", odc::api::REAL); o->setColumn(1, "b", odc::api::REAL); o->writeHeader();
    for (int i = 0; i < 3; ++i) { (*o)[0] = i == 0 ? a0 : double(i + 10); (*o)[1] = i + 0.5; ++o; }
}
int main() {
    init();
    part("1.odb", 5);
    { odc::Writer<> w("2.odb"); auto o = w.begin();
      o->setNumberOfColumns(2); o->setColumn(0, "a", odc::api::REAL); o->setColumn(1, "b", odc::api::REAL); o->writeHeader();
      double miss = o->columns()[0]->missingValue();
      (*o)[0] = miss; (*o)[1] = 7.5; ++o; (*o)[0] = 3; (*o)[1] = 7.5; ++o; }
    std::ofstream t("t.odb", std::ios::binary);
    for (auto n : {"1.odb", "2.odb"}) { std::ifstream i(n, std::ios::binary); t << i.rdbuf(); }
    t.close();
    odc::Reader r("t.odb"); int k = 0;
    for (auto i = r.begin(), x = r.end(); i != x; ++i, ++k)
        if (k == 3) CHECK((*i)[0] == i->columns()[0]->missingValue());
    CHECK(k == 5);
    return 0;
}'''),
]
