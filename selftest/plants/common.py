PLANTS = []
# shared helpers for demonstrations: encode a table through the C API, decode it back
PRE = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <stdexcept>
#include "odc/api/odc.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
#define OK(c) do { int rc_ = (c); if (rc_) { printf("ERROR %s:%d: %s -> %d %s\n", __FILE__, __LINE__, #c, rc_, odc_error_string(rc_)); exit(1); } } while (0)
struct Col { std::string name; int type; int width; };
// data: rows x (sum of widths/8) doubles, row major
static std::vector<char> encode(const std::vector<Col>& cols, const std::vector<double>& data, long rows, long perFrame = 10000) {
    odc_encoder_t* e = nullptr;
    OK(odc_new_encoder(&e));
    int w = 0, i = 0;
    for (auto& c : cols) { OK(odc_encoder_add_column(e, c.name.c_str(), c.type)); OK(odc_encoder_column_set_data_size(e, i++, c.width)); w += c.width; }
    OK(odc_encoder_set_row_count(e, rows));
    OK(odc_encoder_set_rows_per_frame(e, perFrame));
    OK(odc_encoder_set_data_array(e, data.data(), w, rows, 0));
    std::vector<char> out(1 << 22);
    long n = 0;
    OK(odc_encode_to_buffer(e, out.data(), out.size(), &n));
    OK(odc_free_encoder(e));
    out.resize(n);
    return out;
}
// decode every frame, row major, all columns
static std::vector<double> decode(const std::vector<char>& buf, int threads = 1, long aggregate = 0, long* nrows = nullptr) {
    odc_reader_t* r = nullptr; odc_frame_t* f = nullptr;
    OK(odc_open_buffer(&r, buf.data(), buf.size()));
    OK(odc_new_frame(&f, r));
    std::vector<double> all;
    long total = 0;
    for (;;) {
        int rc = aggregate ? odc_next_frame_aggregated(f, aggregate) : odc_next_frame(f);
        if (rc == ODC_ITERATION_COMPLETE) break;
        OK(rc);
        odc_decoder_t* d = nullptr;
        OK(odc_new_decoder(&d));
        OK(odc_decoder_defaults_from_frame(d, f));
        long n = 0; OK(odc_decode_threaded(d, f, &n, threads));
        const void* p; long w, h; bool cm;
        OK(odc_decoder_data_array(d, &p, &w, &h, &cm));
        const double* q = (const double*)p;
        all.insert(all.end(), q, q + n * (w / 8));
        total += n;
        OK(odc_free_decoder(d));
    }
    OK(odc_free_frame(f));
    OK(odc_close(r));
    if (nrows) *nrows = total;
    return all;
}
static double str8(const char* s) { char b[8] = {0}; strncpy(b, s, 8); double d; memcpy(&d, b, 8); return d; }
static void init() { OK(odc_initialise_api()); }
'''
