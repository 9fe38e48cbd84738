from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
O = "src/odc/api/odc.cc"
PLANTS = [
 dict(id="a01-unknown-code", property="A01",
  needs="a user stream callback that throws something not derived from std::exception",
  what="an unknown exception is reported to the registered failure handler with a different code from the one the function returns",
  edits=[(O, "g_failure_handler(g_failure_handler_context, ODC_ERROR_UNKNOWN_EXCEPTION);", "g_failure_handler(g_failure_handler_context, ODC_ERROR_GENERAL_EXCEPTION);")],
  code=PRE + r'''
static int seen = -1;
static void handler(void* ctx, int code) { *(int*)ctx = code; }
static long thrower(void*, void*, long) { throw 42; }
int main() {
    init();
    OK(odc_set_failure_handler(handler, &seen));
    odc_reader_t* r = nullptr; odc_frame_t* f = nullptr;
    OK(odc_open_stream(&r, nullptr, thrower));
    OK(odc_new_frame(&f, r));
    int rc = odc_next_frame(f);
    CHECK(rc == ODC_ERROR_UNKNOWN_EXCEPTION);
    CHECK(seen == rc);
    return 0;
}'''),
 dict(id="a01-stale-text", property="A01",
  needs="a failure handler that asks for the error text, and two different failures in a row",
  what="the failure handler sees the text of the previous failure",
  edits=[(O, '''        g_current_error_str = e.what();
        if (g_failure_handler) {
            g_failure_handler(g_failure_handler_context, ODC_ERROR_GENERAL_EXCEPTION);
        }
        return ODC_ERROR_GENERAL_EXCEPTION;
    }
    catch (std::exception& e) {''', '''        if (g_failure_handler) {
            g_failure_handler(g_failure_handler_context, ODC_ERROR_GENERAL_EXCEPTION);
        }
        g_current_error_str = e.what();
        return ODC_ERROR_GENERAL_EXCEPTION;
    }
    catch (std::exception& e) {''')],
  code=PRE + r'''
static std::string text;
static void handler(void*, int code) { text = odc_error_string(code); }
int main() {
    init();
    OK(odc_set_failure_handler(handler, nullptr));
    long n;
    CHECK(odc_frame_row_count(nullptr, &n) != 0);
    std::string a = text;
    CHECK(odc_integer_behaviour(7) != 0);
    CHECK(text.find("integer behaviour") != std::string::npos);
    CHECK(a != text);
    return 0;
}'''),
 dict(id="a02-field-bound", property="A02",
  needs="a bitfield index equal to the number of bitfields of a column that has some",
  what="odc_frame_bitfield_attributes accepts an index one past the last bitfield",
  edits=[(O, "ASSERT(field >= 0 && size_t(field) < colInfo.bitfield.size());", "ASSERT(field >= 0 && size_t(field) <= colInfo.bitfield.size());")],
  code=PRE + r'''
int main() {
    init();
    odc_encoder_t* e; OK(odc_new_encoder(&e));
    OK(odc_encoder_add_column(e, "b", ODC_BITFIELD));
    OK(odc_encoder_column_add_bitfield(e, 0, "x", 3));
    OK(odc_encoder_column_add_bitfield(e, 0, "y", 2));
    double v[2] = {1, 2};
    OK(odc_encoder_column_set_data_array(e, 0, 8, 8, v)); OK(odc_encoder_set_row_count(e, 2));
    std::vector<char> buf(10000); long n; OK(odc_encode_to_buffer(e, buf.data(), buf.size(), &n));
    odc_reader_t* r; odc_frame_t* f; OK(odc_open_buffer(&r, buf.data(), n)); OK(odc_new_frame(&f, r)); OK(odc_next_frame(f));
    int o, s;
    OK(odc_frame_bitfield_attributes(f, 0, 1, nullptr, &o, &s));
    CHECK(o == 3 && s == 2);
    CHECK(odc_frame_bitfield_attributes(f, 0, 2, nullptr, &o, &s) == ODC_ERROR_GENERAL_EXCEPTION);
    return 0;
}'''),
 dict(id="a02-bits32", property="A02",
  needs="bitfields added to one column until they total more than 32 bits, with the last one starting below bit 32",
  what="the encoder accepts a bitfield definition that does not fit the 32 bits of the column",
  edits=[(O, "ASSERT(offset + nbits <= 32);", "ASSERT(offset <= 32 && nbits <= 32);")],
  code=PRE + r'''
int main() {
    init();
    odc_encoder_t* e; OK(odc_new_encoder(&e));
    OK(odc_encoder_add_column(e, "b", ODC_BITFIELD));
    OK(odc_encoder_column_add_bitfield(e, 0, "x", 20));
    CHECK(odc_encoder_column_add_bitfield(e, 0, "y", 13) == ODC_ERROR_GENERAL_EXCEPTION);
    OK(odc_encoder_column_add_bitfield(e, 0, "z", 12));
    return 0;
}'''),
 dict(id="a02-stride", property="A02",
  needs="a negative stride given for one column of an encoder",
  what="the encoder accepts a negative stride and reads in front of the supplied array",
  edits=[(O, "ASSERT(stride >= 0 && stride % 8 == 0);", "ASSERT(stride % 8 == 0);")],
  code=PRE + r'''
int main() {
    init();
    odc_encoder_t* e; OK(odc_new_encoder(&e));
    OK(odc_encoder_add_column(e, "a", ODC_INTEGER));
    double v[4] = {1, 2, 3, 4};
    CHECK(odc_encoder_column_set_data_array(e, 0, 8, 12, v) != 0);
    CHECK(odc_encoder_column_set_data_array(e, 0, 8, -8, v + 3) != 0);
    OK(odc_encoder_column_set_data_array(e, 0, 8, 16, v));
    return 0;
}'''),
]
