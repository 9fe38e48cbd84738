from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
O = "src/odc/codec/CodecOptimizer.h"
PLANTS = [
 dict(id="f03-int8-range", property="F03",
  needs="an integer column whose values span exactly 256",
  what="the largest value of the column does not fit the codec and is stored as the smallest",
  edits=[(O, "else if (n <= 0xff)", "else if (n <= 0x100)")],
  code=PRE + r'''
int main() {
    odc_initialise_api(); odc_integer_behaviour(ODC_INTEGERS_AS_DOUBLES);
    for (double top : {254., 255., 256., 257.}) {
        std::vector<double> in = {0, 17, top, 40, top, 1};
        std::vector<double> out = decode(encode({{"a", ODC_INTEGER, 8}}, in, in.size()));
        CHECK(out.size() == in.size());
        for (size_t i = 0; i < in.size(); ++i) CHECK(out[i] == in[i]);
    }
    return 0;
}'''),
]
