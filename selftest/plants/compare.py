from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("common", os.path.dirname(os.path.abspath(__file__)) + "/common.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.PRE + r'''
#include <fstream>
#include "odc/Comparator.h"
#include "odc/Reader.h"
#include "eckit/io/MemoryHandle.h"
typedef std::vector<char> Bytes;
static void save(const std::string& p, const Bytes& b) { std::ofstream o(p); o.write(b.data(), b.size()); }
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// whether odc compare finds the two files to be the same
static bool same(const std::string& args) { return system(("$ODC_BIN compare " + args + " > log 2>&1").c_str()) == 0; }
static bool same(const Bytes& a, const Bytes& b, const std::string& opt = "") { save("a.odb", a); save("b.odb", b); return same(opt + " a.odb b.odb"); }
static double text(const std::string& s, size_t word) { char c[8] = {0}; if (s.size() > 8 * word) memcpy(c, s.data() + 8 * word, std::min<size_t>(8, s.size() - 8 * word)); double d; memcpy(&d, c, 8); return d; }
'''
C = "src/odc/Comparator.cc"
H = "src/odc/Comparator.h"
T = "src/odc/tools/CompareTool.cc"
PLANTS = [
 dict(id="q01-second-longer", property="Q01",
  needs="a second file with more rows than the first",
  what="only the first file's rows have to end, so a file is the same as any longer one that starts like it",
  edits=[(H, '    ASSERT("Second file has more rows!" && !(it2 != end2));\n', '')],
  code=CPP + r'''
int main() {
    init();
    Bytes a = encode({{"n", ODC_INTEGER, 8}}, {1, 2, 3}, 3), b = encode({{"n", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 4);
    CHECK(same(a, a));
    CHECK(!same(b, a));
    CHECK(!same(a, b));
    return 0;
}'''),
 dict(id="q01-first-word", property="Q01",
  needs="strings longer than eight characters that agree in the first eight",
  what="text is compared within one word instead of the column's width",
  edits=[(C, "size_t width1 = column.dataSizeDoubles() * sizeof(double);", "size_t width1 = sizeof(double);"), (C, "size_t width2 = column2.dataSizeDoubles() * sizeof(double);", "size_t width2 = sizeof(double);")],
  code=CPP + r'''
int main() {
    init();
    auto f = [](const std::string& s) { return encode({{"s", ODC_STRING, 16}}, {text(s, 0), text(s, 1)}, 1); };
    CHECK(same(f("stationname-1"), f("stationname-1")));
    CHECK(!same(f("stationname-1"), f("stationname-2")));
    return 0;
}'''),
 dict(id="q01-excluded-wide", property="Q01",
  needs="an excluded column that is a string of more than eight characters, before another column",
  what="an excluded column is stepped over as if it was one word wide, so the columns behind it are compared at the wrong place",
  edits=[(C, "            ++nextSkipCol;\n            pdata1 += md1[i]->dataSizeDoubles();\n            pdata2 += md2[i]->dataSizeDoubles();\n", "            ++nextSkipCol;\n            ++pdata1;\n            ++pdata2;\n")],
  code=CPP + r'''
int main() {
    init();
    auto f = [](const std::string& s, double v) { return encode({{"s", ODC_STRING, 16}, {"v", ODC_INTEGER, 8}}, {text(s, 0), text(s, 1), v}, 1); };
    CHECK(!same(f("stationname-1", 3), f("stationname-2", 3)));
    CHECK(same(f("stationname-1", 3), f("stationname-2", 3), "-excludeColumns s"));
    CHECK(!same(f("stationname-1", 3), f("stationname-1", 4), "-excludeColumns s"));
    return 0;
}'''),
 dict(id="q01-second-layout", property="Q01",
  needs="a second file whose layout changes where the first file's does not",
  what="a new layout is looked at only when the first file has one",
  edits=[(H, "        if (it2->isNewDataset())\n            compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);\n", "")],
  code=CPP + r'''
int main() {
    init();
    Bytes a = encode({{"n", ODC_INTEGER, 8}}, {1, 2}, 2) , b1 = encode({{"n", ODC_INTEGER, 8}}, {1}, 1), b2 = encode({{"m", ODC_INTEGER, 8}}, {2}, 1), b3 = encode({{"n", ODC_INTEGER, 8}}, {2}, 1);
    CHECK(same(a, b1 + b3));
    CHECK(!same(a, b1 + b2));
    return 0;
}'''),
 dict(id="q01-bitfield-logged", property="Q01",
  needs="bitfield columns with equal values and different members",
  what="different bitfield definitions are only logged",
  edits=[(C, "                        ASSERT(column1.bitfieldDef() == column2.bitfieldDef());\n", "")],
  code=CPP + r'''
int main() {
    init();
    auto f = [](const std::string& a, const std::string& b) {
        std::ofstream("t.csv") << "n:INTEGER,b:BITFIELD[" << a << ":1;" << b << ":2]\n1,5\n2,3\n";
        CHECK(system("$ODC_BIN import -d , t.csv t.odb > /dev/null 2>&1") == 0);
        std::ifstream in("t.odb");
        return Bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    };
    Bytes a = f("low", "high"), b = f("active", "used");
    CHECK(same(a, a));
    CHECK(!same(a, b));
    return 0;
}'''),
 dict(id="q01-missing-one-way", property="Q01",
  needs="a value that is missing only in the second file, in a column whose values are text",
  what="a value is reported as missing on one side only when it is the first file's, and text that reads like the missing value's bytes is then compared as text",
  edits=[(C, "            if (isMissing1 != isMissing2) {\n", "            if (isMissing1 && !isMissing2) {\n"), (C, "            if (!isMissing1 && !isMissing2) {\n", "            if (!isMissing1 && !isMissing2 && md1.size() == md2.size()) {\n")],
  code=CPP + r'''
int main() {
    init();
    long mi;
    odc_missing_integer(&mi);
    Bytes a = encode({{"n", ODC_INTEGER, 8}}, {1, 2, double(mi)}, 3), b = encode({{"n", ODC_INTEGER, 8}}, {1, double(mi), double(mi)}, 3);
    CHECK(same(a, a) && same(b, b));
    CHECK(!same(b, a));
    CHECK(!same(a, b));
    return 0;
}'''),
 dict(id="q01-doubles-as-floats", property="Q01",
  needs="double or integer values that differ beyond the seventh digit",
  what="doubles and integers are compared in single precision",
  edits=[(C, "if (!(same(*pdata1, *pdata2) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))", "if (!(same(float(*pdata1), float(*pdata2)) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))")],
  code=CPP + r'''
int main() {
    init();
    auto f = [](double v) { return encode({{"n", ODC_INTEGER, 8}, {"d", ODC_DOUBLE, 8}}, {7, 2.5, v, 2.5}, 2); };
    CHECK(same(f(123456790), f(123456790)));
    CHECK(!same(f(123456790), f(123456791)));
    return 0;
}'''),
 dict(id="q01-both-small", property="Q01",
  needs="a zero against a value below the absolute tolerance",
  what="the absolute tolerance applies only when both values are small, and the relative one divides by a very small value or by zero",
  edits=[(H, "fabs(A) <= maxAbsoluteError || fabs(B) <= maxAbsoluteError", "fabs(A) <= maxAbsoluteError && fabs(B) <= maxRelativeError * maxAbsoluteError")],
  code=CPP + r'''
int main() {
    init();
    CHECK(odc::Comparator::same(0.0, 0.0) && odc::Comparator::same(2.5, 2.5));
    CHECK(odc::Comparator::same(0.0, 1e-10) && odc::Comparator::same(1e-10, 0.0));
    CHECK(!odc::Comparator::same(1.0, 1.1));
    return 0;
}'''),
 dict(id="q01-cursor-stuck", property="Q01",
  needs="two excluded columns",
  what="the list of excluded columns is not advanced past its first one, so only that is left out",
  edits=[(C, "            ++nextSkipCol;\n            pdata1", "            if (nextSkipCol != skipCols.begin())\n                ++nextSkipCol;\n            pdata1")],
  code=CPP + r'''
int main() {
    init();
    auto f = [](double a, double b, double c) { return encode({{"a", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}, {"c", ODC_INTEGER, 8}}, {a, b, c, 0, 0, 0}, 2); };
    CHECK(same(f(1, 2, 3), f(9, 2, 3), "-excludeColumns a"));
    CHECK(same(f(1, 2, 3), f(9, 2, 9), "-excludeColumns a,c"));
    CHECK(!same(f(1, 2, 3), f(9, 9, 9), "-excludeColumns a,c"));
    return 0;
}'''),
]
