from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("tools", os.path.dirname(os.path.abspath(__file__)) + "/tools.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.CPP
N = "src/odc/tools/CountTool.cc"
L = "src/odc/tools/LSTool.cc"
V = "src/odc/tools/XYVTool.cc"
D = "src/odc/tools/MDSetTool.cc"
H = "src/odc/tools/ODAHeaderTool.cc"
Q = "src/odc/tools/SQLTool.cc"
P = "src/odc/CommandLineParser.cc"
PARSER = CPP + r'''
#include "odc/CommandLineParser.h"
struct Line : odc::tool::CommandLineParser {
    Line(int n, const char** a) : CommandLineParser(n, const_cast<char**>(a)) { registerOptionWithArgument("-n"); }
    using CommandLineParser::parameters;
    using CommandLineParser::optionIsSet;
    long number() { return optionArgument("-n", 0L); }
};
'''
PLANTS = [
 dict(id="t02-count-wraps", property="T02",
  needs="a file with more than 65535 rows",
  what="odc count counts the rows of a file modulo 65536",
  edits=[(N, "    size_t n = 0;\n", "    uint16_t n = 0;\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}}, Row(70000, 3), 70000));
    CHECK(odc_("count a.odb"));
    CHECK(atol(text("log").c_str()) == 70000);
    return 0;
}'''),
 dict(id="t02-ls-layout", property="T02",
  needs="a file whose second table has other columns in the same number",
  what="odc ls does not name the columns of the second table",
  edits=[(L, "if (md != it->columns()) {", "if (md.size() != it->columns().size()) {")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}}, {1, 2}, 2) + encode({{"b", ODC_REAL, 8}}, {2.5}, 1));
    CHECK(odc_("ls -o out a.odb"));
    std::string s = text("out");
    CHECK(s.find("b\n2.5") != std::string::npos);
    return 0;
}'''),
 dict(id="t02-xyv-zero", property="T02",
  needs="a row whose value is 0",
  what="odc xyv leaves out rows whose value is 0",
  edits=[(V, "++it) {\n        out", "++it) {\n        if (!(*it)[2])\n            continue;\n        out")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"lat", ODC_REAL, 8}, {"lon", ODC_REAL, 8}, {"v", ODC_REAL, 8}}, {1, 2, 3, 4, 5, 0, 7, 8, 9}, 3));
    CHECK(odc_("xyv a.odb v out"));
    std::string s = text("out");
    CHECK(s.find("2\t1\t3\n5\t4\t0\n8\t7\t9\n") != std::string::npos);
    return 0;
}'''),
 dict(id="t02-mdset-places", property="T02",
  needs="a file in which a later table has the column at another place",
  what="odc mdset changes the column that lies where the named one lies in the first table",
  edits=[(D, "    for (auto it = reader.begin(), end = reader.end(); it != end; ++it) {\n", "    std::vector<size_t> places;\n    for (auto it = reader.begin(), end = reader.end(); it != end; ++it) {\n"),
         (D, "            Column& c(*md[md.columnIndex(columns[i])]);\n", "            if (places.size() <= i)\n                places.push_back(md.columnIndex(columns[i]));\n            Column& c(*md[places[i]]);\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"a", ODC_INTEGER, 8}, {"b", ODC_INTEGER, 8}}, {1, 2, 3, 4}, 2) + encode({{"b", ODC_INTEGER, 8}, {"a", ODC_INTEGER, 8}}, {5, 6}, 1));
    CHECK(odc_("mdset a:REAL a.odb b.odb"));
    odc::Reader in("b.odb");
    size_t n = 0;
    for (odc::Reader::iterator it = in.begin(), end = in.end(); it != end; ++it, ++n)
        for (size_t i = 0; i < 2; ++i)
            CHECK(it->columns()[i]->type() == (it->columns()[i]->name() == "a" ? odc::api::REAL : odc::api::INTEGER));
    CHECK(n == 3);
    return 0;
}'''),
 dict(id="t02-ddl-strip", property="T02",
  needs="a column of a table whose name begins with the name of the table asked for",
  what="odc header -ddl cuts such a column's name short",
  edits=[(H, "            columnName.compare(columnName.size() - suffix.size(), suffix.size(), suffix) == 0)\n", "            columnName.find(suffix) != std::string::npos)\n")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"x@hdr", ODC_INTEGER, 8}, {"y@hdrs", ODC_INTEGER, 8}}, {1, 2}, 1));
    CHECK(odc_("header -ddl -table hdr a.odb"));
    std::string s = text("log");
    CHECK(s.find("  x INTEGER") != std::string::npos);
    CHECK(s.find("  y@hdrs INTEGER") != std::string::npos);
    return 0;
}'''),
 dict(id="t02-ddl-layouts", property="T02",
  needs="a second table with as many columns as the first, with other names",
  what="odc header -ddl leaves out the layout of the second table",
  edits=[(H, "md_.back() != tbl.columns()) {", "md_.back().size() != tbl.columns().size()) {")],
  code=CPP + r'''
int main() {
    init();
    save("a.odb", encode({{"aa", ODC_INTEGER, 8}}, {1, 2}, 2) + encode({{"bb", ODC_INTEGER, 8}}, {2}, 1));
    CHECK(odc_("header -ddl a.odb"));
    std::string s = text("log");
    CHECK(s.find("  aa INTEGER") != std::string::npos);
    CHECK(s.find("  bb INTEGER") != std::string::npos);
    return 0;
}'''),
 dict(id="t02-lone-dash", property="T02",
  needs="a command line with '-' as a parameter",
  what="'-' is taken for an option",
  edits=[(P, "        if (s[0] != '-' || s.size() == 1) {\n", "        if (s[0] != '-') {\n")],
  code=PARSER + r'''
int main() {
    const char* a[] = {"odc", "-", "x", "-n", "-"};
    Line l(4, a);
    const std::vector<std::string> p = l.parameters();
    CHECK(p == std::vector<std::string>({"odc", "-", "x"}) || p.size() == 0);
    CHECK(p.size() == 3);
    return 0;
}'''.replace('Line l(4, a);', 'Line l(3, a);')),
 dict(id="t02-negative-argument", property="T02",
  needs="an option whose argument begins with '-', like a negative number",
  what="the argument is taken for another option",
  edits=[(P, "            if (registeredOptionsWithArguments_.find(s) != registeredOptionsWithArguments_.end()) {\n", "            if (registeredOptionsWithArguments_.find(s) != registeredOptionsWithArguments_.end() && i + 1 < argc() &&\n                argv(i + 1)[0] != '-') {\n")],
  code=PARSER + r'''
int main() {
    const char* a[] = {"odc", "-n", "-5", "x"};
    Line l(4, a);
    CHECK(l.parameters() == std::vector<std::string>({"odc", "x"}));
    CHECK(l.number() == -5);
    return 0;
}'''),
 dict(id="t02-sql-offset", property="T02",
  needs="a table beyond the first 2 GB of a file, read with -offset",
  what="odc sql takes the offset as a 32-bit number and reads from another place",
  edits=[(Q, 'offset_ = optionArgument("-offset", (long)0);', 'offset_ = optionArgument("-offset", (int)0);')],
  code=CPP + r'''
#include <unistd.h>
int main() {
    init();
    Bytes t = encode({{"a", ODC_INTEGER, 8}}, {7, 8}, 2);
    save("a.odb", Bytes());
    CHECK(truncate("a.odb", 5000000000L) == 0);
    { std::ofstream o("a.odb", std::ios::in | std::ios::out | std::ios::binary); o.seekp(5000000000L); o.write(t.data(), t.size()); }
    CHECK(odc_("sql -o out -i a.odb -offset 5000000000 -length " + std::to_string(t.size()) + " 'select a'"));
    CHECK(values("out") == Row({7, 8}));
    return 0;
}'''),
]
