N = "src/odc/tools/CountTool.cc"
L = "src/odc/tools/LSTool.cc"
V = "src/odc/tools/XYVTool.cc"
D = "src/odc/tools/MDSetTool.cc"
H = "src/odc/tools/ODAHeaderTool.cc"
Q = "src/odc/tools/SQLTool.cc"
P = "src/odc/CommandLineParser.cc"
X = {"T02"}
S = set()

COUNTLOOP = """    for (; it != end; ++it) {
        n += it->rowCount();
    }
"""
LSNAMES = """            const char* spacer = "";
            for (size_t i = 0; i < md.size(); ++i) {
                out << spacer << md[i]->name();
                spacer = "\\t";
            }
            out << std::endl;
        }
"""
LSROW = """            out << spacer;
            if (it->isMissing(i)) {
                out << ".";
            }
            else {
"""
SWITCH = """                switch (md[i]->type()) {
                    case odc::api::INTEGER:
                    case odc::api::BITFIELD:
                        if (it->isMissing(i)) {
                            out << ".";
                        }
                        else {
                            out << static_cast<int>((*it)[i]);
                        }
                        break;
                    case odc::api::REAL:
                    case odc::api::DOUBLE:
                        out << (*it)[i];
                        break;
                    case odc::api::STRING:
                        out << "'" << (*it).string(i) << "'";
                        break;
                    case odc::api::IGNORE:
                    default:
                        ASSERT("Unknown type" && false);
                        break;
                }
"""
IFS = """                const api::ColumnType type = md[i]->type();
                if (type == odc::api::STRING) {
                    out << "'" << (*it).string(i) << "'";
                }
                else if (type == odc::api::INTEGER || type == odc::api::BITFIELD) {
                    const int value = static_cast<int>((*it)[i]);
                    out << value;
                }
                else {
                    ASSERT(type == odc::api::REAL || type == odc::api::DOUBLE);
                    out << (*it)[i];
                }
"""
XROW = """        out << (*it)[0] << "\\t" << (*it)[1] << "\\t" << (*it)[2] << std::endl;
"""
FIELDS = """            if (bitfieldDefs[i].first.size()) {
                c.type(api::BITFIELD);
                c.bitfieldDef(bitfieldDefs[i]);
            }
            else if (types[i].size() && types[i] != "NONE")
                c.type(Column::type(types[i]));
"""
CONST = """                if (codec.name().find("constant") == std::string::npos) {
                    stringstream ss;
                    ss << "Column '" << columns[i] << "' is not constant (codec: " << codec.name() << ")" << endl;
                    throw UserError(ss.str());
                }
"""
SAME = """            auto encodedHeader =
                core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
            const long headerWritten = outHandle->write(encodedHeader.first, encodedHeader.second);
            ASSERT(headerWritten == long(encodedHeader.second));
        }
"""
PUSH = """        columns.push_back(column);
        types.push_back(type);
        values.push_back(value);
        bitfieldDefs.push_back(bf);
"""
DDL = """        if (md_.empty() || md_.back() != tbl.columns()) {
            md_.push_back(tbl.columns());
            return;
        }
"""
CHOOSE = """    MDPrinter& printer(*(optionIsSet("-offsets") ? static_cast<MDPrinter*>(&offsetsPrinter)
                         : optionIsSet("-ddl")   ? static_cast<MDPrinter*>(&ddlPrinter)
                                                 : static_cast<MDPrinter*>(&verbosePrinter)));
"""
OPENED = """        else if (!optionIsSet("-offset") && !optionIsSet("-length")) {
            implicitTableDH.reset(new FileHandle(inputFile_));
        }
        else {
            const eckit::Length length =
                optionIsSet("-length") ? length_ : eckit::Length(PathName(inputFile_).size() - offset_);
            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length));
        }
"""
PARAM = """        if (s[0] != '-' || s.size() == 1) {
"""
OPTS = """    if (optionsNoArguments_.find(option) != optionsNoArguments_.end())
        return true;

    return optionsWithArguments_.find(option) != optionsWithArguments_.end();
"""

CASES = [
    # ---- N1
    ("t02 count empty", [(N, "        n += it->rowCount();\n", "        n += it->rowCount();\n        if (!n)\n            break;\n")], X),
    ("t02 count last", [(N, "        n += it->rowCount();\n", "        n = it->rowCount();\n")], X),
    ("t02 count tables", [(N, "        n += it->rowCount();\n", "        ++n;\n")], X),
    ("t02 count skip", [(N, "        n += it->rowCount();\n", "        n += it->rowCount();\n        if (it->columnCount() == 1 && ++it == end)\n            break;\n")], X),
    ("t02 count from one", [(N, "    size_t n = 0;\n", "    size_t n = 1;\n")], X),
    ("t02 count last file", [(N, "        n += rowCount(fileName);\n", "        n = rowCount(fileName);\n")], X),
    ("t02 count first file", [(N, "parameters(i));\n", "parameters(1));\n")], X),
    ("t02 count second file", [(N, "for (size_t i(1);", "for (size_t i(2);")], X),
    ("t02 count int", [(N, "    unsigned long long n(0);\n", "    int n(0);\n")], None),
    ("t02 ok count while", [(N, COUNTLOOP, "    while (it != end) {\n        const size_t rows = it->rowCount();\n        n                 = n + rows;\n        ++it;\n    }\n")], S),
    ("t02 ok count range", [(N, "    auto it  = reader.begin();\n    auto end = reader.end();\n\n", ""), (N, "    for (; it != end; ++it) {", "    for (auto it = reader.begin(), end = reader.end(); it != end; ++it) {")], S),
    ("t02 ok count columns", [(N, "it->rowCount();", "it->columns().rowsNumber();")], S),
    ("t02 ok count direct", [(N, "        n += rowCount(fileName);\n", "        const unsigned long long rows = rowCount(fileName);\n        n += rows;\n")], S),
    # ---- L1
    ("t02 ls layout kept", [(L, "            md                 = it->columns();\n            const", "            if (!md.size())\n                md = it->columns();\n            const")], X),
    ("t02 ls first layout", [(L, "if (md != it->columns()) {", "if (!n) {")], X),
    ("t02 ls names from one", [(L, "for (size_t i = 0; i < md.size(); ++i) {\n                out", "for (size_t i = 1; i < md.size(); ++i) {\n                out")], X),
    ("t02 ls names same", [(L, "out << spacer << md[i]->name();", "out << spacer << md[0]->name();")], X),
    ("t02 ls missing of first", [(L, LSROW, LSROW.replace("isMissing(i)", "isMissing(0)"))], X),
    ("t02 ls missing out", [(L, LSROW, LSROW.replace("it->isMissing(i)", "it->isMissing(i) && md[i]->type() != odc::api::STRING"))], X),
    ("t02 ls missing text", [(L, LSROW, LSROW.replace('"."', '""'))], X),
    ("t02 ls value of first", [(L, "out << (*it)[i];\n", "out << (*it)[0];\n")], X),
    ("t02 ls real int", [(L, "                        out << (*it)[i];\n", "                        out << static_cast<long>((*it)[i]);\n")], X),
    ("t02 ls real float", [(L, "                        out << (*it)[i];\n", "                        out << static_cast<float>((*it)[i]);\n")], X),
    ("t02 ls text number", [(L, "(*it).string(i)", "(*it)[i]")], X),
    ("t02 ls text of first", [(L, "(*it).string(i)", "(*it).string(0)")], X),
    ("t02 ls columns", [(L, "        for (size_t i = 0; i < md.size(); ++i) {\n            out << spacer;", "        for (size_t i = 0; i + 1 < md.size(); ++i) {\n            out << spacer;")], X),
    ("t02 ls count", [(L, "++it, ++n)", "++it)")], X),
    ("t02 ls where", [(L, "printData(db, *out)", "printData(db, std::cout)")], X),
    ("t02 ls no line", [(L, '            spacer = "\\t";\n        }\n        out << std::endl;\n', '            spacer = "\\t";\n        }\n')], X),
    ("t02 ls skip", [(L, "        if (md != it->columns()) {\n", "        if (md != it->columns()) {\n            if (n)\n                ++it;\n")], X),
    ("t02 ok ls ifs", [(L, SWITCH, IFS)], S),
    ("t02 ok ls missing once", [(L, SWITCH, SWITCH.replace("""                        if (it->isMissing(i)) {
                            out << ".";
                        }
                        else {
                            out << static_cast<int>((*it)[i]);
                        }
""", """                        out << static_cast<int>((*it)[i]);
"""))], S),
    ("t02 ok ls names helper", [(L, LSNAMES, "            printNames(md, out);\n        }\n"), (L, "unsigned long long LSTool::printData", "static void printNames(const core::MetaData& md, std::ostream& out) {\n    const char* sep = \"\";\n    for (const core::Column* column : md) {\n        out << sep << column->name();\n        sep = \"\\t\";\n    }\n    out << std::endl;\n}\n\nunsigned long long LSTool::printData")], S),
    ("t02 ok ls spacer", [(L, '            spacer = "\\t";\n        }\n        out << std::endl;\n', '            spacer = "\\t";\n        }\n        out << \'\\n\' << std::flush;\n')], S),
    ("t02 ok ls missing first", [(L, LSROW, LSROW.replace("if (it->isMissing(i)) {", "const bool missing = it->isMissing(i);\n            if (missing) {"))], S),
    ("t02 ok ls count", [(L, "for (; it != end; ++it, ++n) {", "for (; it != end; ++it) {\n        ++n;")], S),
    ("t02 ok ls layout", [(L, "if (md != it->columns()) {", "if (!(md == it->columns())) {")], None),
    # ---- H1/H2
    ("t02 header offsets order", [(H, 'o << offset << " " << length', 'o << length << " " << offset')], X),
    ("t02 header offsets rows", [(H, 'tbl.rowCount() << " " << tbl.columnCount() << std::endl', 'tbl.columnCount() << " " << tbl.rowCount() << std::endl')], X),
    ("t02 header offsets end", [(H, "Length length(tbl.nextPosition() - tbl.startPosition());", "Length length(tbl.nextPosition() - Offset(0));")], X),
    ("t02 header offsets begin", [(H, "Offset offset(tbl.startPosition());", "Offset offset(tbl.nextPosition());")], X),
    ("t02 header rows", [(H, "in block: \" << tbl.rowCount()", "in block: \" << tbl.columnCount()")], X),
    ("t02 header end", [(H, "end offset: \" << tbl.nextPosition()", "end offset: \" << tbl.startPosition()")], X),
    ("t02 header order", [(H, '"same" : "other"', '"other" : "same"')], X),
    ("t02 header count", [(H, "++headerCount_", "headerCount_")], X),
    ("t02 header ddl first", [(H, "if (md_.empty() || md_.back() != tbl.columns()) {", "if (md_.empty()) {")], X),
    ("t02 header ddl every", [(H, "if (md_.empty() || md_.back() != tbl.columns()) {", "if (md_.size() < 100) {")], X),
    ("t02 header ddl summary", [(H, "for (size_t i(0); i < md_.size(); ++i)\n            printTable", "for (size_t i(1); i < md_.size(); ++i)\n            printTable")], X),
    ("t02 header ddl summary first", [(H, "printTable(o, md_[i],", "printTable(o, md_[0],")], X),
    ("t02 header ddl swapped", [(H, "md_[i], tableName_, path_);", "md_[i], path_, tableName_);")], X),
    ("t02 header ddl type", [(H, "*md[i]));", "*md[0]));")], X),
    ("t02 header ddl name", [(H, "stripAtTable(tableName, md[i]->name()) <<", "stripAtTable(tableName, md[0]->name()) <<")], X),
    ("t02 header ddl columns", [(H, "for (size_t i(0); i < md.size(); ++i) {\n            std::pair", "for (size_t i(1); i < md.size(); ++i) {\n            std::pair")], X),
    ("t02 header ddl double", [(H, 'return "DOUBLE";', 'return "REAL";')], X),
    ("t02 header ddl fields", [(H, "for (size_t i(0); i < sizes.size(); ++i)\n", "for (size_t i(0); i + 1 < sizes.size(); ++i)\n")], X),
    ("t02 header ddl field size", [(H, '" bit" << sizes[i]', '" bit" << sizes[0]')], X),
    ("t02 header ddl field name", [(H, "definition << fieldNames[i]", "definition << fieldNames[0]")], X),
    ("t02 header ddl strip", [(H, "suffix) == 0)\n            return", "suffix) != 0)\n            return")], X),
    ("t02 header option", [(H, CHOOSE, CHOOSE.replace('optionIsSet("-offsets")', 'optionIsSet("-offset")'))], None),
    ("t02 header option swapped", [(H, CHOOSE, CHOOSE.replace('static_cast<MDPrinter*>(&offsetsPrinter)', 'static_cast<MDPrinter*>(&verbosePrinter)'))], X),
    ("t02 header each", [(H, "        printer.print(o, *it);\n", "        if (it->rowCount())\n            printer.print(o, *it);\n")], X),
    ("t02 header no summary", [(H, "    printer.printSummary(o);\n", "")], X),
    ("t02 ok header while", [(H, "    for (; it != end; ++it) {\n        printer.print(o, *it);\n    }\n", "    while (it != end) {\n        const core::Table& table(*it);\n        printer.print(o, table);\n        ++it;\n    }\n")], S),
    ("t02 ok header choose", [(H, CHOOSE, """    MDPrinter* chosen = &verbosePrinter;
    if (optionIsSet("-offsets"))
        chosen = &offsetsPrinter;
    else if (optionIsSet("-ddl"))
        chosen = &ddlPrinter;
    MDPrinter& printer(*chosen);
""")], S),
    ("t02 ok header ddl", [(H, DDL, "        const bool seen = !md_.empty() && !(md_.back() != tbl.columns());\n        if (!seen)\n            md_.push_back(tbl.columns());\n")], S),
    ("t02 ok header offsets", [(H, "        Offset offset(tbl.startPosition());\n        Length length(tbl.nextPosition() - tbl.startPosition());\n        o << offset", "        const Offset begin = tbl.startPosition();\n        const Offset next  = tbl.nextPosition();\n        const Length length = next - begin;\n        o << begin")], S),
    ("t02 ok header summary range", [(H, "        for (size_t i(0); i < md_.size(); ++i)\n            printTable(o, md_[i], tableName_, path_);\n", "        for (const MetaData& md : md_)\n            printTable(o, md, tableName_, path_);\n")], S),
    ("t02 ok header table range", [(H, "            std::pair<std::string, std::string> p(typeDefinitionAndName(tableName, *md[i]));\n            const std::string &def(p.first), type(p.second);\n", "            const Column& column(*md[i]);\n            const std::pair<std::string, std::string> p(typeDefinitionAndName(tableName, column));\n            const std::string& def  = p.first;\n            const std::string& type = p.second;\n"), (H, "md[i]->name()) << \" \"", "column.name()) << \" \"")], S),
    ("t02 header ddl suffix anywhere", [(H, "            columnName.compare(columnName.size() - suffix.size(), suffix.size(), suffix) == 0)\n", "            columnName.rfind(suffix) > 0 && columnName.find(suffix) != std::string::npos)\n")], None),
    ("t02 header ddl suffix found", [(H, "            columnName.compare(columnName.size() - suffix.size(), suffix.size(), suffix) == 0)\n", "            columnName.find(suffix) < columnName.size())\n")], X),
    ("t02 ok header suffix", [(H, "            columnName.compare(columnName.size() - suffix.size(), suffix.size(), suffix) == 0)\n", "            columnName.substr(columnName.size() - suffix.size()) == suffix)\n")], S),
    # ---- V1
    ("t02 xyv swapped", [(V, XROW, XROW.replace("[0]", "[9]").replace("[1]", "[0]").replace("[9]", "[1]"))], X),
    ("t02 xyv select", [(V, '"select lon, lat, "', '"select lat, lon, "')], X),
    ("t02 xyv value", [(V, "(*it)[2] << std::endl", "(*it)[1] << std::endl")], X),
    ("t02 xyv file", [(V, "PathName outputFile     = parameters(3);", "PathName outputFile     = parameters(1);")], X),
    ("t02 xyv skip", [(V, "it != oda.end(); ++it) {\n", "it != oda.end(); ++it) {\n        if ((*it)[2] == 0)\n            ++it;\n")], X),
    ("t02 ok xyv values", [(V, XROW, "        const double lon = (*it)[0];\n        const double lat = (*it)[1];\n        const double value = (*it)[2];\n        out << lon << \"\\t\" << lat << \"\\t\" << value << std::endl;\n")], S),
    ("t02 ok xyv end", [(V, "for (odc::Select::iterator it = oda.begin(); it != oda.end(); ++it) {", "odc::Select::iterator end = oda.end();\n    for (odc::Select::iterator it = oda.begin(); it != end; ++it) {")], S),
    # ---- E1
    ("t02 mdset first", [(D, "md[md.columnIndex(columns[i])]);", "md[md.columnIndex(columns[0])]);")], X),
    ("t02 mdset places kept", [(D, "    for (auto it = reader.begin(), end = reader.end(); it != end; ++it) {\n", "    std::vector<size_t> places(columns.size());\n    size_t tables = 0;\n    for (auto it = reader.begin(), end = reader.end(); it != end; ++it, ++tables) {\n"), (D, "            Column& c(*md[md.columnIndex(columns[i])]);\n", "            if (!tables)\n                places[i] = md.columnIndex(columns[i]);\n            Column& c(*md[places[i]]);\n")], X),
    ("t02 ok mdset places", [(D, "        for (size_t i = 0; i < columns.size(); ++i) {\n            Column& c(*md[md.columnIndex(columns[i])]);\n", "        std::vector<size_t> places;\n        for (size_t i = 0; i < columns.size(); ++i)\n            places.push_back(md.columnIndex(columns[i]));\n        for (size_t i = 0; i < columns.size(); ++i) {\n            Column& c(*md[places[i]]);\n")], S),
    ("t02 mdset place", [(D, "*md[md.columnIndex(columns[i])]);", "*md[i]);")], X),
    ("t02 mdset from one", [(D, "for (size_t i = 0; i < columns.size(); ++i) {\n            Column", "for (size_t i = 1; i < columns.size(); ++i) {\n            Column")], X),
    ("t02 mdset type first", [(D, "c.type(Column::type(types[i]));", "c.type(Column::type(types[0]));")], X),
    ("t02 mdset fields first", [(D, "c.bitfieldDef(bitfieldDefs[i]);", "c.bitfieldDef(bitfieldDefs[0]);")], X),
    ("t02 mdset fields only", [(D, "                c.type(api::BITFIELD);\n", "")], X),
    ("t02 mdset none", [(D, 'else if (types[i].size() && types[i] != "NONE")', "else if (types[i].size())")], X),
    ("t02 mdset value first", [(D, "StringTool::translate(values[i]));", "StringTool::translate(values[0]));")], X),
    ("t02 mdset min", [(D, "                c.min(v);\n", "")], X),
    ("t02 mdset max", [(D, "                c.max(v);\n", "")], X),
    ("t02 mdset not constant", [(D, CONST, "")], X),
    ("t02 mdset constant refused", [(D, CONST, CONST.replace("==", "!="))], X),
    ("t02 mdset value of none", [(D, 'if (values[i].size() && values[i] != "NONE") {', 'if (values[i].size() && types[i] != "NONE") {')], X),
    ("t02 ok mdset fields", [(D, FIELDS, """            const eckit::sql::BitfieldDef& fields(bitfieldDefs[i]);
            if (!fields.first.empty()) {
                c.bitfieldDef(fields);
                c.type(api::BITFIELD);
            }
            else if (!types[i].empty() && types[i] != "NONE")
                c.type(Column::type(types[i]));
""")], S),
    ("t02 ok mdset index", [(D, "            Column& c(*md[md.columnIndex(columns[i])]);\n", "            const size_t index = md.columnIndex(columns[i]);\n            Column& c(*md[index]);\n")], S),
    ("t02 ok mdset values", [(D, "                double v(StringTool::translate(values[i]));\n                c.min(v);\n                c.max(v);\n", "                const std::string& text(values[i]);\n                const double v = StringTool::translate(text);\n                c.max(v);\n                c.min(v);\n")], S),
    # ---- E2
    ("t02 mdset order", [(D, "if (it->byteOrder() == BYTE_ORDER_INDICATOR) {", "if (it->byteOrder() != BYTE_ORDER_INDICATOR) {")], X),
    ("t02 mdset other", [(D, "core::Header::serializeHeaderOtherByteOrder(", "core::Header::serializeHeader(")], X),
    ("t02 mdset rows", [(D, SAME, SAME.replace("md.rowsNumber()", "md.size()"))], X),
    ("t02 mdset properties", [(D, SAME, SAME.replace("it->properties()", "odc::core::Properties()"))], X),
    ("t02 mdset header size", [(D, SAME, SAME.replace("serializeHeader(sizeOfEncodedData", "serializeHeader(0"))], X),
    ("t02 mdset data", [(D, "        const long dataWritten = outHandle->write(encodedData.data(), sizeOfEncodedData);\n        ASSERT(dataWritten == long(sizeOfEncodedData));\n", "        if (md.rowsNumber() > 1) {\n            const long dataWritten = outHandle->write(encodedData.data(), sizeOfEncodedData);\n            ASSERT(dataWritten == long(sizeOfEncodedData));\n        }\n")], X),
    ("t02 mdset close", [(D, "    outHandle->close();\n", "")], X),
    ("t02 ok mdset header", [(D, SAME, SAME.replace("auto encodedHeader =\n                core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);", "const size_t rows = md.rowsNumber();\n            auto encodedHeader = core::Header::serializeHeader(sizeOfEncodedData, rows, it->properties(), md);"))], S),
    ("t02 ok mdset ordered", [(D, "if (it->byteOrder() == BYTE_ORDER_INDICATOR) {", "const bool same = it->byteOrder() == BYTE_ORDER_INDICATOR;\n        if (same) {")], S),
    # ---- E3
    ("t02 list swapped", [(D, PUSH, PUSH.replace("push_back(type)", "push_back(9)").replace("push_back(value)", "push_back(type)").replace("push_back(9)", "push_back(value)"))], X),
    ("t02 list no fields", [(D, PUSH, PUSH.replace("push_back(bf)", "push_back(eckit::sql::BitfieldDef())"))], X),
    ("t02 list column", [(D, "string column(assignment[0].substr(0, colon));", "string column(assignment[0]);")], X),
    ("t02 list type", [(D, "assignment[0].substr(colon + 1)", "assignment[0].substr(colon)")], X),
    ("t02 list fields", [(D, "for (size_t p = 0; p < parts.size(); ++p) {", "for (size_t p = 1; p < parts.size(); ++p) {")], X),
    ("t02 list field name", [(D, "bf.first.push_back(field[0]);", "bf.first.push_back(field[1]);")], X),
    ("t02 list last colon", [(D, "assignment[0].find(':')", "assignment[0].rfind(':')")], X),
    ("t02 list same field", [(D, "S::split(\":\", parts[p])", "S::split(\":\", parts[0])")], X),
    ("t02 ok list range", [(D, "            for (size_t p = 0; p < parts.size(); ++p) {\n                std::vector<std::string> field(S::split(\":\", parts[p]));\n", "            for (const std::string& part : parts) {\n                std::vector<std::string> field(S::split(\":\", part));\n"), (D, "got '\" + parts[p] +", "got '\" + part +")], S),
    ("t02 ok list order", [(D, PUSH, PUSH.replace("        columns.push_back(column);\n", "") + "        columns.push_back(column);\n")], S),
    ("t02 ok list value", [(D, 'string value(assignment.size() == 2 ? assignment[1] : "NONE");', 'string value("NONE");\n        if (assignment.size() == 2)\n            value = assignment[1];')], S),
    # ---- Q1
    ("t02 sql offset", [(Q, OPENED, OPENED.replace("PartFileHandle(inputFile_, offset_, length)", "PartFileHandle(inputFile_, 0, length)"))], X),
    ("t02 sql length", [(Q, OPENED, OPENED.replace("!optionIsSet(\"-offset\") && !optionIsSet(\"-length\")", "!optionIsSet(\"-offset\")"))], X),
    ("t02 sql rest", [(Q, OPENED, OPENED.replace(".size() - offset_)", ".size())"))], X),
    ("t02 sql length from offset", [(Q, 'length_ = optionArgument("-length", (long)0);', 'length_ = optionArgument("-offset", (long)0);')], X),
    ("t02 sql input", [(Q, "if (!inputFile_.empty()) {", "if (!inputFile_.empty() && optionIsSet(\"-offset\")) {")], X),
    ("t02 ok sql length", [(Q, OPENED, """        else if (optionIsSet("-offset") || optionIsSet("-length")) {
            eckit::Length length = length_;
            if (!optionIsSet("-length"))
                length = eckit::Length(PathName(inputFile_).size() - offset_);
            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length));
        }
        else {
            implicitTableDH.reset(new FileHandle(inputFile_));
        }
""")], S),
    ("t02 ok sql flags", [(Q, OPENED, OPENED.replace("        else if (!optionIsSet(\"-offset\") && !optionIsSet(\"-length\")) {", "        else if (!(optionIsSet(\"-offset\") || optionIsSet(\"-length\"))) {"))], S),
    # ---- O1
    ("t02 parse dash", [(P, PARAM, PARAM.replace(" || s.size() == 1", ""))], X),
    ("t02 parse argument", [(P, "argv(++i);", "argv(i + 1);")], X),
    ("t02 parse option", [(P, "                optionsNoArguments_.insert(s);\n", "                optionsNoArguments_.insert(s);\n                ++i;\n")], X),
    ("t02 parse again", [(P, "    commandLineParsed_ = true;\n}\n\nvoid", "}\n\nvoid")], X),
    ("t02 parse from one", [(P, "for (int i = 0; i < argc(); ++i) {", "for (int i = 1; i < argc(); ++i) {")], X),
    ("t02 parse set", [(P, OPTS, "    return optionsNoArguments_.find(option) != optionsNoArguments_.end();\n")], X),
    ("t02 copy options", [(P, "    self.optionsNoArguments_             = other.optionsNoArguments_;\n    self.commandLineParsed_              = true;\n\n    ASSERT(self.commandLineParsed_ == other.commandLineParsed_);\n}", "    self.commandLineParsed_              = true;\n\n    ASSERT(self.commandLineParsed_ == other.commandLineParsed_);\n}")], X),
    ("t02 copy early", [(P, "    self.parameters_                     = const_cast<CommandLineParser&>(other).parameters();\n    self.optionsWithArguments_           = other.optionsWithArguments_;\n    self.optionsNoArguments_             = other.optionsNoArguments_;\n    self.commandLineParsed_              = true;\n\n    ASSERT(self.commandLineParsed_ == other.commandLineParsed_);\n}", "    self.optionsWithArguments_           = other.optionsWithArguments_;\n    self.optionsNoArguments_             = other.optionsNoArguments_;\n    self.parameters_                     = const_cast<CommandLineParser&>(other).parameters();\n    self.commandLineParsed_              = true;\n\n    ASSERT(self.commandLineParsed_ == other.commandLineParsed_);\n}")], X),
    ("t02 sql registered", [(Q, '    registerOptionWithArgument("-length");\n', "")], X),
    ("t02 ok parse argument", [(P, "                optionsWithArguments_[s] = argv(++i);\n", "                ++i;\n                optionsWithArguments_[s] = argv(i);\n")], S),
    ("t02 ok parse while", [(P, "    for (int i = 0; i < argc(); ++i) {\n        std::string s = argv(i);\n", "    const int n = argc();\n    for (int i = 0; i < n; i++) {\n        const std::string s = argv(i);\n")], S),
    ("t02 ok parse known", [(P, "            if (registeredOptionsWithArguments_.find(s) != registeredOptionsWithArguments_.end()) {", "            if (registeredOptionsWithArguments_.count(s)) {")], S),
    ("t02 ok parse set", [(P, OPTS, "    const bool flag = optionsNoArguments_.count(option) > 0;\n    return flag || optionsWithArguments_.count(option) > 0;\n")], S),
    ("t02 ok copy order", [(P, "    self.argc_                           = other.argc_;\n    self.argv_                           = other.argv_;\n    self.registered", "    self.argv_                           = other.argv_;\n    self.argc_                           = other.argc_;\n    self.registered")], S),
]
