N = "src/odc/tools/CountTool.cc"
L = "src/odc/tools/LSTool.cc"
V = "src/odc/tools/XYVTool.cc"
D = "src/odc/tools/MDSetTool.cc"
H = "src/odc/tools/ODAHeaderTool.cc"
Q = "src/odc/tools/SQLTool.cc"
P = "src/odc/CommandLineParser.cc"
S = set()
FILES = """    unsigned long long n(0);
    for (size_t i(1); i < parameters().size(); ++i) {
        const std::string fileName(parameters(i));

        LOG_DEBUG_LIB(LibOdc) << "CountTool: counting " << fileName << std::endl;

        n += rowCount(fileName);
    }
"""
LSMAIN = """        const char* spacer = "";
        for (size_t i = 0; i < md.size(); ++i) {
            out << spacer;
            if (it->isMissing(i)) {
                out << ".";
            }
            else {
                switch (md[i]->type()) {
                    case odc::api::INTEGER:
                    case odc::api::BITFIELD:
                        if (it->isMissing(i)) {
                            out << ".";
                        }
                        else {
                            out << static_cast<int>((*it)[i]);
                        }
                        break;
                    case odc::api::REAL:
                    case odc::api::DOUBLE:
                        out << (*it)[i];
                        break;
                    case odc::api::STRING:
                        out << "'" << (*it).string(i) << "'";
                        break;
                    case odc::api::IGNORE:
                    default:
                        ASSERT("Unknown type" && false);
                        break;
                }
            }
            spacer = "\\t";
        }
        out << std::endl;
"""
LSHELP = """static void printValue(std::ostream& out, const odc::core::Row& row, size_t i, api::ColumnType type) {"""
EDIT = """        for (size_t i = 0; i < columns.size(); ++i) {
            Column& c(*md[md.columnIndex(columns[i])]);
            Log::info() << "" << columns[i] << ": " << c << endl;

            if (bitfieldDefs[i].first.size()) {
                c.type(api::BITFIELD);
                c.bitfieldDef(bitfieldDefs[i]);
            }
            else if (types[i].size() && types[i] != "NONE")
                c.type(Column::type(types[i]));
            if (values[i].size() && values[i] != "NONE") {
                Codec& codec(c.coder());
                if (codec.name().find("constant") == std::string::npos) {
                    stringstream ss;
                    ss << "Column '" << columns[i] << "' is not constant (codec: " << codec.name() << ")" << endl;
                    throw UserError(ss.str());
                }
                double v(StringTool::translate(values[i]));
                c.min(v);
                c.max(v);
            }
        }
"""
EDITBODY = EDIT[EDIT.index("            Log::info()"):EDIT.rindex("        }\n")]
EDITFN = ("static void editColumn(Column& c, const std::string& name, const std::string& type, const std::string& value,\n                       const eckit::sql::BitfieldDef& fields) {\n"
          + EDITBODY.replace("columns[i]", "name").replace("types[i]", "type").replace("values[i]", "value").replace("bitfieldDefs[i]", "fields") + "}\n\n")
EDITCALL = """        for (size_t i = 0; i < columns.size(); ++i)
            editColumn(*md[md.columnIndex(columns[i])], columns[i], types[i], values[i], bitfieldDefs[i]);
"""
TAIL = """        if (it->byteOrder() == BYTE_ORDER_INDICATOR) {
            Log::info() << "MDSetTool::run: SAME ORDER " << sizeOfEncodedData << std::endl;

            auto encodedHeader =
                core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
            const long headerWritten = outHandle->write(encodedHeader.first, encodedHeader.second);
            ASSERT(headerWritten == long(encodedHeader.second));
        }
        else {
            Log::info() << "MDSetTool::run: OTHER ORDER " << sizeOfEncodedData << std::endl;

            auto encodedHeader =
                core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
            const long headerWritten = outHandle->write(encodedHeader.first, encodedHeader.second);
            ASSERT(headerWritten == long(encodedHeader.second));
        }
        const long dataWritten = outHandle->write(encodedData.data(), sizeOfEncodedData);
        ASSERT(dataWritten == long(sizeOfEncodedData));
"""
TAIL2 = """        const bool sameOrder = it->byteOrder() == BYTE_ORDER_INDICATOR;
        Log::info() << "MDSetTool::run: " << (sameOrder ? "SAME" : "OTHER") << " ORDER " << sizeOfEncodedData << std::endl;

        auto encodedHeader =
            sameOrder
                ? core::Header::serializeHeader(sizeOfEncodedData, md.rowsNumber(), it->properties(), md)
                : core::Header::serializeHeaderOtherByteOrder(sizeOfEncodedData, md.rowsNumber(), it->properties(), md);
        writeAll(*outHandle, encodedHeader.first, encodedHeader.second);
        writeAll(*outHandle, encodedData.data(), sizeOfEncodedData);
"""
WRITEALL = "static void writeAll(DataHandle& handle, const void* data, size_t size) {\n    const long written = handle.write(data, size);\n    ASSERT(written == long(size));\n}\n\n"
FIELD = """            for (size_t p = 0; p < parts.size(); ++p) {
                std::vector<std::string> field(S::split(":", parts[p]));
                if (field.size() != 2)
                    throw UserError("Expected a field of the form <name>:<size>, got '" + parts[p] + "'");
                bf.first.push_back(field[0]);
                bf.second.push_back(atoi(field[1].c_str()));
            }
"""
WORDS = """    for (int i = 0; i < argc(); ++i) {
        std::string s = argv(i);
        if (s[0] != '-' || s.size() == 1) {
            parameters_.push_back(s);
            LOG_DEBUG_LIB(LibOdc) << "CommandLineParser::parseCommandLine: parameter: " << s << std::endl;
        }
        else {
            if (registeredOptionsWithArguments_.find(s) != registeredOptionsWithArguments_.end()) {
                optionsWithArguments_[s] = argv(++i);
                LOG_DEBUG_LIB(LibOdc) << "CommandLineParser::parseCommandLine: option with argument: " << s << " = "
                                      << optionsWithArguments_[s] << std::endl;
            }
            else {
                optionsNoArguments_.insert(s);
                LOG_DEBUG_LIB(LibOdc) << "CommandLineParser::parseCommandLine: option with no argument: " << s
                                      << std::endl;
            }
        }
    }
"""
WORDS2 = """    int i = 0;
    while (i < argc()) {
        const std::string word = argv(i++);
        const bool option = word.size() != 1 && word[0] == '-';
        if (!option) {
            parameters_.push_back(word);
            continue;
        }
        const bool takesArgument = registeredOptionsWithArguments_.find(word) != registeredOptionsWithArguments_.end();
        if (takesArgument)
            optionsWithArguments_[word] = argv(i++);
        else
            optionsNoArguments_.insert(word);
    }
"""
WORDS3 = """    for (int i = 0; i < argc(); ++i) {
        const std::string s = argv(i);
        if (!isOption(s)) {
            parameters_.emplace_back(s);
        }
        else if (registeredOptionsWithArguments_.count(s) == 0) {
            optionsNoArguments_.emplace(s);
        }
        else {
            const std::string argument = argv(i + 1);
            optionsWithArguments_[s]   = argument;
            i += 1;
        }
    }
"""
CASES = [
    ("t02b ok count files", [(N, FILES, "    const std::vector<std::string> names(parameters());\n    unsigned long long n = 0;\n    for (size_t i = 1; i < names.size(); ++i)\n        n += rowCount(names[i]);\n")], S),
    ("t02b ok count files down", [(N, FILES, "    unsigned long long n = 0;\n    for (size_t i = parameters().size() - 1; i > 0; --i)\n        n += rowCount(parameters(i));\n")], S),
    ("t02b ok count files iter", [(N, FILES, "    const std::vector<std::string> names(parameters());\n    unsigned long long n = 0;\n    for (auto name = names.begin() + 1; name != names.end(); ++name)\n        n += rowCount(*name);\n")], S),
    ("t02b ok ls value", [(L, LSMAIN, "        for (size_t i = 0; i < md.size(); ++i) {\n            if (i)\n                out << \"\\t\";\n            printValue(out, it, i, md[i]->type());\n        }\n        out << std::endl;\n"),
        (L, "unsigned long long LSTool::printData", "static void printValue(std::ostream& out, odc::Reader::iterator& it, size_t i, api::ColumnType type) {\n    if (it->isMissing(i)) {\n        out << \".\";\n        return;\n    }\n    switch (type) {\n        case odc::api::INTEGER:\n        case odc::api::BITFIELD:\n            out << static_cast<int>((*it)[i]);\n            return;\n        case odc::api::REAL:\n        case odc::api::DOUBLE:\n            out << (*it)[i];\n            return;\n        case odc::api::STRING:\n            out << \"'\" << (*it).string(i) << \"'\";\n            return;\n        default:\n            ASSERT(\"Unknown type\" && false);\n    }\n}\n\nunsigned long long LSTool::printData")], S),
    ("t02b ok ls string", [(L, "                        out << \"'\" << (*it).string(i) << \"'\";\n", "                        const std::string text = (*it).string(i);\n                        out << '\\'' << text << '\\'';\n"), (L, "case odc::api::STRING:", "case odc::api::STRING: {"), (L, "break;\n                    case odc::api::IGNORE:", "break;\n                    }\n                    case odc::api::IGNORE:")], S),
    ("t02b ok ls while", [(L, "    for (; it != end; ++it, ++n) {", "    while (it != end) {"), (L, "        out << std::endl;\n    }\n    return n;", "        out << std::endl;\n        ++n;\n        ++it;\n    }\n    return n;")], S),
    ("t02b ok mdset column", [(D, EDIT, EDITCALL), (D, "void MDSetTool::run() {", EDITFN + "void MDSetTool::run() {")], S),
    ("t02b ok mdset tail", [(D, TAIL, TAIL2), (D, "void MDSetTool::run() {", WRITEALL + "void MDSetTool::run() {")], S),
    ("t02b ok mdset fields", [(D, FIELD, "            for (auto part = parts.begin(); part != parts.end(); ++part) {\n                const std::vector<std::string> field(S::split(\":\", *part));\n                if (field.size() != 2)\n                    throw UserError(\"Expected a field of the form <name>:<size>, got '\" + *part + \"'\");\n                const int bits = atoi(field[1].c_str());\n                bf.second.push_back(bits);\n                bf.first.push_back(field[0]);\n            }\n")], S),
    ("t02b ok mdset buffer", [(D, "        size_t sizeOfEncodedData = it->encodedDataSize();\n        eckit::Buffer encodedData(it->readEncodedData());\n        ASSERT(encodedData.size() == sizeOfEncodedData);\n", "        eckit::Buffer encodedData(it->readEncodedData());\n        const size_t sizeOfEncodedData = encodedData.size();\n        ASSERT(sizeOfEncodedData == it->encodedDataSize());\n")], S),
    ("t02b ok words", [(P, WORDS, WORDS2)], S),
    ("t02b ok words helper", [(P, WORDS, WORDS3), (P, "void CommandLineParser::parseCommandLine() {", "static bool isOption(const std::string& word) {\n    return word[0] == '-' && word.size() > 1;\n}\n\nvoid CommandLineParser::parseCommandLine() {")], S),
    ("t02b ok copy shared", [(P, """    CommandLineParser& self = *this;

    self.argc_                           = other.argc_;
    self.argv_                           = other.argv_;
    self.registeredOptionsWithArguments_ = other.registeredOptionsWithArguments_;
    self.parameters_                     = const_cast<CommandLineParser&>(other).parameters();
    self.optionsWithArguments_           = other.optionsWithArguments_;
    self.optionsNoArguments_             = other.optionsNoArguments_;
    self.commandLineParsed_              = true;

    ASSERT(self.commandLineParsed_ == other.commandLineParsed_);
}

Com""", """    commandLineParsed_ = false;
    *this = other;
}

Com""")], S),
    ("t02b ok header help", [(H, "            if (c.type() == api::BITFIELD) {", "            if (api::BITFIELD == c.type()) {")] if False else [(H, "        if (c.type() == api::BITFIELD) {", "        const bool bitfield = c.type() == api::BITFIELD;\n        if (bitfield) {")], S),
    ("t02b ok header fields", [(H, """            for (size_t i(0); i < sizes.size(); ++i)
                definition << fieldNames[i] << " bit" << sizes[i] << ((i + 1 < sizes.size()) ? ", " : "");
""", """            for (size_t i(0); i < sizes.size(); ++i) {
                if (i)
                    definition << ", ";
                definition << fieldNames[i] << " bit" << sizes[i];
            }
""")], S),
    ("t02b ok header type map", [(H, """            case INTEGER:
                return "INTEGER";
            case BITFIELD:
                return "INTEGER";
""", """            case INTEGER:
            case BITFIELD:
                return "INTEGER";
""")], S),
    ("t02b ok header verbose", [(H, """        o << std::endl
          << "Header " << ++headerCount_ << ". "
          << "Begin""", """        ++headerCount_;
        o << std::endl << "Header " << headerCount_ << ". ";
        o << "Begin""")], S),
    ("t02b ok header strip", [(H, """        if (columnName.size() >= suffix.size() &&
            columnName.compare(columnName.size() - suffix.size(), suffix.size(), suffix) == 0)
            return columnName.substr(0, columnName.size() - suffix.size());

        return columnName;
""", """        if (columnName.size() < suffix.size())
            return columnName;

        const size_t stem = columnName.size() - suffix.size();
        const bool ends   = columnName.compare(stem, std::string::npos, suffix) == 0;
        return ends ? columnName.substr(0, stem) : columnName;
""")], S),
    ("t02b ok header summary", [(H, "    for (; it != end; ++it) {\n        printer.print(o, *it);\n    }\n    printer.printSummary(o);\n", "    std::for_each(it, end, [&](const core::Table& t) { printer.print(o, t); });\n    printer.printSummary(o);\n")] if False else [(H, "            printTable(o, md_[i], tableName_, path_);", "            DDLPrinter::printTable(o, md_.at(i), tableName_, path_);")], S),
    ("t02b ok sql open", [(Q, "            implicitTableDH.reset(new PartFileHandle(inputFile_, offset_, length));\n", "            implicitTableDH = std::make_unique<PartFileHandle>(inputFile_, offset_, length);\n")], S),
    ("t02b ok sql options", [(Q, """    offset_ = optionArgument("-offset", (long)0);  // FIXME@ optionArgument should accept unsigned long etc
    length_ = optionArgument("-length", (long)0);
""", """    const long length = optionArgument("-length", 0L);
    const long offset = optionArgument("-offset", 0L);
    offset_           = offset;
    length_           = length;
""")], S),
    ("t02b ok xyv value", [(V, """        out << (*it)[0] << "\\t" << (*it)[1] << "\\t" << (*it)[2] << std::endl;
""", """        for (size_t i = 0; i < 3; ++i)
            out << (*it)[i] << (i < 2 ? '\\t' : '\\n');
""")], S),
]
