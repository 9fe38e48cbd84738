N = "src/odc/csv/TextReaderIterator.cc"
T = "src/odc/csv/TextReader.cc"
A = "src/odc/api/Odb.cc"
I = "src/odc/tools/ImportTool.cc"
X = {"I01"}
LOOP = """    do {
        if (!std::getline(*in_, line)) {
            noMore_ = true;
            return false;
        }
        line = S::trim(line);
    } while (line.empty());
"""
NULLV = """        if (S::upper(v) == "NULL") {
            lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();
        }
"""
GROW = """                        double* oldData = lastValues_;
                        lastValues_     = 0;
                        initRowBuffer();
                        ASSERT(oldData);
                        ::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));
                        delete[] oldData;
"""
COPY = """                    ::memcpy(buf, &unquoted[0], charlen);
                    ::memset(buf + charlen, 0, (lenDoubles * sizeof(double)) - charlen);
"""
LEN = "size_t lenDoubles    = charlen > 0 ? (((charlen - 1) / 8) + 1) : 1;"
REAL = "lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, float>()(v));"
DBL = "lastValues_[columnOffsets_[i]] = Translator<std::string, double>()(v);"
INT = "lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));"
OFF = """        columnOffsets_[i] = rowDataSizeDoubles_;
        rowDataSizeDoubles_ += columns()[i]->dataSizeDoubles();
"""
ADD = "columns_.addColumn(columnName, columnType);"
ADDB = "columns_.addBitfield(columnName, parseBitfields(columns[i]));"
CASES = [
    # H1
    ("i01 header name untrimmed", [(N, "const std::string columnName(S::trim(column[0]));", "const std::string columnName(column[0]);")], X),
    ("i01 header first line lost", [(N, "    std::getline(*in_, header);\n", "    std::getline(*in_, header);\n    if (header[0] == '#')\n        std::getline(*in_, header);\n")], X),
    ("i01 header wrong part", [(N, "S::trim(column[0])", "S::trim(column[1])")], X),
    ("i01 header last column", [(N, "for (size_t i = 0; i < columns.size(); ++i) {", "for (size_t i = 0; i + 1 < columns.size(); ++i) {")], X),
    ("i01 header bitfields of first", [(N, "parseBitfields(columns[i])", "parseBitfields(columns[0])")], X),
    ("i01 header bitfields upper", [(N, "parseBitfields(columns[i])", "parseBitfields(S::upper(columns[i]))")], X),
    ("i01 header kind", [(N, 'S::startsWith(columnType, "BITFIELD")', 'S::startsWith(columnType, "BITFIELD[")'), (N, ADD, ADD)], X),
    ("i01 header one part", [(N, "column.size() < 2", "column.size() < 1")], X),
    ("i01 header no buffer", [(N, "    initRowBuffer();\n}\n\nTextReaderIterator::~", "    if (lastValues_)\n        initRowBuffer();\n}\n\nTextReaderIterator::~")], X),
    ("i01 header lower name", [(N, "S::trim(column[0])", "S::trim(S::lower(column[0]))")], X),
    # H2
    ("i01 bits first member", [(N, "for (size_t i = 0; i < bs.size(); ++i) {", "for (size_t i = 1; i < bs.size(); ++i) {")], X),
    ("i01 bits brackets", [(N, "leftBracket != std::string::npos && rightBracket != std::string::npos", "leftBracket != std::string::npos || rightBracket != std::string::npos")], X),
    ("i01 bits inside", [(N, "rightBracket - leftBracket - 1", "rightBracket - leftBracket - 2")], X),
    ("i01 bits triple", [(N, "if (v.size() != 2)", "if (v.size() < 2)")], X),
    ("i01 bits dup", [(N, "if (std::find(names.begin(), names.end(), v[0]) != names.end())", "if (std::find(names.begin(), names.end(), v[1]) != names.end())")], X),
    ("i01 bits swapped", [(N, "names.push_back(v[0]);", "names.push_back(v[1]);")], X),
    ("i01 bits zero", [(N, "if (size <= 0)", "if (size < 0)")], X),
    ("i01 bits total", [(N, "numberOfBits += size;", "numberOfBits = size;")], X),
    ("i01 bits limit", [(N, "numberOfBits > 31", "numberOfBits > 32")], X),
    ("i01 bits limit low", [(N, "numberOfBits > 31", "numberOfBits >= 31")], X),
    # B1
    ("i01 buffer offset after", [(N, OFF, "        rowDataSizeDoubles_ += columns()[i]->dataSizeDoubles();\n        columnOffsets_[i] = rowDataSizeDoubles_;\n")], X),
    ("i01 buffer unit width", [(N, "rowDataSizeDoubles_ += columns()[i]->dataSizeDoubles();", "rowDataSizeDoubles_ += 1;")], X),
    ("i01 buffer start kept", [(N, "    rowDataSizeDoubles_ = 0;\n", "")], X),
    ("i01 buffer missing first", [(N, "lastValues_[columnOffsets_[i]] = columns()[i]->missingValue();", "lastValues_[columnOffsets_[i]] = columns()[0]->missingValue();")], X),
    ("i01 buffer missing place", [(N, "        lastValues_[columnOffsets_[i]] = columns()[i]->missingValue();", "        lastValues_[i] = columns()[i]->missingValue();")], X),
    ("i01 buffer size", [(N, "lastValues_ = new double[rowDataSizeDoubles_];", "lastValues_ = new double[columns().size()];")], X | set()),
    # L1
    ("i01 lines blank ends", [(N, LOOP, "    if (!std::getline(*in_, line)) {\n        noMore_ = true;\n        return false;\n    }\n    line = S::trim(line);\n    if (line.empty()) {\n        noMore_ = true;\n        return false;\n    }\n")], X),
    ("i01 lines blank false", [(N, LOOP, "    if (!std::getline(*in_, line)) {\n        noMore_ = true;\n        return false;\n    }\n    line = S::trim(line);\n    if (line.empty())\n        return false;\n")], X),
    ("i01 lines comment", [(N, "while (line.empty());", "while (line.empty() || line[0] == '-');")], X),
    ("i01 lines forget", [(N, "            noMore_ = true;\n            return false;\n        }\n        line", "            return false;\n        }\n        line")], X),
    ("i01 lines eof", [(N, "if (!std::getline(*in_, line)) {", "if (!std::getline(*in_, line) || in_->eof()) {")], X),
    ("i01 lines flag kept", [(N, "    newDataset_ = false;\n    if (noMore_)", "    if (noMore_)")], X),
    ("i01 lines again", [(N, "    if (noMore_)\n        return false;\n", "")], X),
    # L2
    ("i01 values count", [(N, "ASSERT(nCols == columns().size());", "ASSERT(nCols >= columns().size());\n    nCols = columns().size();")], X),
    ("i01 values count none", [(N, "    ASSERT(nCols == columns().size());\n", "")], X),
    ("i01 values delimiter", [(N, "std::vector<std::string> values(S::split(delimiter_, line));", 'std::vector<std::string> values(S::split(",", line));')], X),
    ("i01 values real int", [(N, REAL, "lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, long>()(v));")], X),
    ("i01 values double float", [(N, DBL, "lastValues_[columnOffsets_[i]] = Translator<std::string, float>()(v);")], X),
    ("i01 values int32", [(N, INT, "lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, int>()(v));")], X),
    ("i01 values int float", [(N, INT, "lastValues_[columnOffsets_[i]] = Translator<std::string, float>()(v);")], X),
    ("i01 values place", [(N, DBL, "lastValues_[i] = Translator<std::string, double>()(v);")], X),
    ("i01 values null exact", [(N, 'if (S::upper(v) == "NULL")', 'if (v == "Null")')], X),
    ("i01 values null zero", [(N, NULLV, NULLV.replace("columns_[i]->missingValue()", "0"))], X),
    ("i01 values null first", [(N, NULLV, NULLV.replace("columns_[i]->missingValue()", "columns_[0]->missingValue()"))], X),
    ("i01 values null word", [(N, '"NULL"', '"MISSING"')], X),
    ("i01 values bitfield refused", [(N, "                case api::BITFIELD:\n                    lastValues_", "                    lastValues_")], X),
    ("i01 values type of first", [(N, "api::ColumnType typ(columns()[i]->type());", "api::ColumnType typ(columns()[0]->type());")], X),
    ("i01 values abs", [(N, DBL, "lastValues_[columnOffsets_[i]] = -Translator<std::string, double>()(v);")], X),
    # L3
    ("i01 string no padding", [(N, "                    ::memset(buf + charlen, 0, (lenDoubles * sizeof(double)) - charlen);\n", "")], X),
    ("i01 string pad short", [(N, "    lenDoubles = columns_[i]->dataSizeDoubles();\n", "")], X),
    ("i01 string pad spaces", [(N, "::memset(buf + charlen, 0,", "::memset(buf + charlen, ' ',")], X),
    ("i01 string quoted", [(N, "std::string unquoted = S::unQuote(v);", "std::string unquoted = v;")], X),
    ("i01 string floor", [(N, LEN, "size_t lenDoubles    = charlen > 0 ? charlen / 8 : 1;")], X),
    ("i01 string room", [(N, "if (lenDoubles > columns_[i]->dataSizeDoubles()) {", "if (lenDoubles > columns_[i]->dataSizeDoubles() + 1) {")], X),
    ("i01 string lost", [(N, "                        ::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));\n", "")], X),
    ("i01 string kept few", [(N, "columnOffsets_[i] * sizeof(double));", "i * sizeof(double));")], X),
    ("i01 string kept bytes", [(N, "columnOffsets_[i] * sizeof(double));", "columnOffsets_[i]);")], X),
    ("i01 string reversed", [(N, "::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));", "::memcpy(oldData, lastValues_, columnOffsets_[i] * sizeof(double));")], X),
    ("i01 string freed", [(N, "                        lastValues_     = 0;\n", "")], X),
    ("i01 string silent", [(N, "                        newDataset_ = true;\n", "")], X),
    ("i01 string silent late", [(N, "                        newDataset_ = true;\n", "                        newDataset_ = i == 0;\n")], X),
    ("i01 string leak", [(N, "                        delete[] oldData;\n", "")], X),
    ("i01 string order", [(N, "                        columns_[i]->dataSizeDoubles(lenDoubles);\n", ""), (N, "                        delete[] oldData;\n", "                        delete[] oldData;\n                        columns_[i]->dataSizeDoubles(lenDoubles);\n")], X),
    # F1
    ("i01 api delimiter", [(A, "    odc::TextReader reader(in, delimiter);", '    odc::TextReader reader(in, ",");')], X),
    ("i01 api delimiter outer", [(A, "    return odbFromCSV(is, dh_out, delimiter);", '    return odbFromCSV(is, dh_out, ",");')], X),
    ("i01 api count", [(A, "    return output->pass1(reader.begin(), reader.end());\n}\n\nsize_t odbFromCSV(const", "    output->pass1(reader.begin(), reader.end());\n    return 0;\n}\n\nsize_t odbFromCSV(const")], X),
    # T1
    ("i01 tool parameters", [(I, "parameters().size() != 3", "parameters().size() < 3")], X),
    ("i01 tool tab", [(I, 'named == "TAB" ? "\\t"', 'named == "TAB" ? "t"')], X),
    ("i01 tool upper", [(I, "    std::string delimiter(optionArgument(\"-d\", defaultDelimiter()));", "    std::string delimiter(StringTools::upper(optionArgument(\"-d\", defaultDelimiter())));")], X),
    ("i01 tool sql comma", [(I, "filterAndImportFile(inFile, outFile, sql, delimiter);\n    }", "filterAndImportFile(inFile, outFile, sql, defaultDelimiter());\n    }")], X),
    ("i01 tool query ignored", [(I, 'if (sql == "select *;") {', 'if (sql == "select *;" || delimiter == ",") {')], X),
    ("i01 tool files", [(I, "PathName inFile(parameters(1)), outFile(parameters(2));", "PathName inFile(parameters(2)), outFile(parameters(1));")], X),
    ("i01 tool table delimiter", [(I, "new odc::sql::ODBCSVTable(db, in, in, delimiter)", 'new odc::sql::ODBCSVTable(db, in, in, ",")')], X),
    ("i01 tool table query", [(I, "eckit::sql::SQLParser().parseString(session, sql);", 'eckit::sql::SQLParser().parseString(session, "select *;");')], X),
    ("i01 tool table run", [(I, "size_t n = session.statement().execute();", "size_t n = 0;")], X),
    # R1
    ("i01 reader unopened", [(T, "    if (!*in)\n        throw CantOpenFile(path, Here());\n", "")], X),
    ("i01 reader owned", [(T, "in_(&input), deleteDataHandle_(false)", "in_(&input), deleteDataHandle_(true)")], X),
    ("i01 reader leak", [(T, "    deleteDataHandle_(true),", "    deleteDataHandle_(false),")], X),
    ("i01 reader move", [(T, "    rhs.in_               = 0;\n    rhs.deleteDataHandle_ = false;\n", "")], X),
    ("i01 reader assign", [(T, "    std::swap(deleteDataHandle_, rhs.deleteDataHandle_);\n", "")], X),
    ("i01 reader foreign", [(T, "if (in_ && deleteDataHandle_) {", "if (in_) {")], X),
    ("i01 reader fresh cursor", [(T, "    return iteratorSingleton_;\n", "    return iterator(new TextReaderIterator(*this));\n")], X),
    ("i01 reader no first", [(N, "    parseHeader();\n    next();\n}\n\nTextReaderIterator::TextReaderIterator(TextReader& owner, const", "    parseHeader();\n}\n\nTextReaderIterator::TextReaderIterator(TextReader& owner, const")], X),
    ("i01 reader owns", [(N, "    ownsF_ = true;\n", "")], X),
    ("i01 reader data", [(N, "    return lastValues_[columnOffsets_[i]];\n", "    return lastValues_[i];\n")], X),
    # refactorings
    ("i01 ok header range", [(N, """        std::vector<std::string> column(S::split(":", columns[i]));
        if (column.size() < 2)""", """        const std::string& text = columns[i];
        std::vector<std::string> column(S::split(":", text));
        const size_t nparts = column.size();
        if (nparts == 0 || nparts == 1)""")], set()),
    ("i01 ok header flipped", [(N, """        if (!S::startsWith(columnType, "BITFIELD")) {""", """        const bool isBits = S::startsWith(columnType, "BITFIELD");
        if (!isBits) {""")], set()),
    ("i01 ok header join late", [(N, """        const std::string columnType(
            S::upper(S::join(":", std::vector<std::string>(column.begin() + 1, column.end()))));
""", """        std::vector<std::string> rest(column.begin() + 1, column.end());
        const std::string columnType(S::upper(S::join(":", rest)));
""")], set()),
    ("i01 ok header helper", [(N, "void TextReaderIterator::parseHeader() {", """namespace {
std::string typeOf(const std::vector<std::string>& column) {
    return S::upper(S::join(":", std::vector<std::string>(column.begin() + 1, column.end())));
}
}

void TextReaderIterator::parseHeader() {"""), (N, """        const std::string columnType(
            S::upper(S::join(":", std::vector<std::string>(column.begin() + 1, column.end()))));
""", "        const std::string columnType(typeOf(column));\n")], set()),
    ("i01 ok header erase", [(N, """        const std::string columnType(
            S::upper(S::join(":", std::vector<std::string>(column.begin() + 1, column.end()))));
""", """        column.erase(column.begin());
        const std::string columnType(S::upper(S::join(":", column)));
""")], set()),
    ("i01 ok bits range for", [(N, """    for (size_t i = 0; i < bs.size(); ++i) {
        std::vector<std::string> v(S::split(":", bs[i]));
""", """    for (const std::string& member : bs) {
        std::vector<std::string> v(S::split(":", member));
""")], set()),
    ("i01 ok bits swapped order", [(N, """        names.push_back(v[0]);

        int size = atoi(v[1].c_str());

        if (size <= 0)
            throw UserError("Size of a bitfield must be positive and larger than zero");

        numberOfBits += size;
        sizes.push_back(size);
""", """        const int size = atoi(v[1].c_str());

        if (size < 1)
            throw UserError("Size of a bitfield must be positive and larger than zero");

        sizes.push_back(size);
        names.push_back(v[0]);
        numberOfBits += size;
""")], set()),
    ("i01 ok bits limit", [(N, "numberOfBits > 31", "numberOfBits >= 32")], set()),
    ("i01 ok bits early limit", [(N, "        sizes.push_back(size);\n", "        sizes.push_back(size);\n        if (numberOfBits > 31)\n            throw UserError(\"Bitfields can have up to 31 bits only currently\");\n")], set()),
    ("i01 ok bits brackets", [(N, "if (!(leftBracket != std::string::npos && rightBracket != std::string::npos))", "if (leftBracket == std::string::npos || rightBracket == std::string::npos)")], set()),
    ("i01 ok buffer one loop", [(N, """    for (size_t i = 0; i < columns().size(); i++) {
        columnOffsets_[i] = rowDataSizeDoubles_;
        rowDataSizeDoubles_ += columns()[i]->dataSizeDoubles();
    }
""", """    size_t offset = 0;
    const size_t n = columns().size();
    for (size_t i = 0; i < n; ++i) {
        columnOffsets_[i] = offset;
        offset += columns_[i]->dataSizeDoubles();
    }
    rowDataSizeDoubles_ = offset;
""")], set()),
    ("i01 ok buffer helper", [(N, """    lastValues_ = new double[rowDataSizeDoubles_];
    for (size_t i = 0; i < columns().size(); i++)
        lastValues_[columnOffsets_[i]] = columns()[i]->missingValue();
}
""", """    lastValues_ = new double[rowDataSizeDoubles_];
    size_t i = 0;
    while (i < columns_.size()) {
        const double missing = columns_[i]->missingValue();
        lastValues_[columnOffsets_[i]] = missing;
        ++i;
    }
}
""")], set()),
    ("i01 ok lines while", [(N, LOOP, """    while (true) {
        if (!std::getline(*in_, line)) {
            noMore_ = true;
            return false;
        }
        line = S::trim(line);
        if (line.empty())
            continue;
        break;
    }
""")], set()),
    ("i01 ok lines for", [(N, LOOP, """    for (;;) {
        std::getline(*in_, line);
        if (in_->fail()) {
            noMore_ = true;
            return false;
        }
        line = S::trim(line);
        if (line.size() != 0)
            break;
    }
""")], set()),
    ("i01 ok lines while get", [(N, LOOP, """    bool found = false;
    while (!found && std::getline(*in_, line)) {
        line  = S::trim(line);
        found = !line.empty();
    }
    if (!found) {
        noMore_ = true;
        return false;
    }
""")], set()),
    ("i01 ok lines return", [(N, "    return nCols;\n}", "    return true;\n}")], set()),
    ("i01 ok values null else", [(N, "        if (S::upper(v) == \"NULL\") {\n            lastValues_[columnOffsets_[i]] = columns_[i]->missingValue();\n        }\n        else {", "        const bool missing = S::upper(v) == \"NULL\";\n        if (missing) {\n            lastValues_[columnOffsets_[i]] = columns()[i]->missingValue();\n        }\n        else {")], set()),
    ("i01 ok values target", [(N, DBL, "{\n                        double& target = lastValues_[columnOffsets_[i]];\n                        target = Translator<std::string, double>()(v);\n                    }"), (N, INT, "{\n                        const long number = Translator<std::string, long>()(v);\n                        lastValues_[columnOffsets_[i]] = number;\n                    }")], set()),
    ("i01 ok values data", [(N, REAL, "data(i) = Translator<std::string, float>()(v);"), (N, INT, "data(i) = Translator<std::string, long long>()(v);")], set()),
    ("i01 ok values throw count", [(N, "    ASSERT(nCols == columns().size());\n", "    if (nCols != columns().size())\n        throw UserError(\"wrong number of values\");\n")], set()),
    ("i01 ok values loop columns", [(N, "for (size_t i = 0; i < nCols; ++i) {", "for (size_t i = 0; i < columns().size(); ++i) {")], set()),
    ("i01 ok values if chain", [(N, """                case api::REAL:
                    lastValues_[columnOffsets_[i]] = static_cast<double>(Translator<std::string, float>()(v));
                    break;

                case api::DOUBLE:
                    lastValues_[columnOffsets_[i]] = Translator<std::string, double>()(v);
                    break;
""", """                case api::DOUBLE:
                case api::REAL: {
                    double number;
                    if (typ == api::REAL)
                        number = Translator<std::string, float>()(v);
                    else
                        number = Translator<std::string, double>()(v);
                    lastValues_[columnOffsets_[i]] = number;
                    break;
                }
""")], set()),
    ("i01 ok string ceil", [(N, LEN, "size_t lenDoubles    = std::max<size_t>(1, (charlen + 7) / 8);")], set()),
    ("i01 ok string clear first", [(N, COPY, "                    ::memset(buf, 0, lenDoubles * sizeof(double));\n                    ::memcpy(buf, unquoted.data(), unquoted.size());\n")], set()),
    ("i01 ok string helper", [(N, GROW, """                        widen(i);
"""), (N, "bool TextReaderIterator::next() {", """void TextReaderIterator::widen(size_t i) {
    double* oldData = lastValues_;
    lastValues_     = nullptr;
    initRowBuffer();
    ASSERT(oldData);
    ::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));
    delete[] oldData;
}

bool TextReaderIterator::next() {"""), ("src/odc/csv/TextReaderIterator.h", "    void initRowBuffer();\n", "    void initRowBuffer();\n    void widen(size_t i);\n")], set()),
    ("i01 ok string std copy", [(N, "::memcpy(lastValues_, oldData, columnOffsets_[i] * sizeof(double));", "std::copy(oldData, oldData + columnOffsets_[i], lastValues_);")], set()),
    ("i01 ok string width hoisted", [(N, "if (lenDoubles > columns_[i]->dataSizeDoubles()) {", "const size_t width = columns_[i]->dataSizeDoubles();\n                    if (width < lenDoubles) {")], set()),
    ("i01 ok api copied", [(A, "    return output->pass1(reader.begin(), reader.end());\n}\n\nsize_t odbFromCSV(const", "    const size_t n = output->pass1(reader.begin(), reader.end());\n    return n;\n}\n\nsize_t odbFromCSV(const")], set()),
    ("i01 ok tool ifs", [(I, '    delimiter = named == "TAB" ? "\\t" : named == "SPACE" ? " " : delimiter;\n', '    if (named == "TAB") {\n        delimiter = "\\t";\n    }\n    else if (named == "SPACE") {\n        delimiter = " ";\n    }\n')], set()),
    ("i01 ok tool branch", [(I, 'if (sql == "select *;") {', 'const bool everything = sql == "select *;";\n    if (everything) {')], set()),
    ("i01 ok reader begin", [(T, "    return iteratorSingleton_;\n", "    iterator it(iteratorSingleton_);\n    return it;\n")], set()),
    ("i01 ok reader dtor", [(T, "    if (in_ && deleteDataHandle_) {", "    if (deleteDataHandle_) {")], set()),
    ("i01 ok reader open", [(T, "    if (!*in)\n", "    if (!in->is_open())\n")], set()),
]
