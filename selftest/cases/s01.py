T = "src/odc/sql/TODATable.cc"
C = "src/odc/sql/TODATableIterator.cc"
O = "src/odc/sql/SQLSelectOutput.cc"
OH = "src/odc/sql/SQLSelectOutput.h"
W = "src/odc/sql/ODAOutput.cc"
Y = "src/odc/sql/Types.cc"
B = "src/odc/sql/SQLOutputConfig.cc"
S = "src/odc/Select.cc"
I = "src/odc/SelectIterator.cc"
IH = "src/odc/SelectIterator.h"
P = "src/odc/IteratorProxy.h"
X = {"S01"}
ROWS = """    for (currentColumn_ = 0; currentColumn_ < columnSizesDoubles_.size(); currentColumn_++) {
        results[currentColumn_]->output(*this);
    }
"""
NEWDS = """    if (isNewDataset_) {
        if (newDatasetOutputted_) {
            isNewDataset_        = false;
            newDatasetOutputted_ = false;
        }
        else {
            newDatasetOutputted_ = true;
        }
    }
"""
STR = """    if (missing) {
        len = 0;
    }
    else {
        ::memcpy(reinterpret_cast<char*>(pos_), s, len);
    }

    if (len < charSize) {
        ::memset(&reinterpret_cast<char*>(pos_)[len], 0, charSize - len);
    }
"""
NEXT = """    bool ret;
    if (noMore_)
        return false;
    if (!(ret = selectStmt_->processOneRow())) {
        selectStmt_->postExecute();
        noMore_ = true;
    }
    return ret;
"""
CNEXT = """    if (firstRow_) {
        firstRow_ = false;
    }
    else {
        ++it_;
    }

    if (it_ == end_)
        return false;
"""
UPD = """    columnOffsets_.clear();
    columnDoublesSizes_.clear();
    columnsHaveMissing_.clear();
    columnMissingValues_.clear();
"""
CASES = [
    # tables
    ("s01 index off by one", [(T, "addColumn(name, i, type::SQLType::lookup(sqlType, typeSizeDoubles)", "addColumn(name, i + 1, type::SQLType::lookup(sqlType, typeSizeDoubles)")], X),
    ("s01 last column not offered", [(T, "for (size_t i = 0; i < count; i++) {\n        Column& column", "for (size_t i = 0; i + 1 < count; i++) {\n        Column& column")], X),
    ("s01 double offered as real", [(T, "            case DOUBLE:\n                sqlType = \"double\";\n", "            case DOUBLE:\n                sqlType = \"real\";\n")], X),
    ("s01 string width of first column", [(T, "size_t typeSizeDoubles = it->dataSizeDoubles(i);", "size_t typeSizeDoubles = it->dataSizeDoubles(0);")], X),
    ("s01 bitfield halves swapped", [(T, "make(\"Bitfield\", bitfieldDef.first, bitfieldDef.second,", "make(\"Bitfield\", bitfieldDef.first, BitfieldDef().second,")], set()),
    ("s01 missing value of first column", [(T, "double missing(column.missingValue());", "double missing(it->columns()[0]->missingValue());")], X),
    ("s01 unknown type offered", [(T, "                throw SeriousBug(\"Unknown type: \" + Translator<int, std::string>()(column.type()), Here());\n", "                sqlType = \"real\";\n                break;\n")], X),
    ("s01 ambiguous name found", [(T, "    if (n == 1)\n        return true;\n    if (n > 1) {\n", "    if (n >= 1)\n        return true;\n    if (n > 1) {\n")], X),
    ("s01 first match wins", [(T, "            column = col.second;\n", "            column = col.second;\n            break;\n")], X),
    ("s01 prefix without at", [(T, "    const std::string colName(name + \"@\");", "    const std::string colName(name);")], X),
    ("s01 magic four bytes", [(T, "if (fh.read(buf, 5) != 5 || ::memcmp(buf, oda, 5) != 0)", "if (fh.read(buf, 5) != 5 || ::memcmp(buf, oda, 4) != 0)")], X),
    ("s01 short file accepted", [(T, "if (fh.read(buf, 5) != 5 || ::memcmp(buf, oda, 5) != 0)", "if (fh.read(buf, 5) == 5 && ::memcmp(buf, oda, 5) != 0)")], X),
    # cursor
    ("s01 first row skipped", [(C, "    if (firstRow_) {\n        firstRow_ = false;\n    }\n    else {\n        ++it_;\n    }\n", "    firstRow_ = false;\n    ++it_;\n")], X),
    ("s01 rewind keeps flag", [(C, "        firstRow_ = true;\n\n", "\n")], X),
    ("s01 rewind to seed", [(C, "it_       = const_cast<READER&>(parent_.oda()).begin();", "it_       = parent_.oda().end();")], X),
    ("s01 callback before layout", [(C, "        updateMetaData();\n        metadataUpdateCallback_(*this);\n", "        metadataUpdateCallback_(*this);\n        updateMetaData();\n")], X),
    ("s01 boundary before advance", [(C, CNEXT, "    const bool fresh = it_->isNewDataset();\n" + CNEXT), (C, "    if (it_->isNewDataset()) {", "    if (fresh) {")], X),
    ("s01 rewind stale", [(C, "        if (it_ != end_) {\n            updateMetaData();\n            metadataUpdateCallback_(*this);\n        }\n", "")], X),
    ("s01 rewind layout only", [(C, "        if (it_ != end_) {\n            updateMetaData();\n            metadataUpdateCallback_(*this);\n        }\n", "        if (it_ != end_)\n            updateMetaData();\n")], X),
    ("s01 rewind order", [(C, "            updateMetaData();\n            metadataUpdateCallback_(*this);\n        }\n    }\n}\n\ntemplate <typename READER>\nTODATableIterator<READER>::~", "            metadataUpdateCallback_(*this);\n            updateMetaData();\n        }\n    }\n}\n\ntemplate <typename READER>\nTODATableIterator<READER>::~")], X),
    ("s01 layout not cleared", [(C, "    columnMissingValues_.clear();\n", "")], X),
    ("s01 offsets by position", [(C, "        const size_t idx = columnIndex(col.name(), md);\n", "        const size_t idx = columnOffsets_.size();\n")], X),
    ("s01 size as offset", [(C, "columnOffsets_.push_back(it_->dataOffset(idx));", "columnOffsets_.push_back(it_->dataSizeDoubles(idx));")], X),
    ("s01 has missing constant", [(C, "columnsHaveMissing_.push_back(it_->hasMissing(idx));", "columnsHaveMissing_.push_back(true);")], X),
    ("s01 seed ignored", [(C, "    it_(seedIterator),\n", "    it_(const_cast<READER&>(parent.oda()).begin()),\n")], X),
    # in-memory output
    ("s01 offset not advanced", [(O, "        offset += columnSizesDoubles_.back();\n", "        offset += 1;\n")], X),
    ("s01 offset after advance", [(O, "        offsets_.push_back(offset);\n        offset += columnSizesDoubles_.back();\n", "        offset += columnSizesDoubles_.back();\n        offsets_.push_back(offset);\n")], X),
    ("s01 sizes not cleared", [(O, "    columnSizesDoubles_.clear();\n", "")], X),
    ("s01 missing from source", [(O, "missingValues_.push_back(metaData_[i]->missingValue());", "missingValues_.push_back(column->missingValue());")], X),
    ("s01 missing before type", [(O, "        metaData_[i]->type<core::SameByteOrder>(sqlToOdbType(*column->type()));\n", ""), (O, "missingValues_.push_back(metaData_[i]->missingValue());\n", "missingValues_.push_back(metaData_[i]->missingValue());\n        metaData_[i]->type<core::SameByteOrder>(sqlToOdbType(*column->type()));\n")], X),
    ("s01 bitfields not set", [(O, "        metaData_[i]->bitfieldDef(column->bitfieldDef());\n", "")], X),
    ("s01 new dataset not raised", [(O, "    isNewDataset_        = true;\n    newDatasetOutputted_ = false;\n\n    for", "    for")], X),
    ("s01 new dataset raised late", [(O, NEWDS, NEWDS.replace("            newDatasetOutputted_ = true;", "            newDatasetOutputted_ = true;\n            isNewDataset_        = false;"))], X),
    ("s01 new dataset for ever", [(O, "            isNewDataset_        = false;\n            newDatasetOutputted_ = false;\n", "            newDatasetOutputted_ = false;\n")], X),
    ("s01 row not rewound", [(O, "    pos_ = out_;\n    for (currentColumn_", "    for (currentColumn_")], X),
    ("s01 first column skipped", [(O, "for (currentColumn_ = 0; currentColumn_ < columnSizesDoubles_.size()", "for (currentColumn_ = 1; currentColumn_ < columnSizesDoubles_.size()")], X),
    ("s01 missing written as value", [(O, "*pos_++ = (missing ? missingValues_[currentColumn_] : x);", "*pos_++ = x;")], X),
    ("s01 missing of first column", [(O, "*pos_++ = (missing ? missingValues_[currentColumn_] : x);", "*pos_++ = (missing ? missingValues_[0] : x);")], X),
    ("s01 int never missing", [(O, "void SQLSelectOutput::outputInt(double x, bool missing) {\n    outputNumber(x, missing);", "void SQLSelectOutput::outputInt(double x, bool missing) {\n    outputNumber(x, false);")], X),
    ("s01 string not padded", [(O, "    if (len < charSize) {\n        ::memset(&reinterpret_cast<char*>(pos_)[len], 0, charSize - len);\n    }\n", "    if (len < charSize) {\n        reinterpret_cast<char*>(pos_)[len] = 0;\n    }\n")], X),
    ("s01 string missing copied", [(O, STR, STR.replace("""    if (missing) {
        len = 0;
    }
    else {
        ::memcpy(reinterpret_cast<char*>(pos_), s, len);
    }
""", "    ::memcpy(reinterpret_cast<char*>(pos_), s, len);\n"))], X),
    ("s01 string one double", [(O, "    pos_ += columnSizesDoubles_[currentColumn_];\n", "    pos_ += 1;\n")], X),
    ("s01 string length unchecked", [(O, "    if (len > charSize) {", "    if (len > charSize && missing) {")], X),
    ("s01 string bound one", [(O, "(pos_ + columnSizesDoubles_[currentColumn_]) <= end_", "pos_ < end_")], X),
    ("s01 number bound inclusive", [(O, "ASSERT(pos_ >= out_ && pos_ < end_);", "ASSERT(pos_ >= out_ && pos_ <= end_);")], X),
    ("s01 small buffer accepted", [(O, "    bufferElements_ = count;\n    ASSERT(bufferElements_ >= requiredBufferSize_);\n", "    bufferElements_ = count;\n")], X),
    ("s01 data by index", [(OH, "return out_[offsets_[i]];", "return out_[i];")], X),
    # stored output
    ("s01 writer bitfield as plain", [(W, "            if (typ == BITFIELD) {", "            if (typ == BITFIELD && false) {")], X),
    ("s01 writer width in bytes", [(W, "it_->columns()[i]->dataSizeDoubles(maxlen / sizeof(double));", "it_->columns()[i]->dataSizeDoubles(maxlen);")], X),
    ("s01 writer width of first", [(W, "size_t maxlen   = c.type()->size();", "size_t maxlen   = columns[0]->type()->size();")], X),
    ("s01 writer missing early", [(W, "            missingValues_[i] = it_->missingValue(i);\n", ""), (W, "            columnSizes_[i] = sizeof(double);\n            if (typ", "            columnSizes_[i] = sizeof(double);\n            missingValues_[i] = 0;\n            if (typ")], X),
    ("s01 writer name not compared", [(W, "            ASSERT(c.title() == it_->columns()[i]->name());\n", "")], X),
    ("s01 writer type not compared", [(W, "            ASSERT(typ == it_->columns()[i]->type());\n", "")], X),
    ("s01 writer wider ignored", [(W, "                    resetColumnSizeDoubles[c.title()] = sizeDoubles;\n", "")], X),
    ("s01 writer byte size stale", [(W, "                    columnSizes_[i]                   = maxlen;\n", "")], X),
    ("s01 writer never flushed", [(W, "if (!resetColumnSizeDoubles.empty()) {", "if (resetColumnSizeDoubles.size() > 1) {")], set()),
    ("s01 writer no flush", [(W, "            it_->flushAndResetColumnSizes(resetColumnSizeDoubles);\n", "")], X),
    ("s01 writer row twice", [(W, "    ++it_;\n    ++count_;\n", "    ++it_;\n    ++it_;\n    ++count_;\n")], X),
    ("s01 writer column missing", [(W, "for (col_ = 0; col_ < nCols; ++col_)", "for (col_ = 0; col_ + 1 < nCols; ++col_)")], X),
    ("s01 writer missing value", [(W, "(*it_)[col_] = (missing ? missingValues_[col_] : val);", "(*it_)[col_] = (missing ? missingValues_[0] : val);")], X),
    ("s01 writer clear len", [(W, "::memset(&(*it_)[col_], 0, columnSizes_[col_]);", "::memset(&(*it_)[col_], 0, len);")], X),
    ("s01 writer string unbounded", [(W, "    ASSERT(len <= columnSizes_[col_]);\n", "")], X),
    ("s01 writer missing string", [(W, "    if (!missing)\n        ::strncpy", "    ::strncpy")], X),
    ("s01 writer bitfield drops missing", [(W, "::outputBitfield(double val, bool missing) {\n    outputNumber(val, missing);", "::outputBitfield(double val, bool missing) {\n    outputNumber(val, false);")], X),
    # types
    ("s01 double as real", [(Y, "        case SQLType::doubleType:\n            return DOUBLE;", "        case SQLType::doubleType:\n            return REAL;")], X),
    ("s01 blob as string", [(Y, "            throw SeriousBug(\"SQL blob type not supported in odc\", Here());", "            return STRING;")], X),
    # outputs
    ("s01 default always text", [(B, "format = (path.asString().empty() ? \"ascii\" : \"odb\");", "format = (path.asString().empty() ? \"odb\" : \"ascii\");")], X),
    ("s01 template ignored", [(B, "        if (templateParameters.size()) {", "        if (templateParameters.size() == 0) {")], X),
    ("s01 wide as frame", [(B, "    if (format == \"wide\" || format == \"ascii\") {", "    if (format == \"ascii\") {"), (B, "    else if (format == \"odb\") {", "    else if (format == \"odb\" || format == \"wide\") {")], X),
    # select
    ("s01 begin again", [(S, "        initted_ = true;\n", "")], X),
    ("s01 begin no row", [(S, "        it->next();\n", "")], X),
    ("s01 handle not opened", [(S, "    dh.openForRead();\n", "")], X),
    ("s01 table not added", [(S, "    ownDH_.reset(path.fileHandle());\n    ownDH_->openForRead();\n    eckit::sql::SQLDatabase& db(session_.currentDatabase());\n    db.addImplicitTable(new odc::sql::ODATable(db, *ownDH_));\n",
                              "    ownDH_.reset(path.fileHandle());\n    ownDH_->openForRead();\n    eckit::sql::SQLDatabase& db(session_.currentDatabase());\n    new odc::sql::ODATable(db, *ownDH_);\n")], X),
    ("s01 end not sticky", [(I, "        noMore_ = true;\n", "")], X),
    ("s01 post twice", [(I, "        selectStmt_->postExecute();\n        noMore_ = true;\n", "        selectStmt_->postExecute();\n        selectStmt_->postExecute();\n        noMore_ = true;\n")], X),
    ("s01 two rows", [(I, "    if (!(ret = selectStmt_->processOneRow())) {", "    selectStmt_->processOneRow();\n    if (!(ret = selectStmt_->processOneRow())) {")], X),
    ("s01 non select", [(I, "    if (!selectStmt_)\n        throw UserError(std::string(\"Expected SELECT, got: \") + select_);\n", "")], X),
    # proxies
    ("s01 row missing without flag", [(P, "            return false;\n        return castedCompareDoublesEqual", "            return true;\n        return castedCompareDoublesEqual")], X),
    ("s01 row string eight", [(P, "size_t maxlen = sizeof(double) * dataSizeDoubles(i);", "size_t maxlen = sizeof(double);")], X),
    ("s01 proxy null", [(P, "        if (iter_)\n            ++iter_->refCount_;\n        return *this;", "        ++iter_->refCount_;\n        return *this;")], X),
    ("s01 row columns hasMissing", [(P, "double hasMissing(size_t i) { return ((*it_).iter_)->columns()[i]->hasMissing(); }", "double hasMissing(size_t i) { return ((*it_).iter_)->columns()[0]->hasMissing(); }")], X),
    # refactorings
    ("s01 refactor rows range", [(O, ROWS, """    const size_t ncols = columnSizesDoubles_.size();
    currentColumn_ = 0;
    while (currentColumn_ < ncols) {
        const auto& result = results[currentColumn_];
        result->output(*this);
        ++currentColumn_;
    }
""")], set()),
    ("s01 refactor new dataset", [(O, NEWDS, """    if (isNewDataset_) {
        isNewDataset_        = !newDatasetOutputted_;
        newDatasetOutputted_ = !newDatasetOutputted_;
    }
""")], set()),
    ("s01 refactor string", [(O, STR, """    char* dest = reinterpret_cast<char*>(pos_);
    ::memset(dest, 0, charSize);
    if (!missing) {
        ::memcpy(dest, s, len);
    }
""")], set()),
    ("s01 refactor number", [(O, "    *pos_++ = (missing ? missingValues_[currentColumn_] : x);\n", "    if (missing) {\n        x = missingValues_[currentColumn_];\n    }\n    *pos_ = x;\n    ++pos_;\n")], set()),
    ("s01 refactor next", [(I, NEXT, """    if (noMore_)
        return false;
    if (selectStmt_->processOneRow())
        return true;
    noMore_ = true;
    selectStmt_->postExecute();
    return false;
""")], set()),
    ("s01 refactor cursor", [(C, CNEXT, """    if (!firstRow_)
        ++it_;
    firstRow_ = false;

    const bool finished = (it_ == end_);
    if (finished)
        return false;
""")], set()),
    ("s01 refactor layout", [(C, UPD, ""), (C, "    const core::MetaData& md = it_->columns();\n", """    const core::MetaData& md = it_->columns();
    columnOffsets_ = std::vector<size_t>();
    columnDoublesSizes_ = std::vector<size_t>();
    columnsHaveMissing_.assign(0, 0);
    columnMissingValues_.clear();
"""), (C, "    for (const eckit::sql::SQLColumn& col : columns_) {\n        const size_t idx = columnIndex(col.name(), md);\n", "    for (size_t c = 0; c < columns_.size(); ++c) {\n        const eckit::sql::SQLColumn& col(columns_[c]);\n        const size_t idx = columnIndex(col.name(), md);\n")], set()),
    ("s01 refactor types", [(O, """        columnSizesDoubles_.push_back(colSizeBytes / 8);
        offsets_.push_back(offset);
        offset += columnSizesDoubles_.back();
""", """        const size_t nd = colSizeBytes / sizeof(double);
        offsets_.push_back(offset);
        columnSizesDoubles_.push_back(nd);
        offset = offset + nd;
"""), (O, "metaData_[i]->dataSizeDoubles(columnSizesDoubles_.back());", "metaData_[i]->dataSizeDoubles(colSizeBytes / 8);"), (O, "    requiredBufferSize_ = std::accumulate(columnSizesDoubles_.begin(), columnSizesDoubles_.end(), 0);\n", "    requiredBufferSize_ = offset;\n")], set()),
    ("s01 refactor writer string", [(W, """    ::memset(&(*it_)[col_], 0, columnSizes_[col_]);
    ASSERT(len <= columnSizes_[col_]);
    if (!missing)
        ::strncpy(reinterpret_cast<char*>(&(*it_)[col_]), val, len);
""", """    char* dest = reinterpret_cast<char*>(&(*it_)[col_]);
    const size_t width = columnSizes_[col_];
    ASSERT(len <= width);
    ::memset(dest, 0, width);
    if (missing)
        return;
    ::strncpy(dest, val, len);
""")], set()),
    ("s01 refactor writer init", [(W, "            columnSizes_[i] = sizeof(double);\n            if (typ == BITFIELD) {\n                it_->setBitfieldColumn(i, c.title(), typ, c.bitfieldDef());\n            }\n            else {\n                it_->setColumn(i, c.title(), typ);\n                if (typ == STRING) {",
      "            const std::string title(c.title());\n            columnSizes_[i] = 8;\n            switch (typ) {\n            case BITFIELD:\n                it_->setBitfieldColumn(i, title, typ, c.bitfieldDef());\n                break;\n            default:\n                it_->setColumn(i, title, typ);\n                if (STRING == typ) {")], set()),
    ("s01 refactor lookup", [(T, """    for (const auto& column : columnsByName_) {
        const std::string& s(column.first);
        if (StringTools::startsWith(s, colName)) {
            n++;
        }
    }

    if (n == 1)
        return true;
    if (n > 1) {
        throw UserError(std::string("TODATable:hasColumn(\\"") + name + "\\"): ambiguous name");
    }

    return false;
""", """    for (auto it = columnsByName_.begin(); it != columnsByName_.end(); ++it) {
        if (!StringTools::startsWith(it->first, colName))
            continue;
        ++n;
    }

    if (n > 1) {
        throw UserError(std::string("TODATable:hasColumn(\\"") + name + "\\"): ambiguous name");
    }
    return n != 0;
""")], set()),
    ("s01 refactor populate", [(T, "        addColumn(name, i, type::SQLType::lookup(sqlType, typeSizeDoubles), hasMissing, missing,\n                  column.type() == BITFIELD, bitfieldDef);\n", "        addColumn(name, i, type::SQLType::lookup(sqlType, typeSizeDoubles), hasMissing, missing, false, bitfieldDef);\n")], set()),
    ("s01 refactor output format", [(B, "    if (format == \"wide\" || format == \"ascii\") {\n", "    const bool text = (format == \"ascii\" || format == \"wide\");\n    if (text) {\n")], set()),
    ("s01 refactor types switch", [(Y, """    switch (t.getKind()) {
        case SQLType::realType:
            return REAL;
""", """    if (t.getKind() == SQLType::realType)
        return REAL;
    switch (t.getKind()) {
""")], set()),
    ("s01 refactor begin", [(S, """    if (!initted_) {
        SelectIterator* it = createSelectIterator(selectStatement_);
        ASSERT(it);
        it->next();
        it_      = iterator(it);
        initted_ = true;
    }
    return it_;
""", """    if (initted_)
        return it_;
    SelectIterator* first = createSelectIterator(selectStatement_);
    ASSERT(first);
    first->next();
    initted_ = true;
    it_      = iterator(first);
    return it_;
""")], set()),
]
