O = "src/odc/api/Odb.cc"
S = "src/odc/core/Span.cc"
SH = "src/odc/core/Span.h"
T = "src/odc/core/Table.cc"
M = "src/odc/core/MetaData.cc"
I = "src/odc/core/TablesReader.cc"
X = {"A03"}
NEXT = """    if (aggregated_) {
        while (true) {
            auto it_next = it_;
            ++it_next;
            if (it_next == tablesReader_.end())
                break;

            long next_nrows = nrows + it_next->rowCount();
            if (rowlimit_ >= 0 && next_nrows > rowlimit_)
                break;
            if (!tables.front().columns().compatible(it_next->columns()))
                break;

            ++it_;
            tables.emplace_back(*it_);
            nrows = next_nrows;
        }
    }
"""
CASES = [
    # iteration
    ("a03 aggregates without compatibility", [(O, "            if (!tables.front().columns().compatible(it_next->columns()))\n                break;\n", "")], X),
    ("a03 compatible with itself", [(O, "tables.front().columns().compatible(it_next->columns())", "tables.front().columns().compatible(it_->columns())")], X),
    ("a03 limit on single table", [(O, "long next_nrows = nrows + it_next->rowCount();", "long next_nrows = it_->rowCount() + it_next->rowCount();")], X),
    ("a03 limit exclusive", [(O, "rowlimit_ >= 0 && next_nrows > rowlimit_", "rowlimit_ >= 0 && next_nrows >= rowlimit_")], X),
    ("a03 limit before adding", [(O, "rowlimit_ >= 0 && next_nrows > rowlimit_", "rowlimit_ >= 0 && nrows > rowlimit_")], X),
    ("a03 rows not accumulated", [(O, "            nrows = next_nrows;\n", "")], X),
    ("a03 limit zero is none", [(O, "rowlimit_ >= 0 && next_nrows > rowlimit_", "rowlimit_ > 0 && next_nrows > rowlimit_")], X),
    ("a03 skips after aggregation", [(O, NEXT, NEXT.replace("""            auto it_next = it_;
            ++it_next;
            if (it_next""", """            auto it_next = it_;
            ++it_next;
            auto it_before = it_;
            ++it_;
            if (it_next""").replace("""            ++it_;
            tables.""", """            tables."""))], X),
    ("a03 repeats the last aggregated", [(O, """            ++it_;
            tables.emplace_back(*it_);
            nrows""", """            tables.emplace_back(*it_next);
            nrows""")], X),
    ("a03 first never reset", [(O, "    first_ = false;\n", "")], X),
    ("a03 end not checked after step", [(O, """        ++it_;
        if (it_ == tablesReader_.end())
            return Frame();
""", """        ++it_;
""")], X),
    ("a03 aggregation always", [(O, "    if (aggregated_) {\n        while (true) {", "    if (aggregated_ || rowlimit_ > 0) {\n        while (true) {")], X),
    ("a03 only two joined", [(O, "            nrows = next_nrows;\n", "            nrows = next_nrows;\n            if (tables.size() == 2) break;\n")], X),
    ("a03 stops at empty frame", [(O, "            if (it_next == tablesReader_.end())\n                break;\n", "            if (it_next == tablesReader_.end())\n                break;\n            if (it_next->rowCount() == 0)\n                break;\n")], X),
    ("a03 iterator past the end", [(I, "        pos_ = -1;\n", "", 1)] if False else [(I, "    if (!owner_.get().ensureTable(pos_)) {", "    if (!owner_.get().ensureTable(pos_ - 1)) {")], X) if False else ("a03 aggregates on limit reached", [(O, "            if (rowlimit_ >= 0 && next_nrows > rowlimit_)\n                break;\n", "            if (rowlimit_ >= 0 && nrows == rowlimit_)\n                break;\n")], X),
    # queries
    ("a03 row count of first", [(O, """    return std::accumulate(tables_.begin(), tables_.end(), size_t(0),
                           [](size_t n, const core::Table& t) { return n + t.rowCount(); });""", "    return tables_.front().rowCount();")], X),
    ("a03 row count skips one", [(O, "std::accumulate(tables_.begin(), tables_.end(), size_t(0),", "std::accumulate(tables_.begin() + 1, tables_.end(), size_t(0),")], X),
    ("a03 encoded data first only", [(O, """        buffers.append(t.readEncodedData(includeHeader));
""", """        buffers.append(t.readEncodedData(includeHeader));
        break;
""")], X),
    ("a03 encoded data without header", [(O, """    const bool includeHeader = true;

    for (auto& t""", """    const bool includeHeader = false;

    for (auto& t""")], X),
    ("a03 properties of one table", [(O, """        for (auto& t : tables_) {
            properties_.insert(t.properties().begin(), t.properties().end());
        }
""", """        const auto& p(tables_.front().properties());
        properties_.insert(p.begin(), p.end());
""")], X),
    ("a03 properties marked early", [(O, """    if (!propertiesRetrieved_) {

        for""", """    if (!propertiesRetrieved_) {
        propertiesRetrieved_ = true;

        for""")], X),
    ("a03 span constants always", [(O, "        s->extend(it->span(columns, onlyConstantValues));", "        s->extend(it->span(columns, false));")], X),
    ("a03 span skips second", [(O, "    for (auto it = tables_.begin() + 1; it != tables_.end(); ++it) {\n        s->extend", "    for (auto it = tables_.begin() + 2; it < tables_.end(); ++it) {\n        s->extend")], X),
    ("a03 length of first", [(O, "tables_.back().nextPosition() - tables_.front().startPosition()", "tables_.front().nextPosition() - tables_.front().startPosition()")], X),
    ("a03 offset of last", [(O, "    return tables_.front().startPosition();\n", "    return tables_.back().startPosition();\n")], X),
    ("a03 bit offset is index", [(O, "                offset += bf.second[i];\n", "                offset = i + 1;\n")], X),
    ("a03 bit offset after", [(O, """                bitfield.emplace_back(ColumnInfo::Bit{
                    bf.first[i],   // name
                    bf.second[i],  // size
                    offset         // offset
                });
                offset += bf.second[i];
""", """                offset += bf.second[i];
                bitfield.emplace_back(ColumnInfo::Bit{
                    bf.first[i],   // name
                    bf.second[i],  // size
                    offset         // offset
                });
""")], X),
    ("a03 decoded size of one double", [(O, "col->dataSizeDoubles() * sizeof(double), std::move(bitfield)", "sizeof(double), std::move(bitfield)")], X),
    # span
    ("a03 extend without strings", [(S, """    for (const auto& kv : other.stringValues_)
        addValues(kv.first, kv.second);
""", "")], X),
    ("a03 extend without length", [(S, """    if (start_ != other.start_) {
        length_ += other.length_;
    }
""", "")], X),
    ("a03 extend length always", [(S, """    if (start_ != other.start_) {
        length_ += other.length_;
    }
""", "    length_ += other.length_;\n")], X),
    ("a03 bitfields as reals", [(S, """        case api::INTEGER:
        case api::BITFIELD:
""", """        case api::INTEGER:
"""), (S, "        case api::REAL:\n", "        case api::BITFIELD:\n        case api::REAL:\n")], X),
    ("a03 equality ignores integers", [(S, """realValues_ == rhs.realValues_ &&
            integerValues_ == rhs.integerValues_);""", "realValues_ == rhs.realValues_);")], X),
    ("a03 equality any", [(S, "stringValues_ == rhs.stringValues_ && realValues_", "stringValues_ == rhs.stringValues_ || realValues_")], X),
    ("a03 equality with itself", [(S, "realValues_ == rhs.realValues_ &&", "rhs.realValues_ == rhs.realValues_ &&")], X),
    ("a03 unknown column", [(S, """    if (it == realValues_.end()) {
        throw SeriousBug(std::string("Unknown real column in span: ") + column, Here());
    }
""", "")], X),
    ("a03 visit without reals", [(SH, """        for (const auto& kv : realValues_)
            visitor(kv.first, kv.second);
""", "")], X),
    # table span
    ("a03 constant column left out", [(T, "                s.addValue(columnName, column->type(), column->min());\n", "                if (!column->hasMissing()) s.addValue(columnName, column->type(), column->min());\n")], X),
    ("a03 constant string cut", [(T, "            if (column->type() == api::STRING) {\n                // n.b.", "            if (column->type() == api::STRING && column->dataSizeDoubles() > 4) {\n                // n.b.")], X),
    ("a03 decodes although constants only", [(T, "if (!nonConstantColumns.empty() && onlyConstants) {", "if (nonConstantColumns.size() == columns.size() && onlyConstants) {")], X),
    ("a03 decoded span dropped", [(T, "        s.extend(decodeSpan(nonConstantColumns));", "        decodeSpan(nonConstantColumns);")], X),
    ("a03 decodes only several", [(T, """    if (!nonConstantColumns.empty()) {
        s.extend""", """    if (nonConstantColumns.size() > 1) {
        s.extend""")], X),
    # compatible
    ("a03 compatible ignores count", [(M, """    if (size() != other.size())
        return false;

    bool equal""", """    if (size() > other.size())
        return false;

    bool equal""")], X),
    ("a03 compatible by name only", [(M, """        if (*it->second != *col)
            return false;
""", "")], X),
    ("a03 compatible last column", [(M, """        if (*(*this)[i] != *other[i]) {
            equal = false;
            break;
        }
""", """        equal = !(*(*this)[i] != *other[i]);
""")], X),
    ("a03 compatible from second", [(M, """    bool equal = true;
    for (size_t i = 0; i < size(); ++i) {
        if (*(*this)[i] != *other[i]) {""", """    bool equal = true;
    for (size_t i = 1; i < size(); ++i) {
        if (*(*this)[i] != *other[i]) {""")], X),
    ("a03 compatible lookup of other", [(M, "    for (Column* col : *this) {\n        columnLookup.emplace", "    for (Column* col : other) {\n        columnLookup.emplace")], X),
    # serial handle
    ("a03 stops at last but one", [(O, "if (table_ >= tables_.size() - 1)", "if (table_ + 2 >= tables_.size())")], X),
    ("a03 ends after first", [(O, """            if (table_ >= tables_.size() - 1)
                return 0;
            table_++;""", """            if (table_ >= 1)
                return 0;
            table_++;""")], X),
    ("a03 position not reset", [(O, """            table_++;
            pos_               = 0;
""", """            table_++;
""")], X),
    ("a03 table loaded before step", [(O, """            table_++;
            pos_               = 0;
            bool includeHeader = true;
            buffer_            = tables_[table_].readEncodedData(includeHeader);
""", """            pos_               = 0;
            bool includeHeader = true;
            buffer_            = tables_[table_].readEncodedData(includeHeader);
            table_++;
""")], X),
    ("a03 position moves by request", [(O, "        pos_ += readlength;", "        pos_ += length;")], X),
    ("a03 filter without headers", [(O, """            bool includeHeader = true;
            buffer_            = tables_[table_]""", """            bool includeHeader = false;
            buffer_            = tables_[table_]""")], X),
    ("a03 reopened in the middle", [(O, """        table_ = 0;
        pos_   = 0;

        bool""", """        pos_   = 0;

        bool""")], X),
    ("a03 reads from the start of the buffer", [(O, "::memcpy(out, &buffer_[pos_], readlength);", "::memcpy(out, &buffer_[0], readlength);")], X),
    # encode
    ("a03 slices overlap", [(O, "            start += nelem;\n", "            start += nelem - (nelem > 1 ? 1 : 0);\n")], X),
    ("a03 slices from second row", [(O, "        size_t start = 0;\n        while (start < nrows) {", "        size_t start = 1;\n        while (start < nrows) {")], X),
    ("a03 last row left", [(O, "        while (start < nrows) {", "        while (start + 1 < nrows) {")], X),
    ("a03 slices kept", [(O, "            sliced.clear();\n", "")], X),
    ("a03 no progress", [(O, "    ASSERT(maxRowsPerFrame > 0);\n", "")], X),
    ("a03 column left out", [(O, "            for (const ConstStridedData& sd : data) {\n                sliced.emplace_back(sd.slice(start, nelem));\n            }", "            for (size_t i = 1; i < data.size(); ++i) {\n                sliced.emplace_back(data[i].slice(start, nelem));\n            }")], X),
    ("a03 too many rows", [(O, "    if (nrows <= maxRowsPerFrame) {", "    if (nrows <= maxRowsPerFrame + 1) {")], X),
    ("a03 properties on the first frame only", [(O, "            core::encodeFrame(out, columns, sliced, properties);", "            core::encodeFrame(out, columns, sliced, start == 0 ? properties : std::map<std::string, std::string>());")], set()) if False else
    ("a03 whole data each time", [(O, "            core::encodeFrame(out, columns, sliced, properties);", "            core::encodeFrame(out, columns, data, properties);")], X),
    # forwarding
    ("a03 forward constant", [(O, "    return impl_->span(columns, onlyConstantValues);", "    return impl_->span(columns, false);")], X),
    ("a03 forward unchecked", [(O, "    ASSERT(impl_);\n    return impl_->offset();", "    return impl_->offset();")], X),
    ("a03 bool inverted", [(O, "    return !!impl_;", "    return !impl_;")], {"A03"}),
    ("a03 empty copy", [(O, "impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}", "impl_(new FrameImpl(*rhs.impl_)) {}")], X),
    ("a03 assignment keeps", [(O, "    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);", "    if (rhs.impl_ && !impl_) impl_.reset(new FrameImpl(*rhs.impl_));")], X),
    ("a03 filter from second row", [(O, "        odc::Select::iterator end = odb.end();\n\n        odc::Writer<> writer(out);", "        odc::Select::iterator end = odb.end();\n        it = odb.begin();\n        if (sql.size() > 1000) return 0;\n        odc::Writer<> writer(out);")], X),
    ("a03 filter count lost", [(O, "        return outit->pass1(it, end);\n", "        outit->pass1(it, end);\n")], X),
    # refactorings
    ("a03 ok next as for loop", [(O, NEXT, """    while (aggregated_) {
        core::TablesReader::iterator following(it_);
        if (++following == tablesReader_.end())
            break;

        const long total = it_next_rows(nrows, *following);
        if (total > rowlimit_ && rowlimit_ >= 0)
            break;
        if (!(tables.back().columns().compatible(following->columns())))
            break;

        it_ = following;
        tables.push_back(*following);
        nrows = total;
    }
"""), (O, "Frame ReaderImpl::next() {\n", "static long it_next_rows(long n, const core::Table& t) {\n    return n + t.rowCount();\n}\n\nFrame ReaderImpl::next() {\n")], set()),
    ("a03 ok single limit check", [(O, "            if (rowlimit_ >= 0 && next_nrows > rowlimit_)\n                break;\n            if (!tables.front().columns().compatible(it_next->columns()))\n                break;\n",
                                     "            const bool fits = rowlimit_ < 0 || next_nrows <= rowlimit_;\n            if (!fits || !it_next->columns().compatible(tables.front().columns()))\n                break;\n")], set()),
    ("a03 ok flag for the end", [(O, """    if (!first_) {
        ++it_;
        if (it_ == tablesReader_.end())
            return Frame();
    }

    first_ = false;
""", """    if (first_) {
        first_ = false;
    }
    else {
        ++it_;
    }
    if (it_ == tablesReader_.end())
        return Frame();
""")], set()),
    ("a03 ok row count loop", [(O, """    return std::accumulate(tables_.begin(), tables_.end(), size_t(0),
                           [](size_t n, const core::Table& t) { return n + t.rowCount(); });""", """    size_t n = 0;
    for (const core::Table& t : tables_) {
        n += t.rowCount();
    }
    return n;""")], set()),
    ("a03 ok row count index loop", [(O, """    return std::accumulate(tables_.begin(), tables_.end(), size_t(0),
                           [](size_t n, const core::Table& t) { return n + t.rowCount(); });""", """    size_t n = 0;
    for (size_t i = 0; i < tables_.size(); ++i) {
        n += tables_[i].rowCount();
    }
    return n;""")], set()),
    ("a03 ok properties loop", [(O, """            properties_.insert(t.properties().begin(), t.properties().end());
""", """            for (const auto& kv : t.properties()) {
                properties_.insert(kv);
            }
""")], set()),
    ("a03 ok span index loop", [(O, """    for (auto it = tables_.begin() + 1; it != tables_.end(); ++it) {
        s->extend(it->span(columns, onlyConstantValues));
    }
""", """    for (size_t i = 1; i < tables_.size(); ++i) {
        const core::Span next = tables_[i].span(columns, onlyConstantValues);
        s->extend(next);
    }
""")], set()),
    ("a03 ok span extend helper", [(S, """    for (const auto& kv : other.integerValues_)
        addValues(kv.first, kv.second);
    for (const auto& kv : other.realValues_)
        addValues(kv.first, kv.second);
""", """    for (auto it = other.realValues_.begin(); it != other.realValues_.end(); ++it)
        addValues(it->first, it->second);
    for (const auto& kv : other.integerValues_)
        addValues(kv.first, kv.second);
"""), (S, "    if (start_ != other.start_) {\n        length_ += other.length_;\n    }\n", "    const bool sameTable = (start_ == other.start_);\n    if (!sameTable)\n        extend(other.length_);\n")], set()),
    ("a03 ok span equality steps", [(S, """    return (stringValues_ == rhs.stringValues_ && realValues_ == rhs.realValues_ &&
            integerValues_ == rhs.integerValues_);""", """    if (integerValues_ != rhs.integerValues_)
        return false;
    if (!(realValues_ == rhs.realValues_))
        return false;
    return stringValues_ == rhs.stringValues_;""")], set()),
    ("a03 ok value switch as ifs", [(S, """    switch (t) {

        case api::INTEGER:
        case api::BITFIELD:
            ASSERT(realValues_.find(column) == realValues_.end());
            ASSERT(stringValues_.find(column) == stringValues_.end());
            integerValues_[column].insert(static_cast<int64_t>(val));
            break;
""", """    if (t == api::INTEGER || t == api::BITFIELD) {
        ASSERT(realValues_.count(column) == 0);
        ASSERT(stringValues_.find(column) == stringValues_.end());
        std::set<long>& values = integerValues_[column];
        values.insert(static_cast<int64_t>(val));
        return;
    }

    switch (t) {
""")], set()),
    ("a03 ok table span order", [(T, """        if (column->isConstant()) {
            if""", """        const bool constant = column->isConstant();
        if (!constant) {
            nonConstantColumns.push_back(columnName);
        }
        else {
            if"""), (T, """        else {
            nonConstantColumns.push_back(columnName);
        }
    }

    // We don't decode""", """    }

    // We don't decode""")], set()),
    ("a03 ok table span nested", [(T, """    if (!nonConstantColumns.empty() && onlyConstants) {
        std::stringstream ss;
        ss << "Non-constant columns required in span: " << nonConstantColumns;
        throw UserError(ss.str(), Here());
    }

    if (!nonConstantColumns.empty()) {
        s.extend(decodeSpan(nonConstantColumns));
    }
""", """    if (nonConstantColumns.size() > 0) {
        if (onlyConstants) {
            std::stringstream ss;
            ss << "Non-constant columns required in span: " << nonConstantColumns;
            throw UserError(ss.str(), Here());
        }
        const Span decoded = decodeSpan(nonConstantColumns);
        s.extend(decoded);
    }
""")], set()),
    ("a03 ok compatible helper", [(M, """    bool equal = true;
    for (size_t i = 0; i < size(); ++i) {
        if (*(*this)[i] != *other[i]) {
            equal = false;
            break;
        }
    }

    if (equal)
        return true;
""", """    size_t i = 0;
    while (i < size() && *(*this)[i] == *other[i]) {
        ++i;
    }

    if (i == size())
        return true;
""")], set()),
    ("a03 ok compatible loop over this", [(M, """    std::map<std::string, Column*> columnLookup;
    for (Column* col : *this) {
        columnLookup.emplace(col->name(), col);
    }

    for (Column* col : other) {
        auto it = columnLookup.find(col->name());
        if (it == columnLookup.end())
            return false;
        if (*it->second != *col)
            return false;
    }
""", """    std::map<std::string, Column*> columnLookup;
    for (Column* col : other) {
        columnLookup[col->name()] = col;
    }

    for (size_t i = 0; i < size(); ++i) {
        Column* mine = (*this)[i];
        const auto found = columnLookup.find(mine->name());
        if (found == columnLookup.end() || !(*found->second == *mine)) {
            return false;
        }
    }
""")], set()),
    ("a03 ok serial load helper", [(O, """        bool includeHeader = true;
        buffer_            = tables_[0].readEncodedData(includeHeader);
        return buffer_.size();
""", """        load();
        return buffer_.size();
"""), (O, """            table_++;
            pos_               = 0;
            bool includeHeader = true;
            buffer_            = tables_[table_].readEncodedData(includeHeader);
""", """            ++table_;
            load();
            pos_ = 0;
"""), (O, """    std::vector<core::Table>& tables_;

    Buffer buffer_;
""", """    void load() {
        constexpr bool includeHeader = true;
        buffer_ = tables_[table_].readEncodedData(includeHeader);
    }

    std::vector<core::Table>& tables_;

    Buffer buffer_;
""")], set()),
    ("a03 ok serial remaining", [(O, """        long readlength = std::min<long>(length, (buffer_.size() - pos_));
""", """        const size_t remaining = buffer_.size() - pos_;
        const long readlength = length < long(remaining) ? length : long(remaining);
"""), (O, "            if (table_ >= tables_.size() - 1)\n", "            if (table_ + 1 >= tables_.size())\n")], set()),
    ("a03 ok encode for loop", [(O, """        std::vector<ConstStridedData> sliced;
        sliced.reserve(ncols);
        size_t start = 0;
        while (start < nrows) {
            size_t nelem = std::min(nrows - start, maxRowsPerFrame);
            for (const ConstStridedData& sd : data) {
                sliced.emplace_back(sd.slice(start, nelem));
            }
            core::encodeFrame(out, columns, sliced, properties);
            start += nelem;
            sliced.clear();
        }
""", """        for (size_t start = 0; start < nrows; start += maxRowsPerFrame) {
            const size_t nelem = std::min(maxRowsPerFrame, nrows - start);
            std::vector<ConstStridedData> sliced;
            sliced.reserve(ncols);
            for (size_t c = 0; c < data.size(); ++c) {
                sliced.push_back(data[c].slice(start, nelem));
            }
            core::encodeFrame(out, columns, sliced, properties);
        }
""")], set()),
    ("a03 ok filter early return", [(O, """    if (sql.empty()) {
        in.saveInto(out);
    }
    else {
        odc::Select odb(sql, in);
        odc::Select::iterator it  = odb.begin();
        odc::Select::iterator end = odb.end();

        odc::Writer<> writer(out);
        odc::Writer<>::iterator outit = writer.begin();
        return outit->pass1(it, end);
    }
    return 0;
""", """    if (sql.empty()) {
        in.saveInto(out);
        return 0;
    }

    odc::Select odb(sql, in);

    odc::Writer<> writer(out);
    odc::Writer<>::iterator outit = writer.begin();
    const size_t rows = outit->pass1(odb.begin(), odb.end());
    return rows;
""")], set()),
    ("a03 ok frame copy if", [(O, "Frame::Frame(const Frame& rhs) : impl_(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr) {}", "Frame::Frame(const Frame& rhs) {\n    if (rhs.impl_) {\n        impl_.reset(new FrameImpl(*rhs.impl_));\n    }\n}"),
                               (O, "    impl_.reset(rhs.impl_ ? new FrameImpl(*rhs.impl_) : nullptr);", "    if (this != &rhs) {\n        Frame copy(rhs);\n        std::swap(impl_, copy.impl_);\n    }")], set()),
    ("a03 ok column info", [(O, """            uint8_t offset = 0;
            for (size_t i = 0; i < bf.first.size(); i++) {
                bitfield.emplace_back(ColumnInfo::Bit{
                    bf.first[i],   // name
                    bf.second[i],  // size
                    offset         // offset
                });
                offset += bf.second[i];
            }
""", """            const size_t nbits = bf.first.size();
            int offset = 0;
            for (size_t i = 0; i < nbits; ++i) {
                ColumnInfo::Bit bit;
                bit.name = bf.first[i];
                bit.size = bf.second[i];
                bit.offset = offset;
                offset += bit.size;
                bitfield.push_back(bit);
            }
""")], set()),
]
