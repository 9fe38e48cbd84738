H = "src/odc/core/Header.cc"
T = "src/odc/core/Table.cc"
TR = "src/odc/core/TablesReader.cc"
RI = "src/odc/ReaderIterator.cc"
D = "src/odc/core/DataStream.h"
S = "src/odc/core/ThreadSharedDataHandle.cc"
X = {"R02"}
CASES = [
 ("r-magic-partial", [(H, "    if (bytesRead != sizeof(magic))\n        throw ODBIncomplete(dh.title(), Here());\n", "    if (bytesRead < long(sizeof(magic)))\n        return false;\n")], X),
 ("r-magic-lt", [(H, "bytesRead == 0 || bytesRead == EOF", "bytesRead <= 2")], X),
 ("r-magic-foreign", [(H, "    if (magic != \"\\xff\\xffODA\")\n        throw ODBInvalid(dh.title(), \"Incorrect MAGIC\", Here());\n    return true;", "    return magic == \"\\xff\\xffODA\";")], X),
 ("r-digest-late", [(H, "    if (headerDigest != actualHeaderDigest)\n        throw ODBInvalid(dh.title(), \"Header digest incorrect\", Here());\n", "    if (headerDigest != actualHeaderDigest && formatVersionMinor == FORMAT_VERSION_NUMBER_MINOR)\n        throw ODBInvalid(dh.title(), \"Header digest incorrect\", Here());\n")], X),
 ("r-digest-part", [(H, "md5.add(buffer.data(), buffer.size());", "md5.add(buffer.data(), std::min<size_t>(buffer.size(), 4096));")], X),
 ("r-header-short", [(H, "    if (dh.read(buffer, headerSize) != headerSize)\n", "    if (dh.read(buffer, headerSize) <= 0)\n")], X),
 ("r-fixed-short", [(H, "    if (dh.read(basicBuffer, sizeof(basicBuffer)) != sizeof(basicBuffer))\n", "    if (dh.read(basicBuffer, sizeof(basicBuffer)) == 0)\n")], X),
 ("r-version", [(H, "formatVersionMajor <= FORMAT_VERSION_NUMBER_MAJOR", "formatVersionMajor <= FORMAT_VERSION_NUMBER_MINOR")], X),
 ("r-version-minor", [(H, "formatVersionMinor > 3", "formatVersionMinor > 0")], X),
 ("r-start", [(T, "newTable->startPosition_ = startPosition;", "newTable->startPosition_ = dh.position();")], X),
 ("r-next", [(T, "newTable->nextPosition_  = dh.position() + newTable->dataSize_;", "newTable->nextPosition_  = startPosition + newTable->dataSize_;")], X),
 ("r-trunc", [(T, "newTable->nextPosition_ > dh.estimate() && dh.estimate() != 0", "newTable->dataPosition_ > dh.estimate() && dh.estimate() != 0")], X),
 ("r-range", [(T, "Buffer data(nextPosition() - startPosition());", "Buffer data(nextPosition() - dataPosition_);")], X),
 ("r-noseek", [(T, "        dh_.seek(dataPosition_);\n", "        if (dataSize_ > Length(0))\n            dh_.seek(dataPosition_);\n")], X),
 ("r-encshort", [(T, "        Buffer data(dataSize_);\n        dh_.seek(dataPosition_);\n        if (dh_.read(data, data.size()) != long(data.size()))\n", "        Buffer data(dataSize_);\n        dh_.seek(dataPosition_);\n        if (dh_.read(data, data.size()) == 0)\n")], X),
 ("r-append-null", [(TR, "        if (!tbl)\n            return false;\n        tables_.emplace_back(std::move(tbl));", "        bool found = !!tbl;\n        tables_.emplace_back(std::move(tbl));\n        return found;")], X),
 ("r-first", [(TR, "tables_.empty() ? Offset(0)", "tables_.size() < 2 ? Offset(0)")], X),
 ("r-end", [(TR, "    if (!owner_.get().ensureTable(pos_)) {\n        pos_ = -1;\n    }", "    if (!owner_.get().ensureTable(pos_) || owner_.get().getTable(pos_).rowCount() == 0) {\n        pos_ = -1;\n    }")], X),
 ("r-rows", [(RI, "rowsRemainingInTable_ = header.rowsNumber();", "rowsRemainingInTable_ = dataSize / 2;")], X),
 ("r-rows-zero", [(RI, "            ASSERT(header.rowsNumber() == 0);\n", "")], X),
 ("r-data-short", [(RI, "    if (bytesRead != dataSize) {", "    if (bytesRead != dataSize && rowDataSizeDoubles_ > bytesRead) {")], X),
 ("r-data-zero", [(RI, "                throw SeriousBug(\"Expected row data to follow table header\");", "                noMore_ = true;\n                return false;")], X),
 ("r-stale", [(RI, "rowDataBuffer_.data(), dataSize);", "rowDataBuffer_);")], X),
 ("r-next-left", [(RI, "    if (rowsRemainingInTable_ == 0) {\n        if (", "    if (rowsRemainingInTable_ == 0 || columns().size() == 0) {\n        if (")], set()),
 ("r-countdown", [(RI, "    --rowsRemainingInTable_;\n    return nCols;", "    if (startCol < int(nCols))\n        --rowsRemainingInTable_;\n    return nCols;")], X),
 ("r-readbytes", [(D, "Attempting to read \" << bytes", "Attempting to read \" << bytes << \" \"")], set()),
 ("r-readbytes-bound", [(D, "    char* newpos = current_ + bytes;\n\n    if (newpos > end_) {\n        std::stringstream ss;\n        ss << \"Attempting to read", "    char* newpos = current_ + bytes;\n\n    if (newpos > end_ + sizeof(double)) {\n        std::stringstream ss;\n        ss << \"Attempting to read")], X),
 ("r-advance", [(D, "        current_ += nbytes;\n        ASSERT(current_ <= end_);", "        current_ += nbytes;")], X),
 ("r-shared", [(S, "    if (position_ != internal_->dh_->position()) {", "    if (position_ < internal_->dh_->position()) {")], X),
 ("r-shared-adv", [(S, "    position_ += delta;", "    position_ += length;")], X),
 # refactorings
 ("r-refactor-exact", [(H, "Header::~Header() {}\n", "Header::~Header() {}\n\nnamespace {\nvoid readExact(DataHandle& dh, void* p, size_t n) {\n    const long got = dh.read(p, n);\n    if (got < 0 || size_t(got) != n)\n        throw ODBIncomplete(dh.title(), Here());\n}\n}\n"),
   (H, "    if (dh.read(basicBuffer, sizeof(basicBuffer)) != sizeof(basicBuffer))\n        throw ODBIncomplete(dh.title(), Here());\n", "    readExact(dh, basicBuffer, sizeof(basicBuffer));\n"),
   (H, "    if (dh.read(buffer, headerSize) != headerSize)\n        throw ODBIncomplete(dh.title(), Here());\n", "    readExact(dh, buffer.data(), headerSize);\n")], set()),
 ("r-refactor-digest", [(H, "    MD5 md5;\n    md5.add(buffer.data(), buffer.size());\n    std::string actualHeaderDigest = md5.digest();\n    if (headerDigest != actualHeaderDigest)", "    MD5 md5;\n    md5.add(buffer.data(), headerSize);\n    const bool digestOk = md5.digest() == headerDigest;\n    if (!digestOk)")], set()),
 ("r-refactor-magic", [(H, "    if (bytesRead == 0 || bytesRead == EOF)\n        return false;\n    if (bytesRead != sizeof(magic))\n        throw ODBIncomplete(dh.title(), Here());\n    if (magic != \"\\xff\\xffODA\")\n        throw ODBInvalid(dh.title(), \"Incorrect MAGIC\", Here());\n    return true;",
   "    bool found = false;\n    if (bytesRead > 0) {\n        if (bytesRead < long(sizeof(magic)))\n            throw ODBIncomplete(dh.title(), Here());\n        const eckit::FixedString<5> expected(\"\\xff\\xffODA\");\n        if (!(magic == expected))\n            throw ODBInvalid(dh.title(), \"Incorrect MAGIC\", Here());\n        found = true;\n    }\n    return found;")], set()),
 ("r-refactor-table", [(T, "    newTable->startPosition_ = startPosition;\n    newTable->dataPosition_  = dh.position();\n    newTable->dataSize_      = hdr.dataSize();\n    newTable->nextPosition_  = dh.position() + newTable->dataSize_;\n", "    const Offset dataStart = dh.position();\n    const Length length    = hdr.dataSize();\n    newTable->startPosition_ = startPosition;\n    newTable->dataPosition_  = dataStart;\n    newTable->nextPosition_  = dataStart + length;\n    newTable->dataSize_      = length;\n"),
   (T, "    if (newTable->nextPosition_ > dh.estimate() && dh.estimate() != 0) {", "    const Length available = dh.estimate();\n    if (available != Length(0) && newTable->nextPosition_ > available) {")], set()),
 ("r-refactor-encoded", [(T, "    if (includeHeader) {\n        Buffer data(nextPosition() - startPosition());\n        dh_.seek(startPosition());\n        if (dh_.read(data, data.size()) != long(data.size()))\n            throw ODBIncomplete(dh_.title(), Here());\n        return data;\n    }\n    else {\n        Buffer data(dataSize_);\n        dh_.seek(dataPosition_);\n        if (dh_.read(data, data.size()) != long(data.size()))\n            throw ODBIncomplete(dh_.title(), Here());\n        return data;\n    }",
   "    const Offset from = includeHeader ? startPosition_ : dataPosition_;\n    Buffer data(nextPosition_ - from);\n    dh_.seek(from);\n    const long n = dh_.read(data, data.size());\n    if (n != long(data.size()))\n        throw ODBIncomplete(dh_.title(), Here());\n    return data;")], set()),
 ("r-refactor-ensure", [(TR, "    if (idx == long(tables_.size())) {", "    if (idx < long(tables_.size()))\n        return true;\n\n    {"),
   (TR, "        std::unique_ptr<Table> tbl(Table::readTable(dh_));\n        if (!tbl)\n            return false;\n        tables_.emplace_back(std::move(tbl));", "        if (auto tbl = Table::readTable(dh_)) {\n            tables_.push_back(std::move(tbl));\n        }\n        else {\n            return false;\n        }")], set()),
 ("r-refactor-rows", [(RI, "            if (!readBuffer(dataSize)) {\n                // See ODB-376\n                throw SeriousBug(\"Expected row data to follow table header\");\n            }\n", "            const bool present = readBuffer(dataSize) != 0;\n            if (!present) {\n                // See ODB-376\n                throw SeriousBug(\"Expected row data to follow table header\");\n            }\n"),
   (RI, "            newDataset_           = true;\n            rowsRemainingInTable_ = header.rowsNumber();\n", "            rowsRemainingInTable_ = header.rowsNumber();\n            newDataset_           = true;\n")], set()),
 ("r-refactor-next", [(RI, "    if (rowsRemainingInTable_ == 0) {\n        if (!loadHeaderAndBufferData())\n            return false;\n        ASSERT(rowsRemainingInTable_ != 0);\n    }", "    while (rowsRemainingInTable_ == 0) {\n        if (!loadHeaderAndBufferData())\n            return false;\n    }"),
   (RI, "    --rowsRemainingInTable_;\n    return nCols;", "    rowsRemainingInTable_ -= 1;\n    return nCols != 0;")], set()),
 ("r-refactor-readbytes", [(D, "    char* newpos = current_ + bytes;\n\n    if (newpos > end_) {\n        std::stringstream ss;\n        ss << \"Attempting to read", "    if (bytes > size_t(end_ - current_)) {\n        std::stringstream ss;\n        ss << \"Attempting to read"),
   (D, "    ::memcpy(addr, current_, bytes);\n    current_ = newpos;", "    ::memcpy(addr, current_, bytes);\n    current_ += bytes;")], set()),
]
