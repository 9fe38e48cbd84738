W = "src/odc/WriterBufferingIterator.cc"
E = "src/odc/core/Encoder.cc"
M = "src/odc/tools/MDSetTool.cc"
X = {"W01"}
CASES = [
 ("w-rowcount-off", [(W, "serializeHeader(encodedStream.position(), rowsWritten)", "serializeHeader(encodedStream.position(), rowsWritten - 1)")], X),
 ("w-rowcount-init", [(W, "size_t rowsWritten = 0;", "size_t rowsWritten = 1;")], X),
 ("w-rows-short", [(W, "while (p < nextRowInBuffer_) {", "while (p + rowByteSize_ < nextRowInBuffer_) {")], X),
 ("e-rowcount", [(E, "Header::serializeHeader(encodedStream.position(), nrows, props, md)", "Header::serializeHeader(encodedStream.position(), ncols, props, md)")], X),
 ("e-datasize", [(E, "Header::serializeHeader(encodedStream.position(), nrows, props, md)", "Header::serializeHeader(maxRowSize * nrows, nrows, props, md)")], X),
 ("e-short", [(E, "ASSERT(dataWritten == encodedStream.position());", "")], X),
 ("e-short-gt", [(E, "ASSERT(dataWritten == encodedStream.position());", "ASSERT(dataWritten > 0);")], X),
 ("e-marker-space", [(E, "size_t maxRowSize = sizeof(uint16_t);  // all rows contain a marker", "size_t maxRowSize = 0;")], X),
 ("w-marker-space", [(W, "Buffer encodedBuffer(rowsBuffer_.size() + (sizeof(uint16_t) * rowsBufferSize_));", "Buffer encodedBuffer(rowsBuffer_.size() + rowsBufferSize_);")], X),
 ("w-close-noflush", [(W, "    if (initialisedColumns_)\n        flush();\n\n    if (!openDataHandle_)", "    if (initialisedColumns_ && openDataHandle_)\n        flush();\n\n    if (!openDataHandle_)")], X),
 ("w-dtor", [(W, "WriterBufferingIterator::~WriterBufferingIterator() {\n    close();", "WriterBufferingIterator::~WriterBufferingIterator() {\n    if (nrows_)\n        close();")], X),
 ("w-full", [(W, "    if ((char*)nextRowInBuffer_ == rowsBuffer_ + rowsBuffer_.size())\n        flush();", "    if ((char*)nextRowInBuffer_ > rowsBuffer_ + rowsBuffer_.size())\n        flush();")], X),
 ("w-reset-last", [(W, "    // Clean up storage buffers for row data\n    allocBuffers();\n", "")], X),
 ("w-reset-codecs", [(W, "    columns_.resetCodecs<SameByteOrder>();\n", "")], X),
 ("w-rewind", [(W, "    nextRowInBuffer_ = reinterpret_cast<unsigned char*>(rowsBuffer_.data());\n\n    // This is a bad", "    // This is a bad")], X),
 ("w-wrong-col", [(W, "p = columns_[i]->coder().encode(p, values[columnOffsets_[i]]);", "p = columns_[i]->coder().encode(p, values[columnOffsets_[k]]);")], X),
 ("e-wrong-row", [(E, "*reinterpret_cast<const double*>(sortedData[col].get(row))", "*reinterpret_cast<const double*>(sortedData[col].get(startCol))")], X),
 ("w-stats-first", [(W, "    for (size_t i = 0; i < count; i++) {\n        columns_[i]->coder().gatherStats", "    for (size_t i = 1; i < count; i++) {\n        columns_[i]->coder().gatherStats")], X),
 ("w-stats-idx", [(W, "gatherStats(values[columnOffsets_[i]])", "gatherStats(values[columnOffsets_[0]])")], X),
 ("e-stats-cond", [(E, "            coder.gatherStats(*reinterpret_cast<const double*>(d));", "            if (*reinterpret_cast<const double*>(d) != 0)\n                coder.gatherStats(*reinterpret_cast<const double*>(d));")], X),
 ("w-optimise-cond", [(W, "    setOptimalCodecs();\n\n    // n.b.", "    if (nrows_ == 0)\n        setOptimalCodecs();\n\n    // n.b.")], X),
 ("w-flush-reset-order", [(W, "    flush();\n\n    for (const auto& kv : resetColumnSizeDoubles) {\n        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);\n    }\n", "    for (const auto& kv : resetColumnSizeDoubles) {\n        columns_.columnByName(kv.first)->dataSizeDoubles(kv.second);\n    }\n    flush();\n")], X),
 ("m-short", [(M, "ASSERT(dataWritten == long(sizeOfEncodedData));", "")], X),
 ("e-assert-repeat", [(E, "const long dataWritten = out.write(encodedBuffer, encodedStream.position());\n    ASSERT(dataWritten == encodedStream.position());", "ASSERT(out.write(encodedBuffer, encodedStream.position()) == encodedStream.position());")], X),
 # refactorings
 ("w-refactor-writer-helper", [(W, "void WriterBufferingIterator::flush() {", "namespace {\nvoid writeAll(eckit::DataHandle& h, const void* p, size_t n) {\n    long w = h.write(p, n);\n    if (w != long(n))\n        throw eckit::WriteError(\"short\");\n}\n}\n\nvoid WriterBufferingIterator::flush() {"),
   (W, "    const long headerWritten = dataHandle().write(encodedHeader.first, encodedHeader.second);  // Write header\n    ASSERT(headerWritten == long(encodedHeader.second));\n    const long dataWritten = dataHandle().write(encodedBuffer, encodedStream.position());  // Write encoded data\n    ASSERT(dataWritten == encodedStream.position());\n",
    "    const size_t dataSize = encodedStream.position();\n    writeAll(dataHandle(), encodedHeader.first, encodedHeader.second);\n    writeAll(dataHandle(), encodedBuffer, dataSize);\n")], set()),
 ("w-refactor-for", [(W, "    size_t rowsWritten = 0;\n    unsigned char* p   = reinterpret_cast<unsigned char*>(rowsBuffer_.data());\n    while (p < nextRowInBuffer_) {\n        doWriteRow(encodedStream, reinterpret_cast<double*>(p));\n        p += rowByteSize_;\n        ++rowsWritten;\n    }",
   "    size_t rowsWritten = 0;\n    for (unsigned char* p = reinterpret_cast<unsigned char*>(rowsBuffer_.data()); p != nextRowInBuffer_; p += rowByteSize_) {\n        rowsWritten++;\n        doWriteRow(encodedStream, reinterpret_cast<const double*>(p));\n    }")], set()),
 ("w-refactor-nested-if", [(W, "    if (nextRowInBuffer_ == rowsBuffer_ || rowsBuffer_.size() == 0)\n        return;\n", "    const bool nothing = rowsBuffer_.size() == 0 || nextRowInBuffer_ == rowsBuffer_;\n    if (nothing) {\n        return;\n    }\n")], set()),
 ("e-refactor-stats", [(E, "    for (size_t col = 0; col < ncols; ++col) {\n        ASSERT(data[col].nelem() == nrows);\n        Codec& coder(md[col]->coder());\n\n        for (const char* d : data[col]) {\n            coder.gatherStats(*reinterpret_cast<const double*>(d));\n        }\n        maxRowSize += data[col].dataSize();\n    }",
   "    for (size_t col = 0; col < ncols; ++col) {\n        const auto& column = data[col];\n        ASSERT(column.nelem() == nrows);\n        maxRowSize += column.dataSize();\n        for (size_t r = 0; r < nrows; ++r) {\n            md[col]->coder().gatherStats(*reinterpret_cast<const double*>(column.get(r)));\n        }\n    }")], set()),
 ("e-refactor-coders", [(E, "            p = coders[col]->encode(p, *reinterpret_cast<const double*>(sortedData[col].get(row)));", "            const double value = *reinterpret_cast<const double*>(data[col].get(row));\n            p                  = md[col]->coder().encode(p, value);")], set()),
 ("w-refactor-full", [(W, "    if ((char*)nextRowInBuffer_ == rowsBuffer_ + rowsBuffer_.size())\n        flush();\n\n    return 0;", "    const char* end = rowsBuffer_ + rowsBuffer_.size();\n    if ((char*)nextRowInBuffer_ < end)\n        return 0;\n\n    flush();\n    return 0;")], set()),
]
