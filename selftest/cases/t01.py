W = "src/odc/WriterBufferingIterator.h"
M = "src/odc/tools/MergeTool.cc"
U = "src/odc/ODAUpdatingIterator.cc"
UH = "src/odc/ODAUpdatingIterator.h"
S = "src/odc/tools/SetTool.cc"
I = "src/odc/Indexer.cc"
C = "src/odc/tools/CompactTool.cc"
CS = "src/odc/ConstantSetter.h"
X = {"T01"}
RESTART = """            flush();
            pass1init(it, end);
            writeHeader();
"""
COPY = "                std::copy(src, src + width, dst);\n"
FILL = "                std::fill(dst + width, dst + outWidth, 0);\n"
MISS = """                if (out->columns()[i]->type() != odc::api::STRING && in->isMissing(cn))
                    *dst = out->missingValue(i);
"""
FIT = """                if (width > outWidth)
                    throw eckit::UserError("Column '" + in->columns()[cn]->name() +
                                           "' gets wider within an input file of merge.");
"""
CHG = """            if (in->isNewDataset() && !in->columns().equals(layouts[ii], false))
                throw eckit::UserError("Columns change within an input file of merge.");
"""
DUP = """        for (size_t i = 0; i < columns.size(); ++i)
            if (out->columns().hasColumn(columns[i]->name()))
                throw eckit::UserError(std::string("Column '") + columns[i]->name() +
                                       "' occurs in more than one input file of merge.");
"""
NEXT = """        if (ii_->isNewDataset())
            updateIndices();

        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);
        update();
"""
OFFS = """        offsets[i] = rowDataSizeDoubles_;
        rowDataSizeDoubles_ += md[i]->dataSizeDoubles();
"""
NAMES = """        const size_t index = md.columnIndex(columns_[i]);
        columnOffsets_[i]  = offsets[index];
        columnSizes_[i]    = md[index]->dataSizeDoubles();
"""
UPDATE = """        double* value = data_ + columnOffsets_[i];
        *value        = values_[i];
        std::fill(value + 1, value + columnSizes_[i], 0);
"""
ENTRY = """                    (*writer)[0] = blockBegin;
                    (*writer)[1] = blockLength;
                    (*writer)[2] = prevSeqno;
                    (*writer)[3] = nRows;
                    ++writer;
                    nRows = 0;
"""
LAST = """        if (nRows > 0) {
            (*writer)[0] = blockBegin;
            (*writer)[1] = blockLength;
            (*writer)[2] = prevSeqno;
            (*writer)[3] = nRows;
            ++writer;
            nRows = 0;
        }
"""
RUNS = """            if (seqno == prevSeqno)
                ++nRows;
            else {
                if (nRows > 0) {
                    (*writer)[0] = blockBegin;
                    (*writer)[1] = blockLength;
                    (*writer)[2] = prevSeqno;
                    (*writer)[3] = nRows;
                    ++writer;
                    nRows = 0;
                }
                prevSeqno = seqno;
                ++nRows;
            }
"""
CASES = [
    # W1
    ("t01 pass1 no flush", [(W, RESTART, RESTART.replace("            flush();\n", ""))], X),
    ("t01 pass1 flush late", [(W, RESTART, "            pass1init(it, end);\n            flush();\n            writeHeader();\n")], X),
    ("t01 pass1 no header", [(W, RESTART, RESTART.replace("            writeHeader();\n", ""))], X),
    ("t01 pass1 no columns", [(W, RESTART, "            flush();\n            writeHeader();\n")], X),
    ("t01 pass1 missing values", [(W, "(it->columns() != columns() || !columns().equalMissingValues(it->columns()))", "it->columns() != columns()")], {"T01"}),
    ("t01 pass1 number of columns", [(W, "(it->columns() != columns() ||", "(it->columns().size() != columns().size() ||")], X),
    ("t01 pass1 not noticed", [(W, "if (it->isNewDataset() && (", "if (nrows == 0 && (")], X),
    ("t01 pass1 change row left out", [(W, RESTART, RESTART + "            continue;\n")], X),
    ("t01 pass1 not closed", [(W, "    ASSERT(close() == 0);\n    return nrows;", "    return nrows;")], X),
    ("t01 pass1 close ignored", [(W, "    ASSERT(close() == 0);\n    return nrows;", "    close();\n    return nrows;")], X),
    ("t01 pass1 count", [(W, "    unsigned long nrows = 0;\n    for", "    unsigned long nrows = 1;\n    for")], X),
    ("t01 pass1 count restarted", [(W, RESTART, RESTART + "            nrows = 0;\n")], X),
    ("t01 pass1 room", [(W, "    ASSERT(nCols > 0);\n\n    allocRowsBuffer();\n", "    ASSERT(nCols > 0);\n\n    if (!rowDataSizeDoubles_)\n        allocRowsBuffer();\n")], X),
    ("t01 pass1 header last", [(W, "    pass1init(it, end);\n    writeHeader();\n\n    unsigned long nrows = 0;", "    pass1init(it, end);\n    unsigned long nrows = 0;")], X),
    # M1
    ("t01 merge first double", [(M, COPY, "                *dst = *src;\n")], X),
    ("t01 merge one", [(M, COPY, "                std::copy(src, src + 1, dst);\n")], X),
    ("t01 merge rest stays", [(M, FILL, "")], X),
    ("t01 merge rest clears", [(M, FILL, "                std::fill(dst + 1, dst + outWidth, 0);\n")], X),
    ("t01 merge other column", [(M, "const double* src(&in->data(cn));", "const double* src(&in->data(0));")], X),
    ("t01 merge place anew", [(M, "for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {", "for (size_t ii = 0; ii < iterators.size(); ++ii) {\n            size_t i = 0;")], X),
    ("t01 merge place runs on", [(M, "    for (;;) {\n        for (size_t i = 0, ii = 0;", "    size_t i = 0;\n    for (;;) {\n        for (size_t ii = 0;")], X),
    ("t01 merge missing stays input's", [(M, MISS, "")], X),
    ("t01 merge missing of the input", [(M, "*dst = out->missingValue(i);", "*dst = in->missingValue(cn);")], X),
    ("t01 merge missing asked of place", [(M, "in->isMissing(cn))", "in->isMissing(i))")], X),
    ("t01 merge not advanced", [(M, "            ++in;\n", "            if (ii)\n                ++in;\n")], X),
    ("t01 merge advanced per column", [(M, "                if (out->columns()[i]->type() != odc::api::STRING &&", "                if (cn == 1)\n                    ++in;\n                if (out->columns()[i]->type() != odc::api::STRING &&")], X),
    ("t01 merge partial row", [(M, "            if (!(in != inEnd))\n", "            if (!(in != inEnd) && ii)\n                ++out;\n            if (!(in != inEnd))\n")], X),
    ("t01 merge row per input", [(M, "            ++in;\n        }\n\n        ++out;", "            ++in;\n            ++out;\n        }\n")], X),
    ("t01 merge from the second", [(M, "for (size_t i = 0, ii = 0;", "for (size_t i = 0, ii = 1;")], X),
    ("t01 merge columns from one", [(M, "for (size_t cn = 0; cn < in->columns().size()", "for (size_t cn = 1; cn < in->columns().size()")], X),
    ("t01 merge columns but last", [(M, "cn < in->columns().size(); ++cn, ++i", "cn + 1 < in->columns().size(); ++cn, ++i")], X),
    # M2
    ("t01 merge fits", [(M, FIT, "")], X),
    ("t01 merge fits inverted", [(M, "if (width > outWidth)", "if (width < outWidth)")], X),
    ("t01 merge changed", [(M, CHG, "")], X),
    ("t01 merge changed ignored", [(M, CHG, CHG.replace("throw eckit::UserError(", "Log::warning() << (").replace("merge.\");", "merge.\") << std::endl;"))], X),
    ("t01 merge duplicates", [(M, DUP, "")], X),
    ("t01 merge duplicates first", [(M, "for (size_t i = 0; i < columns.size(); ++i)\n            if (out", "for (size_t i = 0; i < 1; ++i)\n            if (out")], X),
    ("t01 merge order", [(M, "        MetaData md(out->columns());\n        md += columns;\n", "        MetaData md(columns);\n        md += out->columns();\n")], X),
    ("t01 merge last only", [(M, "        md += columns;\n        out->columns(md);\n", "        md += columns;\n        out->columns(columns);\n        out->columns(columns);\n")], X),
    ("t01 merge header early", [(M, "        layouts.push_back(columns);\n", "        layouts.push_back(columns);\n        out->writeHeader();\n")], X),
    # M3
    ("t01 merge inputs but last", [(M, "    for (size_t i = 0; i < inputFiles.size(); ++i) {\n        readers", "    for (size_t i = 0; i + 1 < inputFiles.size(); ++i) {\n        readers")], X),
    ("t01 merge limits", [(M, "std::make_pair(readers[i]->begin(), readers[i]->end())", "std::make_pair(readers[0]->begin(), readers[i]->end())")], X),
    ("t01 merge query of first", [(M, "new S(sqls[i], *fhs[i])", "new S(sqls[0], *fhs[i])")], X),
    ("t01 merge file of first", [(M, "new S(sqls[i], *fhs[i])", "new S(sqls[i], *fhs[0])")], X),
    ("t01 merge filtering inverted", [(M, "    if (!sqlFiltering_)\n        merge(", "    if (sqlFiltering_)\n        merge(")], X),
    ("t01 merge option late", [(M, "    registerOptionWithArgument(\"-o\");\n    if (parameters().size() < 3) {", "    const bool few = parameters().size() < 3;\n    registerOptionWithArgument(\"-o\");\n    if (few) {")], X),
    ("t01 merge first input", [(M, "for (size_t i = 1; i < parameters().size(); ++i) {\n        inputFiles_", "for (size_t i = 2; i < parameters().size(); ++i) {\n        inputFiles_")], X),
    ("t01 merge query not skipped", [(M, "std::string s(parameters()[++i]);", "std::string s(parameters()[i + 1]);")], X),
    # S1
    ("t01 set twice", [(U, "    ++ii_;\n    bool r", "    ++ii_;\n    if (values_.empty())\n        ++ii_;\n    bool r")], X),
    ("t01 set not updated", [(U, NEXT, NEXT.replace("        update();\n", ""))], X),
    ("t01 set updated on new only", [(U, NEXT, "        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);\n        if (!ii_->isNewDataset())\n            update();\n        else {\n            updateIndices();\n        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);\n        }\n")], X),
    ("t01 set copied after", [(U, NEXT, NEXT.replace("        update();\n", "").replace("        std::copy", "        update();\n        std::copy"))], X),
    ("t01 set indices once", [(U, "        if (ii_->isNewDataset())\n            updateIndices();\n\n", "")], X),
    ("t01 set indices inverted", [(U, "        if (ii_->isNewDataset())\n            updateIndices();\n\n", "        if (!ii_->isNewDataset())\n            updateIndices();\n\n")], X),
    ("t01 set copied columns", [(U, NEXT, NEXT.replace("rowDataSizeDoubles_", "ii_->columns().size()"))], X),
    ("t01 set end forgotten", [(U, "    noMore_ = !r;\n", "")], X),
    ("t01 set end inverted", [(U, "    noMore_ = !r;\n", "    noMore_ = r;\n")], X),
    ("t01 set first row unchanged", [(U, "        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);\n        update();\n    }\n}\n\ntemplate <typename T>\nvoid ODAUpdatingIterator<T>::updateIndices", "        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);\n    }\n}\n\ntemplate <typename T>\nvoid ODAUpdatingIterator<T>::updateIndices")], X),
    ("t01 set data of input", [(UH, "double* data() { return data_; }", "double* data() { return const_cast<double*>(ii_->data()); }")], X),
    ("t01 set never new", [(U, "    return ii_->isNewDataset();\n", "    return false;\n")], X),
    ("t01 set all but first", [(U, "for (size_t i = 0; i < columnOffsets_.size(); ++i) {\n        double* value", "for (size_t i = 1; i < columnOffsets_.size(); ++i) {\n        double* value")], X),
    ("t01 set value of first", [(U, "*value        = values_[i];", "*value        = values_[0];")], X),
    ("t01 set at index", [(U, "double* value = data_ + columnOffsets_[i];", "double* value = data_ + i;")], X),
    ("t01 set rest stays", [(U, "        std::fill(value + 1, value + columnSizes_[i], 0);\n", "")], X),
    ("t01 set rest too far", [(U, "std::fill(value + 1, value + columnSizes_[i], 0);", "std::fill(value + 1, value + columnSizes_[0], 0);")], X),
    ("t01 set names and values", [(U, "    values_(values),\n    data_(0),\n    rowDataSizeDoubles_(0),\n    refCount_(0),\n    noMore_(false) {\n", "    values_(columns.size()),\n    data_(0),\n    rowDataSizeDoubles_(0),\n    refCount_(0),\n    noMore_(false) {\n")], None),
    # S2
    ("t01 set place by number", [(U, "columnOffsets_[i]  = offsets[index];", "columnOffsets_[i]  = index;")], X),
    ("t01 set place after", [(U, OFFS, "        rowDataSizeDoubles_ += md[i]->dataSizeDoubles();\n        offsets[i] = rowDataSizeDoubles_;\n")], X),
    ("t01 set place width one", [(U, "rowDataSizeDoubles_ += md[i]->dataSizeDoubles();", "rowDataSizeDoubles_++;")], X),
    ("t01 set place runs on", [(U, "    rowDataSizeDoubles_ = 0;\n    for", "    for")], X),
    ("t01 set place of the names", [(U, "columnOffsets_[i]  = offsets[index];", "columnOffsets_[i]  = offsets[i];")], X),
    ("t01 set width of the names", [(U, "md[index]->dataSizeDoubles();", "md[i]->dataSizeDoubles();")], X),
    ("t01 set name of first", [(U, "md.columnIndex(columns_[i])", "md.columnIndex(columns_[0])")], X),
    ("t01 set room once", [(U, "    delete[] data_;\n    data_ = 0;\n    data_ = new double[rowDataSizeDoubles_];\n", "    if (!data_)\n        data_ = new double[rowDataSizeDoubles_];\n")], X),
    # S3 / tool
    ("t01 set list skips", [(S, "for (size_t i = 0; i < assignments.size(); ++i) {", "for (size_t i = 1; i < assignments.size(); ++i) {")], X),
    ("t01 set hex digits", [(S, "value.substr(i * 2, 2)", "value.substr(i, 2)")], X),
    ("t01 set hex base", [(S, "strtoul(byteInHex.c_str(), &p, 16)", "strtoul(byteInHex.c_str(), &p, 0)")], X),
    ("t01 set hex order", [(S, "reinterpret_cast<unsigned char*>(&v)[i] = x =", "reinterpret_cast<unsigned char*>(&v)[value.size() / 2 - 1 - i] = x =")], X),
    ("t01 set files", [(S, "PathName outFile = parameters(3);", "PathName outFile = parameters(2);")], X),
    ("t01 set parameters", [(S, "parameters().size() != 4", "parameters().size() < 3")], X),
    # X1
    ("t01 index opens", [(I, "        AutoClose closer(h);\n", "        h.openForRead();\n        AutoClose closer(h);\n")], X),
    ("t01 index length of the rest", [(I, "it->nextPosition() - it->startPosition();", "it->nextPosition() - reader.begin()->startPosition();")], X),
    ("t01 index begin of the first", [(I, "Offset offset = it->startPosition();", "Offset offset = reader.begin()->startPosition();")], X),
    ("t01 merge query of the first", [(M, "new S(sqls[i], *fhs[i])", "new S(sqls.front(), *fhs[i])")], X),
    ("t01 set value kept", [(S, "double v = 0;", "double v = values.empty() ? 0 : values.front();"), (S, "v = translate(value);", "v = values.empty() ? double(translate(value)) : v;")], X),
    ("t01 set value of the last", [(S, "v = translate(value);", "v = values.empty() ? double(translate(value)) : values.back();")], X),
    ("t01 index length", [(I, "it->nextPosition() - it->startPosition();", "it->nextPosition() - eckit::Offset(0);")], X),
    ("t01 index tables", [(I, "        r.push_back(std::make_pair(offset, length));\n", "        r.push_back(std::make_pair(offset, length));\n        if (r.size() > 1000)\n            break;\n")], X),
    # X2
    ("t01 index last", [(I, LAST, "")], X),
    ("t01 index last one row", [(I, LAST, LAST.replace("nRows > 0", "nRows > 1"))], X),
    ("t01 index count kept", [(I, ENTRY, ENTRY.replace("                    nRows = 0;\n", ""))], X),
    ("t01 index first row", [(I, "                prevSeqno = seqno;\n                ++nRows;\n", "                prevSeqno = seqno;\n")], X),
    ("t01 index new number", [(I, ENTRY, ENTRY.replace("prevSeqno", "seqno"))], X),
    ("t01 index limits", [(I, ENTRY, ENTRY.replace("[0] = blockBegin", "[0] = blockLength").replace("[1] = blockLength", "[1] = blockBegin"))], X),
    ("t01 index number kept", [(I, "                prevSeqno = seqno;\n", "                if (prevSeqno < 0)\n                    prevSeqno = seqno;\n")], X),
    ("t01 index part", [(I, "PartFileHandle h(dataFile, blockBegin, blockLength);", "PartFileHandle h(dataFile, offsets[0].first, blockLength);")], None),
    ("t01 index blocks", [(I, "for (size_t i(0); i < offsets.size(); ++i) {\n        Offset", "for (size_t i(1); i < offsets.size(); ++i) {\n        Offset")], X),
    ("t01 index count over blocks", [(I, "        int nRows(0);\n\n        odc::Select in", "        odc::Select in"), (I, "    for (size_t i(0); i < offsets.size(); ++i) {\n        Offset", "    int nRows(0);\n    for (size_t i(0); i < offsets.size(); ++i) {\n        Offset"), (I, LAST, LAST.replace("            nRows = 0;\n", ""))], X),
    ("t01 index query", [(I, "\"select seqno;\"", "\"select distinct seqno;\"")], X),
    # C1
    ("t01 compact files", [(C, "PathName outFile = parameters(2);", "PathName outFile = parameters(1);")], X),
    ("t01 compact not compared", [(C, "    comparator.compare(it1, end1, it2, end2, inFile, outFile);\n", "")], X),
    ("t01 compact parameters", [(C, "parameters().size() != 3", "parameters().size() < 2")], X),
    # refactorings
    ("t01 ok pass1 while", [(W, "    for (; it != end; ++it, ++nrows) {\n", "    while (it != end) {\n"), (W, "        writeRow(it->data(), it->columns().size());\n", "        writeRow(it->data(), it->columns().size());\n        ++nrows;\n        ++it;\n")], set()),
    ("t01 ok pass1 helper", [(W, "    template <typename T>\n    void pass1init(T&, const T&);\n", "    template <typename T>\n    void pass1init(T&, const T&);\n    template <typename T>\n    bool changed(T& it) { return !(it->columns() == columns()) || !columns().equalMissingValues(it->columns()); }\n"), (W, "(it->columns() != columns() || !columns().equalMissingValues(it->columns()))", "changed(it)")], set()),
    ("t01 ok pass1 init inline", [(W, "    pass1init(it, end);\n    writeHeader();\n\n    unsigned long nrows = 0;", "    columns(it->columns());\n    columns_.resetCodecs<core::SameByteOrder>();\n    columns_.resetStats();\n    ASSERT(it->columns().size() > 0);\n    allocRowsBuffer();\n    writeHeader();\n\n    unsigned long nrows = 0;")], set()),
    ("t01 ok pass1 no flush before close", [(W, "    LOG_DEBUG_LIB(LibOdc) << \"Flushing rest of the buffer...\" << std::endl;\n    flush();\n", "")], set()),
    ("t01 ok merge memcpy", [(M, COPY, "                ::memcpy(dst, src, width * sizeof(double));\n"), (M, "#include \"odc/tools/MergeTool.h\"\n", "#include \"odc/tools/MergeTool.h\"\n#include <cstring>\n")], set()),
    ("t01 ok merge loops", [(M, COPY + FILL, "                for (size_t k = 0; k < width; ++k)\n                    dst[k] = src[k];\n                for (size_t k = width; k < outWidth; ++k)\n                    dst[k] = 0;\n")], set()),
    ("t01 ok merge helper", [(M, "template <typename T, typename I>\nvoid doMerge(", "static void copyValue(const double* src, size_t width, double* dst, size_t outWidth) {\n    std::copy(src, src + width, dst);\n    std::fill(dst + width, dst + outWidth, 0);\n}\n\ntemplate <typename T, typename I>\nvoid doMerge("), (M, COPY + FILL, "                copyValue(src, width, dst, outWidth);\n")], set()),
    ("t01 ok merge while", [(M, "for (size_t i = 0, ii = 0; ii < iterators.size(); ++ii) {", "size_t i = 0;\n        for (size_t ii = 0; ii < iterators.size(); ++ii) {")], set()),
    ("t01 ok merge column place", [(M, "for (size_t cn = 0; cn < in->columns().size(); ++cn, ++i) {", "for (size_t cn = 0; cn < in->columns().size(); ++cn) {"), (M, "                    *dst = out->missingValue(i);\n", "                    *dst = out->missingValue(i);\n                ++i;\n")], set()),
    ("t01 ok merge missing first", [(M, MISS, ""), (M, COPY + FILL, "                const bool gone = out->columns()[i]->type() != odc::api::STRING && in->isMissing(cn);\n" + COPY + FILL + "                if (gone)\n                    dst[0] = out->missingValue(i);\n")], set()),
    ("t01 ok merge duplicates helper", [(M, "template <typename T, typename I>\nvoid doMerge(", "static void noDuplicates(const MetaData& a, const MetaData& b) {\n    for (const auto& c : b)\n        if (a.hasColumn(c->name()))\n            throw eckit::UserError(\"Column '\" + c->name() + \"' occurs in more than one input file of merge.\");\n}\n\ntemplate <typename T, typename I>\nvoid doMerge("), (M, DUP, "        noDuplicates(out->columns(), columns);\n")], set()),
    ("t01 ok merge ctor", [(M, "            std::string s(parameters()[++i]);\n", "            ++i;\n            const std::string s(parameters(i));\n")], set()),
    ("t01 ok set next early", [(U, "    bool r = ii_ != end_;\n    if (r) {\n" + NEXT + "    }\n    noMore_ = !r;\n    return r;\n", "    noMore_ = !(ii_ != end_);\n    if (noMore_)\n        return false;\n" + NEXT + "    return true;\n")], set()),
    ("t01 ok set load helper", [(UH, "    void update();\n", "    void update();\n    void load() {\n        std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);\n        update();\n    }\n"), (U, NEXT, "        if (ii_->isNewDataset())\n            updateIndices();\n        load();\n")], set()),
    ("t01 ok set sum local", [(U, "    rowDataSizeDoubles_ = 0;\n    for (size_t i = 0; i < md.size(); ++i) {\n" + OFFS + "    }\n", "    size_t sum = 0;\n    for (size_t i = 0; i < md.size(); ++i) {\n        offsets[i] = sum;\n        sum += md[i]->dataSizeDoubles();\n    }\n    rowDataSizeDoubles_ = sum;\n")], set()),
    ("t01 ok set update loop", [(U, UPDATE, "        double* value = &data_[columnOffsets_[i]];\n        value[0] = values_[i];\n        for (size_t k = 1; k < columnSizes_[i]; ++k)\n            value[k] = 0;\n")], set()),
    ("t01 ok set names pointer", [(U, NAMES, "        const size_t index = md.columnIndex(columns_.at(i));\n        columnSizes_[i]    = md[index]->dataSizeDoubles();\n        columnOffsets_[i]  = offsets[index];\n")], set()),
    ("t01 ok set memcpy", [(U, NEXT, NEXT.replace("std::copy(ii_->data(), ii_->data() + rowDataSizeDoubles_, data_);", "::memcpy(data_, ii_->data(), rowDataSizeDoubles_ * sizeof(double));")), (U, "namespace odc {\n", "#include <cstring>\nnamespace odc {\n")], set()),
    ("t01 ok set list const", [(S, "        std::string colName = assignment[0];\n        std::string value   = assignment[1];\n", "        const std::string& colName = assignment[0];\n        std::string value          = assignment.at(1);\n")], set()),
    ("t01 ok index helper", [(I, "void Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {\n", "static void entry(odc::Writer<>::iterator& writer, long long b, long long l, int s, int n) {\n    (*writer)[0] = b;\n    (*writer)[1] = l;\n    (*writer)[2] = s;\n    (*writer)[3] = n;\n    ++writer;\n}\n\nvoid Indexer::createIndex(const PathName& dataFile, const PathName& indexFile) {\n"), (I, ENTRY, "                    entry(writer, blockBegin, blockLength, prevSeqno, nRows);\n                    nRows = 0;\n")], set()),
    ("t01 ok index runs", [(I, RUNS, """            if (nRows > 0 && seqno != prevSeqno) {
                (*writer)[0] = blockBegin;
                (*writer)[1] = blockLength;
                (*writer)[2] = prevSeqno;
                (*writer)[3] = nRows;
                ++writer;
                nRows = 0;
            }
            prevSeqno = seqno;
            ++nRows;
""")], set()),
    ("t01 ok index one", [(I, ENTRY + "                }\n                prevSeqno = seqno;\n                ++nRows;\n", ENTRY.replace("                    nRows = 0;\n", "") + "                }\n                prevSeqno = seqno;\n                nRows     = 1;\n")], set()),
    ("t01 ok index emplace", [(I, "        r.push_back(std::make_pair(offset, length));\n", "        r.emplace_back(offset, length);\n")], set()),
    ("t01 ok compact scopes", [(C, "    odc::Reader::iterator it(in.begin());\n    odc::Reader::iterator end(in.end());\n\n    odc::Writer<>::iterator writer(out.begin());\n    writer->pass1(it, end);\n", "    {\n        odc::Writer<>::iterator writer(out.begin());\n        odc::Reader::iterator it(in.begin());\n        odc::Reader::iterator end(in.end());\n        writer->pass1(it, end);\n    }\n")], set()),
]
CASES = [c for c in CASES if c[2] is not None]
