D = "src/odc/WriterDispatchingIterator.cc"
T = "src/odc/TemplateParameters.cc"
S = "src/odc/tools/SplitTool.cc"
X = {"D01"}
PLACE = """        size_t offset = 0;
        for (size_t j = 0; j < templateParameters_[i]->columnIndex; ++j)
            offset += columns_[j]->dataSizeDoubles();
        dispatchedIndexes_.push_back(offset);
"""
KEY = """        const double* v = values + dispatchedIndexes_[i];
        dispatchedValues.insert(dispatchedValues.end(), v,
                                v + columns_[templateParameters_[i]->columnIndex]->dataSizeDoubles());
"""
LAST = """    if (dispatchedValues == lastDispatchedValues_)
        return lastIndex_;
"""
IDX = """    size_t iteratorIndex((p != values2iteratorIndex_.end())
                             ? p->second
                             : createIterator(dispatchedValues, generateFileName(values, count)));
"""
ONE = """        if (iteratorIndex2fileName_[i] == fileName) {
            values2iteratorIndex_[dispatchedValues] = i;
            return i;
        }
"""
EVICT = """        delete iterators_[iteratorIndex];
        iterators_[iteratorIndex] = 0;
"""
ERASE = """            if (vit->second == iteratorIndex)
                vit = values2iteratorIndex_.erase(vit);
            else
                ++vit;
"""
CREATED = """            filesCreated_[fileName] = 1;
            operation               = "overwriting";
"""
APPEND = """            append = true;
            filesCreated_[fileName]++;
"""
META = """    iterators_[iteratorIndex]->columns(columns());
    iterators_[iteratorIndex]->writeHeader();

    return iteratorIndex;
"""
OFFS = """        nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();
        columnOffsets_[i]                      = offset;
        offset += columns_[i]->dataSizeDoubles();
"""
LAYOUT = """            columns(it->columns());
            parseTemplateParameters();
            values2iteratorIndex_.clear();
            lastDispatchedValues_.clear();
"""
OPEN = """                iterators_[i]->flush();
                iterators_[i]->columns(columns());
                iterators_[i]->writeHeader();
"""
WROW = """        const double* data(it->data());
        size_t size(it->columns().size());
        int rc(writeRow(data, size));
        ASSERT(rc == 0);
"""
CHUNK = """            r.push_back(make_pair(currentOffset, currentLength));
            currentOffset = offset;
            currentLength = length;
            currentSize   = size;
"""
ORDER = """        if (i)
            ss << ",";
        ss << templateParameters[i]->name;
"""
NEXT = """        ++it;
        ++sIt;
"""
CASES = [
    # P1
    ("d01 place from one", [(D, "size_t j = 0; j < templateParameters_[i]->columnIndex", "size_t j = 1; j < templateParameters_[i]->columnIndex")], X),
    ("d01 place including own width", [(D, "j < templateParameters_[i]->columnIndex", "j <= templateParameters_[i]->columnIndex")], X),
    ("d01 place by number", [(D, PLACE, "        dispatchedIndexes_.push_back(templateParameters_[i]->columnIndex);\n")], X),
    ("d01 place of other column", [(D, "offset += columns_[j]->dataSizeDoubles();", "offset += columns_[i]->dataSizeDoubles();")], X),
    ("d01 places kept", [(D, "    dispatchedIndexes_.clear();\n", "")], X),
    ("d01 parameters kept", [(D, "    templateParameters_.reset();\n", "")], X),
    ("d01 row offsets not advanced", [(D, "        offset += columns_[i]->dataSizeDoubles();\n    }\n\n    nrows_", "        ++offset;\n    }\n\n    nrows_")], X),
    ("d01 row offsets late", [(D, "        columnOffsets_[i]                      = offset;\n        offset += columns_[i]->dataSizeDoubles();\n", "        offset += columns_[i]->dataSizeDoubles();\n        columnOffsets_[i] = offset;\n")], X),
    ("d01 missing of first column", [(D, "= columns_[i]->missingValue();", "= columns_[0]->missingValue();")], X),
    ("d01 data by number", [(D, "return nextRow_[columnOffsets_[i]];", "return nextRow_[i];")], X),
    # K1
    ("d01 first eight characters", [(D, KEY, "        dispatchedValues.push_back(values[dispatchedIndexes_[i]]);\n")], X),
    ("d01 width of other column", [(D, "v + columns_[templateParameters_[i]->columnIndex]->dataSizeDoubles());", "v + columns_[i]->dataSizeDoubles());")], X),
    ("d01 last value left out", [(D, "i < dispatchedIndexes_.size(); ++i) {\n        const double* v", "i + 1 < dispatchedIndexes_.size(); ++i) {\n        const double* v")], X),
    ("d01 last values not remembered", [(D, "    lastDispatchedValues_        = dispatchedValues;\n", "    if (lastDispatchedValues_.empty())\n        lastDispatchedValues_ = dispatchedValues;\n")], X),
    ("d01 last index not remembered", [(D, "    lastIndex_                   = iteratorIndex;\n", "    if (p == values2iteratorIndex_.end())\n        lastIndex_ = iteratorIndex;\n")], X),
    ("d01 last test inverted size", [(D, "if (dispatchedValues == lastDispatchedValues_)", "if (dispatchedValues.size() == lastDispatchedValues_.size() && dispatchedValues[0] == lastDispatchedValues_[0])")], X),
    ("d01 use not recorded", [(D, "lastDispatch_[iteratorIndex] = nrows_;", "lastDispatch_[lastIndex_ ? 0 : iteratorIndex] = nrows_;")], X),
    # W1
    ("d01 append always", [(D, "    bool append = append_;\n", "    bool append = true;\n")], X),
    ("d01 append sticky", [(D, "            append = true;\n", "            append = append_ = true;\n")], X),
    ("d01 append never", [(D, APPEND, "            filesCreated_[fileName]++;\n")], X),
    ("d01 overwriting not remembered", [(D, CREATED, "            operation = \"overwriting\";\n")], X),
    ("d01 creating not remembered", [(D, "        filesCreated_[fileName] = 1;\n        operation               = \"creating\";\n", "        operation = \"creating\";\n")], X),
    ("d01 new writer without header", [(D, META, "    iterators_[iteratorIndex]->columns(columns());\n\n    return iteratorIndex;\n")], X),
    ("d01 new writer header early", [(D, META, "    iterators_[iteratorIndex]->writeHeader();\n    iterators_[iteratorIndex]->columns(columns());\n\n    return iteratorIndex;\n")], X),
    ("d01 file name not recorded", [(D, "    iteratorIndex2fileName_[iteratorIndex]  = fileName;\n", "")], X),
    ("d01 several writers", [(D, ONE, "")], X),
    ("d01 reuse forgets", [(D, "            values2iteratorIndex_[dispatchedValues] = i;\n            return i;", "            return i;")], X),
    ("d01 writer append inverted", [("src/odc/Writer.cc", "h          = append ?", "h          = !append ?")], X),
    ("d01 writer append ignored", [("src/odc/ODBAPISettings.cc", "openForAppend(length)", "openForWrite(length)")], X),
    ("d01 begin append lost", [("src/odc/DispatchingWriter.cc", "new iterator_class(*this, maxOpenFiles_, append_)", "new iterator_class(*this, maxOpenFiles_)")], X),
    ("d01 append given lost", [("src/odc/DispatchingWriter.cc", "append_(append) {}", "append_(false) {}")], X),
    ("d01 room", [(D, "iteratorIndex2fileName_(maxOpenFiles),", "iteratorIndex2fileName_(250),")], X),
    # W2
    ("d01 evicted not closed", [(D, "        delete iterators_[iteratorIndex];\n        iterators_[iteratorIndex] = 0;\n\n", "        iterators_[iteratorIndex] = 0;\n\n")], X),
    ("d01 evicted values stay", [(D, ERASE, "            ++vit;\n")], X),
    ("d01 evicted first only", [(D, "                vit = values2iteratorIndex_.erase(vit);\n            else\n                ++vit;\n", "{ values2iteratorIndex_.erase(vit); break; }\n            ++vit;\n")], X),
    ("d01 evicted others", [(D, "if (vit->second == iteratorIndex)", "if (vit->second != iteratorIndex)")], X),
    # R1
    ("d01 input skipped", [(D, "        ASSERT(rc == 0);\n    }\n\n    LOG", "        ASSERT(rc == 0);\n        if (it->isNewDataset() && !(++it != end))\n            break;\n    }\n\n    LOG")], X),
    ("d01 rc ignored", [(D, "        ASSERT(rc == 0);\n    }\n\n    LOG", "        (void)rc;\n    }\n\n    LOG")], X),
    ("d01 layout not parsed", [(D, LAYOUT, LAYOUT.replace("            parseTemplateParameters();\n", "            if (!initialized_)\n                parseTemplateParameters();\n"))], X),
    ("d01 layout values stay", [(D, LAYOUT, LAYOUT.replace("            values2iteratorIndex_.clear();\n", ""))], X),
    ("d01 layout last stays", [(D, LAYOUT, LAYOUT.replace("            lastDispatchedValues_.clear();\n", ""))], X),
    ("d01 layout only if size differs", [(D, "(it->isNewDataset() && (columns() != it->columns() ||", "(it->isNewDataset() && (columns().size() != it->columns().size() ||")], X),
    ("d01 layout another missing value", [(D, """(columns() != it->columns() ||
                                                 !columns().equalMissingValues(it->columns())))) {""", "columns() != it->columns())) {")], X),
    ("d01 first layout another missing value", [(D, "!initialized_ || columns() != it->columns() || !columns().equalMissingValues(it->columns());", "!initialized_ || columns() != it->columns();")], X),
    ("d01 open flush late", [(D, OPEN, OPEN.replace("                iterators_[i]->flush();\n", "") + "                iterators_[i]->flush();\n")], X),
    ("d01 open header left out", [(D, OPEN, OPEN.replace("                iterators_[i]->writeHeader();\n", ""))], X),
    ("d01 open from one", [(D, "for (size_t i = 0; i < iterators_.size(); ++i) {\n                iterators_[i]->flush", "for (size_t i = 1; i < iterators_.size(); ++i) {\n                iterators_[i]->flush")], X),
    ("d01 first layout of previous input", [(D, "!initialized_ || columns() != it->columns() || !columns().equalMissingValues(it->columns());", "!initialized_;")], X),
    ("d01 count kept", [(D, "    nrows_ = 0;\n    for (; it", "    for (; it")], X),
    ("d01 row counted anyway", [(D, "    if (rc == 0)\n        nrows_++;\n", "    if (rc != 0)\n        return rc;\n    if (count)\n        nrows_ += count;\n")], X),
    # C1
    ("d01 close first only", [(D, "        rc |= (*it)->close();\n", "        rc |= (*it)->close();\n        if (rc)\n            break;\n")], X),
    ("d01 close result lost", [(D, "        rc |= (*it)->close();\n", "        rc = (*it)->close();\n")], X),
    ("d01 close again", [(D, "    iterators_.clear();\n\n    return rc;", "    return rc;")], X),
    ("d01 destructor from one", [(D, "    for (size_t i = 0; i < iterators_.size(); ++i)\n        delete iterators_[i];", "    for (size_t i = 1; i < iterators_.size(); ++i)\n        delete iterators_[i];")], X),
    # N1
    ("d01 name place", [(D, "fileName.replace(p.startPos - diff,", "fileName.replace(p.startPos,")], X),
    ("d01 name place sign", [(D, "fileName.replace(p.startPos - diff,", "fileName.replace(p.startPos + diff,")], X),
    ("d01 name length", [(D, "p.endPos - p.startPos + 1, s);", "p.endPos - p.startPos, s);")], X),
    ("d01 name shift wrong", [(D, "diff = outputFileTemplate_.size() - fileName.size();", "diff = p.endPos - p.startPos + 1 - s.size();")], X),
    ("d01 name value by number", [(D, "const double& d(values[dispatchedIndexes_[it - templateParameters_.begin()]]);", "const double& d(values[p.columnIndex]);")], X),
    ("d01 name eight characters", [(D, "trimString(sp, len, columns_[p.columnIndex]->dataSizeDoubles() * sizeof(double));", "trimString(sp, len, sizeof(double));")], X),
    ("d01 name kind", [(D, "if (columns_[p.columnIndex]->type() == api::STRING) {\n            const char* sp", "if (columns_[p.columnIndex]->type() == api::BITFIELD) {\n            const char* sp")], X),
    ("d01 slash and next", [(D, "s.replace(pos, 1, std::string", "s.replace(pos, 2, std::string")], X),
    # N2
    ("d01 template name short", [(T, "t.substr(l + 1, r - l - 1)", "t.substr(l + 1, r - l - 2)")], X),
    ("d01 template brace from begin", [(T, 't.find("}", start)', 't.find("}")')], X),
    ("d01 template open accepted", [(T, "        if (r == std::string::npos)\n            throw eckit::UserError(std::string(\"TemplateParameters::parse: missing '}' while parsing '\") +\n                                   fileNameTemplate + \"'\");\n", "        if (r == std::string::npos)\n            r = t.size();\n")], X),
    ("d01 template skips", [(T, "        start = r;\n", "        start = r + 2;\n")], X),
    ("d01 template first only", [(T, "        params.push_back(new TemplateParameter(l, r, index, name));\n", "        params.push_back(new TemplateParameter(l, r, index, name));\n        if (params.size() > 3)\n            break;\n")], X),
    # T1
    ("d01 tool swaps", [(S, "PathName inFile(parameters(1));\n    string outFileTemplate(parameters(2));", "PathName inFile(parameters(2));\n    string outFileTemplate(parameters(1));")], X),
    ("d01 tool sort ignored", [(S, "    if (optionIsSet(\"-sort\"))\n        sort_ = true;\n", "    optionIsSet(\"-sort\");\n")], X),
    ("d01 tool verify inverted", [(S, "maxOpenFiles_, !optionIsSet(\"-no_verification\")", "maxOpenFiles_, optionIsSet(\"-no_verification\")")], X),
    ("d01 tool verify before close", [(S, "    outIt->close();\n    if (verify)\n        (**outIt).verify(begin, end);\n", "    if (verify)\n        (**outIt).verify(begin, end);\n    outIt->close();\n")], X),
    ("d01 tool appends", [(S, "odc::DispatchingWriter out(outFileTemplate, maxOpenFiles);", "odc::DispatchingWriter out(outFileTemplate, maxOpenFiles, true);")], X),
    ("d01 chunk last lost", [(S, "    if (currentLength != Length(0))\n        r.push_back", "    if (r.empty())\n        r.push_back")], X),
    ("d01 chunk restart length", [(S, "            currentLength = length;\n", "            currentLength = Length(0);\n")], X),
    ("d01 chunk empty", [(S, "if (currentLength != Length(0) && currentSize + size > maxExpandedSize) {", "if (currentSize + size > maxExpandedSize) {")], X),
    ("d01 chunk restarted early", [(S, CHUNK, "            currentOffset = offset;\n            r.push_back(make_pair(currentOffset, currentLength));\n            currentLength = length;\n            currentSize   = size;\n")], X),
    ("d01 order by first", [(S, "i < templateParameters.size(); ++i)", "i < 1; ++i)")], X),
    ("d01 order commas", [(S, "        if (i)\n            ss", "        if (i > 1)\n            ss")], X),
    ("d01 sort query filters", [(S, '"select * order by "', '"select distinct * order by "')], X),
    ("d01 sort parts from one", [(S, "for (size_t i = 0; i < chunks.size(); ++i) {", "for (size_t i = 1; i < chunks.size(); ++i) {")], X),
    ("d01 sort part swapped", [(S, "PartFileHandle h(inFile, chunks[i].first, chunks[i].second);", "PartFileHandle h(inFile, Offset((long long)chunks[i].second), Length((long long)chunks[i].first));")], X),
    ("d01 sort opens", [(S, "        AutoClose closer(h);\n", "        h.openForRead();\n        AutoClose closer(h);\n")], X),
    # V1
    ("d01 verify dispatches", [(D, "        const std::string outFileName(generateFileName(it->data(), it->columns().size()));\n", "        const std::string outFileName(iteratorIndex2fileName_[dispatchIndex(it->data(), it->columns().size())]);\n")], X),
    ("d01 verify input only", [(D, "        ++it;\n        ++sIt;\n", "        ++it;\n")], X),
    ("d01 verify self", [(D, "const double* const outputData(sIt->data());", "const double* const outputData(it->data());")], X),
    # refactorings
    ("d01 ok place helper", [(D, PLACE, "        size_t offset = 0;\n        size_t j = 0;\n        while (j < templateParameters_[i]->columnIndex) {\n            offset += columns_[j]->dataSizeDoubles();\n            j++;\n        }\n        dispatchedIndexes_.push_back(offset);\n")], set()),
    ("d01 ok key temp", [(D, KEY, "        const TemplateParameter& tp = *templateParameters_[i];\n        const double* first         = values + dispatchedIndexes_[i];\n        const double* last          = first + columns_[tp.columnIndex]->dataSizeDoubles();\n        dispatchedValues.insert(dispatchedValues.end(), first, last);\n")], set()),
    ("d01 ok key not equal", [(D, LAST + "\n" + "    Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));\n" + IDX, "    if (!(dispatchedValues != lastDispatchedValues_))\n        return lastIndex_;\n\n    Values2IteratorIndex::iterator p(values2iteratorIndex_.find(dispatchedValues));\n    size_t iteratorIndex;\n    if (p == values2iteratorIndex_.end()) {\n        iteratorIndex = createIterator(dispatchedValues, generateFileName(values, count));\n    }\n    else {\n        iteratorIndex = p->second;\n    }\n")], set()),
    ("d01 ok remember order", [(D, "    lastDispatchedValues_        = dispatchedValues;\n    lastIndex_                   = iteratorIndex;\n", "    lastIndex_ = iteratorIndex;\n    lastDispatchedValues_.swap(dispatchedValues);\n")], set()),
    ("d01 ok append count", [(D, "if (filesCreated_.find(fileName) == filesCreated_.end()) {", "if (filesCreated_.count(fileName) == 0) {")], set()),
    ("d01 ok append flip", [(D, "        if (filesCreated_.find(fileName) == filesCreated_.end()) {\n" + CREATED + "        }\n        else {\n" + APPEND + "            operation = \"appending\";\n        }\n", "        const bool ours = filesCreated_.find(fileName) != filesCreated_.end();\n        if (ours) {\n" + APPEND + "            operation = \"appending\";\n        }\n        else {\n" + CREATED + "        }\n")], set()),
    ("d01 ok meta ref", [(D, META, "    WRITE_ITERATOR& w = *iterators_[iteratorIndex];\n    w.columns(columns_);\n    w.writeHeader();\n\n    return iteratorIndex;\n")], set()),
    ("d01 ok evict erase post", [(D, ERASE, "            Values2IteratorIndex::iterator cur = vit++;\n            if (cur->second == iteratorIndex)\n                values2iteratorIndex_.erase(cur);\n")], set()),
    ("d01 ok evict break flipped", [(D, ERASE, "            if (vit->second != iteratorIndex)\n                ++vit;\n            else\n                vit = values2iteratorIndex_.erase(vit);\n")], set()),
    ("d01 ok offsets separate", [(D, OFFS, "        columnOffsets_[i]   = offset;\n        const double missing = columns_[i]->missingValue();\n        nextRow_[offset]    = missing;\n        lastValues_[offset] = missing;\n        offset += columns_[i]->dataSizeDoubles();\n")], set()),
    ("d01 ok layout loop it", [(D, "            for (size_t i = 0; i < iterators_.size(); ++i) {\n" + OPEN + "            }\n", "            for (auto* writer : iterators_) {\n                writer->flush();\n                writer->columns(columns());\n                writer->writeHeader();\n            }\n")], set()),
    ("d01 ok row inline", [(D, WROW, "        ASSERT(writeRow(it->data(), it->columns().size()) == 0);\n")], set()),
    ("d01 ok while", [(D, "    for (; it != end; ++it) {\n        if (newLayout", "    while (it != end) {\n        if (newLayout"), (D, WROW, WROW + "        ++it;\n")], set()),
    ("d01 ok close indexed", [(D, "    for (typename Iterators::iterator it = iterators_.begin(); it != iterators_.end(); ++it) {\n        rc |= (*it)->close();\n        delete *it;\n    }\n", "    for (size_t i = 0; i < iterators_.size(); ++i) {\n        const int r = iterators_[i]->close();\n        rc          = rc | r;\n        delete iterators_[i];\n    }\n")], set()),
    ("d01 ok name shift", [(D, "fileName.replace(p.startPos - diff,", "fileName.replace(p.startPos + diff,"), (D, "diff = outputFileTemplate_.size() - fileName.size();", "diff = int(fileName.size()) - int(outputFileTemplate_.size());")], set()),
    ("d01 ok name index", [(D, "    for (TemplateParameters::iterator it(templateParameters_.begin()); it != templateParameters_.end(); ++it) {\n        TemplateParameter& p(*(*it));\n", "    for (size_t k = 0; k < templateParameters_.size(); ++k) {\n        TemplateParameter& p(*templateParameters_[k]);\n"), (D, "values[dispatchedIndexes_[it - templateParameters_.begin()]]", "values[dispatchedIndexes_[k]]")], set()),
    ("d01 ok slash loop", [(D, "            while (s.find(\"/\") != std::string::npos) {\n                std::string old(s);\n                size_t pos(s.find(\"/\"));\n", "            for (size_t pos = s.find('/'); pos != std::string::npos; pos = s.find('/')) {\n")], set()),
    ("d01 ok template while", [(T, "        if (l == std::string::npos)\n            break;\n        start    = l;\n        size_t r = t.find(\"}\", start);\n", "        if (l == std::string::npos)\n            return params;\n        size_t r = t.find('}', l + 1);\n")], set()),
    ("d01 ok chunk order", [(S, CHUNK, "            r.emplace_back(currentOffset, currentLength);\n            currentSize   = size;\n            currentLength = length;\n            currentOffset = offset;\n")], set()),
    ("d01 ok tool inline sort", [(S, "    if (sort_)\n        presortAndSplit(inFile, outFileTemplate);\n    else\n        split(inFile, outFileTemplate, maxOpenFiles_, !optionIsSet(\"-no_verification\"));\n", "    const bool check = !optionIsSet(\"-no_verification\");\n    if (!sort_) {\n        split(inFile, outFileTemplate, maxOpenFiles_, check);\n        return;\n    }\n    presortAndSplit(inFile, outFileTemplate);\n")], set()),
    ("d01 ok order sep", [(S, ORDER, "        ss << (i ? \",\" : \"\") << templateParameters[i]->name;\n")], set()),
]
