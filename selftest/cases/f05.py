T = "src/odc/core/Table.cc"
RI = "src/odc/ReaderIterator.cc"
W = "src/odc/WriterBufferingIterator.cc"
EN = "src/odc/core/Encoder.cc"
SD = "src/odc/api/StridedData.h"
X = {"F05"}
DROW = "        for (int col = startCol; col < long(ncols); col++) {\n            if (visitColumn[col]) {\n                decoders[col].get().decode(reinterpret_cast<double*>((*facades[col])[rowCount]));\n                lastDecoded[col] = rowCount;\n            }\n            else {\n                decoders[col].get().skip();\n            }\n        }\n"
FIN = "    for (size_t col = 0; col < ncols; col++) {\n        if (lastDecoded[col] < nrows - 1) {\n            if (visitColumn[col]) {\n                facades[col]->fill(lastDecoded[col], nrows - 1);\n            }\n        }\n        else {\n            break;\n        }\n    }\n"
ENCM = "        uint8_t marker[2]{static_cast<uint8_t>((startCol / 256) % 256), static_cast<uint8_t>(startCol % 256)};\n"
BACK = "        if (lastStartCol > startCol) {\n            for (int col = startCol; col < lastStartCol; col++) {\n                if (visitColumn[col]) {\n                    facades[col]->fill(lastDecoded[col], rowCount - 1);\n                }\n            }\n        }\n"
CASES = [
 ("m-marker-enc", [(EN, "(startCol / 256) % 256", "(startCol / 255) % 256")], X),
 ("m-marker-enc2", [(EN, ENCM, "        uint8_t marker[2]{static_cast<uint8_t>(startCol % 256), static_cast<uint8_t>((startCol / 256) % 256)};\n")], X),
 ("m-marker-w", [(W, "(k / 256) % 256", "(k / 256) % 16")], X),
 ("m-marker-w2", [(W, "static_cast<uint8_t>(k % 256)", "static_cast<uint8_t>(k % 255)")], X),
 ("m-enc-from", [(EN, "        for (size_t col = startCol; col < ncols; col++) {\n            p = coders", "        for (size_t col = startCol ? startCol - 1 : 0; col < ncols; col++) {\n            p = coders")], X),
 ("m-w-from", [(W, "for (size_t i = k; i < columns().size(); ++i) {\n        p = ", "for (size_t i = 0; i < columns().size(); ++i) {\n        p = ")], X),
 ("m-w-size", [(W, "&lastValues_[columnOffsets_[k]], columnByteSizes_[k])", "&lastValues_[columnOffsets_[k]], sizeof(double))")], X),
 ("m-w-copy", [(W, "&values[columnOffsets_[i]], columnByteSizes_[i]);", "&values[columnOffsets_[i]], sizeof(double));")], X),
 ("m-w-last", [(W, "        ::memcpy(&lastValues_[columnOffsets_[i]], &values[columnOffsets_[i]], columnByteSizes_[i]);\n", "        if (columnByteSizes_[i] == sizeof(double))\n            lastValues_[columnOffsets_[i]] = values[columnOffsets_[i]];\n        else\n            ::memcpy(&lastValues_[columnOffsets_[i]], &values[columnOffsets_[k]], columnByteSizes_[i]);\n")], X),
 ("m-enc-first", [(EN, "        if (row != 0) {\n            for", "        if (row != 1) {\n            for")], {"W01"}),
 ("m-isnew-size", [(SD, "get(row - 1), dataSize_) != 0", "get(row - 1), sizeof(double)) != 0")], X),
 ("m-isnew-row", [(SD, "::memcmp(get(row), get(row - 1), dataSize_)", "::memcmp(get(row), get(0), dataSize_)")], X),
 ("m-layout-bytes", [(W, "columns_[i]->dataSizeDoubles() * sizeof(double);", "sizeof(double);")], X),
 ("m-layout-missing", [(W, "nextRow_[offset] = lastValues_[offset] = columns_[i]->missingValue();", "nextRow_[offset] = lastValues_[offset] = 0;")], X),
 ("m-rd-layout-missing", [(RI, "lastValues_[offset] = codecs_[i]->missingValue();", "lastValues_[offset] = 0;")], X),
 ("m-rd-layout-adv", [(RI, "offset += columns()[i]->dataSizeDoubles();", "offset += 1;")], X),
 ("m-rd-marker", [(RI, "int startCol = (marker[0] * 256) + marker[1];", "int startCol = (marker[0] * 255) + marker[1];")], X),
 ("m-rd-marker-order", [(T, "int startCol = (marker[0] * 256) + marker[1];  // Endian independant\n        if (startCol > long(ncols))\n            throw ODBDecodeError(\"Row marker beyond the last column\", Here());\n\n        if (lastStart", "int startCol = marker[0] + marker[1] * 256;\n        if (startCol > long(ncols))\n            throw ODBDecodeError(\"Row marker beyond the last column\", Here());\n\n        if (lastStart")], X),
 ("m-rd-from", [(RI, "for (size_t i = startCol; i < nCols; i++) {\n        codecs_[i]->decode", "for (size_t i = startCol ? startCol : 1; i < nCols; i++) {\n        codecs_[i]->decode")], X),
 ("m-rd-off", [(RI, "codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);", "codecs_[i]->decode(&lastValues_[i]);")], X),
 ("m-rd-check", [(RI, "if (startCol > long(nCols))", "if (startCol > 65000)")], X),
 ("m-t-check", [(T, "        if (startCol > long(ncols))\n            throw ODBDecodeError(\"Row marker beyond the last column\", Here());\n\n        if (lastStart", "        if (startCol > long(ncols) + 1)\n            throw ODBDecodeError(\"Row marker beyond the last column\", Here());\n\n        if (lastStart")], X),
 ("m-t-skip", [(T, "            else {\n                decoders[col].get().skip();\n            }\n        }\n\n        lastStartCol", "            else if (lastDecoded[col] == 0) {\n                decoders[col].get().skip();\n            }\n        }\n\n        lastStartCol")], X),
 ("m-t-lastdecoded", [(T, "                lastDecoded[col] = rowCount;\n            }\n            else {\n                decoders[col].get().skip();\n            }\n        }\n\n        lastStartCol", "            }\n            else {\n                decoders[col].get().skip();\n            }\n            if (col == startCol)\n                lastDecoded[col] = rowCount;\n        }\n\n        lastStartCol")], X),
 ("m-t-laststart", [(T, "        lastStartCol = startCol;\n", "        lastStartCol = std::max(lastStartCol, startCol);\n")], X),
 ("m-t-fillrow", [(T, "fill(lastDecoded[col], rowCount - 1)", "fill(lastDecoded[col], rowCount)")], X),
 ("m-t-fillcols", [(T, "for (int col = startCol; col < lastStartCol; col++) {", "for (int col = startCol + 1; col < lastStartCol; col++) {")], X),
 ("m-t-fillcols2", [(T, "for (int col = startCol; col < lastStartCol; col++) {", "for (int col = startCol; col < lastStartCol - 1; col++) {")], X),
 ("m-t-fillwhen", [(T, "if (lastStartCol > startCol) {", "if (lastStartCol > startCol + 1) {")], X),
 ("m-t-final", [(T, "facades[col]->fill(lastDecoded[col], nrows - 1);", "facades[col]->fill(lastDecoded[col], nrows - 2);")], X),
 ("m-t-final-first", [(T, FIN, FIN.replace("size_t col = 0;", "size_t col = 1;"))], X),
 ("m-t-final-break", [(T, "        if (lastDecoded[col] < nrows - 1) {\n", "        if (lastDecoded[col] < nrows - 1 && visitColumn[col]) {\n")], X),
 ("m-t-initial", [(T, "    for (int col = 0; col < long(ncols); col++) {\n        if (visitColumn[col]) {\n            *reinterpret", "    for (int col = 0; col < long(ncols) - 1; col++) {\n        if (visitColumn[col]) {\n            *reinterpret")], X),
 ("m-s-skip", [(T, "            if (visitColumn[col]) {\n                decoders[col].get().decode(decodeBuffer);\n", "            if (columnValues[col] && rowCount != 0) {\n                decoders[col].get().decode(decodeBuffer);\n")], X),
 ("m-s-add", [(T, "decoders[col].get().decode(decodeBuffer);\n                columnValues[col]->addValue(decodeBuffer);", "decoders[col].get().decode(decodeBuffer);\n                if (col >= startCol + 1 || rowCount == 0)\n                    columnValues[col]->addValue(decodeBuffer);")], X),
 ("m-s-implicit", [(T, "        if (rowCount == 0) {\n            for (int col = 0; col < startCol; col++) {", "        if (rowCount == 0) {\n            for (int col = 1; col < startCol; col++) {")], X),
 ("m-fill-end", [(SD, "reinterpret_cast<uint64_t*>(get(finalRow + 1))", "reinterpret_cast<uint64_t*>(get(finalRow))")], X),
 ("m-fill-strided", [(SD, "p <= end;", "p < end;")], X),
 ("m-fill-general", [(SD, "row <= finalRow; ++row", "row < finalRow; ++row")], X),
 ("m-fill-size", [(SD, "::memcpy(get(row), src, dataSize_);", "::memcpy(get(row), src, sizeof(double));")], X),
 ("m-fill-spec", [(SD, "        if (stride_ == 8) {", "        if (stride_ % 8 == 0) {")], X),
 ("m-header-buffer", [(RI, "        initRowBuffer();\n\n", "        if (headerCounter_ == 1 || !lastValues_)\n            initRowBuffer();\n\n")], X),
 # refactorings
 ("m-refactor-marker", [(T, DROW, DROW.replace("for (int col = startCol; col < long(ncols); col++) {", "for (size_t col = startCol; col != ncols; ++col) {\n            Codec& codec(decoders[col].get());").replace("decoders[col].get().", "codec.")),
   (T, "int startCol = (marker[0] * 256) + marker[1];  // Endian independant\n        if (startCol > long(ncols))\n            throw ODBDecodeError(\"Row marker beyond the last column\", Here());\n\n        if (lastStart", "const int startCol = (marker[0] << 8) | marker[1];\n        if (startCol > long(ncols))\n            throw ODBDecodeError(\"Row marker beyond the last column\", Here());\n\n        if (lastStart")], set()),
 ("m-refactor-back", [(T, BACK, "        for (int col = startCol; col < lastStartCol; col++) {\n            if (!visitColumn[col])\n                continue;\n            auto& facade = *facades[col];\n            facade.fill(lastDecoded[col], rowCount - 1);\n        }\n")], set()),
 ("m-refactor-final", [(T, FIN, "    for (size_t col = 0; col < ncols; ++col) {\n        if (!visitColumn[col])\n            continue;\n        if (lastDecoded[col] + 1 < nrows)\n            facades[col]->fill(lastDecoded[col], nrows - 1);\n    }\n")], set()),
 ("m-refactor-w", [(W, "    uint16_t k = 0;\n    for (; k < columns().size(); ++k) {\n        if (::memcmp(&values[columnOffsets_[k]], &lastValues_[columnOffsets_[k]], columnByteSizes_[k]) != 0)\n            break;\n    }\n", "    const size_t ncols = columns().size();\n    size_t k           = 0;\n    while (k < ncols && ::memcmp(values + columnOffsets_[k], lastValues_ + columnOffsets_[k], columnByteSizes_[k]) == 0)\n        ++k;\n"),
   (W, "    uint8_t marker[2]{static_cast<uint8_t>((k / 256) % 256), static_cast<uint8_t>(k % 256)};\n", "    uint8_t marker[2];\n    marker[0] = static_cast<uint8_t>(k >> 8);\n    marker[1] = static_cast<uint8_t>(k & 0xff);\n")], set()),
 ("m-refactor-first", [(EN, "    for (size_t row = 0; row < nrows; row++) {\n        size_t startCol = 0;\n\n        if (row != 0) {\n            for (; startCol < ncols; ++startCol) {\n                if (sortedData[startCol].isNewValue(row))\n                    break;\n            }\n        }\n", "    auto firstChanged = [&](size_t row) {\n        size_t c = 0;\n        while (c < ncols && !sortedData[c].isNewValue(row))\n            ++c;\n        return c;\n    };\n\n    for (size_t row = 0; row < nrows; ++row) {\n        const size_t startCol = firstChanged(row);\n")], set()),
 ("m-refactor-reader", [(RI, "    for (size_t i = startCol; i < nCols; i++) {\n        codecs_[i]->decode(&lastValues_[columnOffsets_[i]]);\n    }\n", "    size_t i = startCol;\n    while (i < nCols) {\n        double* target = lastValues_ + columnOffsets_[i];\n        codecs_[i]->decode(target);\n        ++i;\n    }\n"),
   (RI, "        codecs_[i]          = &columns()[i]->coder();\n        lastValues_[offset] = codecs_[i]->missingValue();\n        columnOffsets_[i]   = offset;\n        offset += columns()[i]->dataSizeDoubles();\n", "        core::Column& column(*columns()[i]);\n        columnOffsets_[i]   = offset;\n        codecs_[i]          = &column.coder();\n        lastValues_[columnOffsets_[i]] = column.coder().missingValue();\n        offset              = offset + column.dataSizeDoubles();\n")], set()),
 ("m-refactor-fill", [(SD, "            uint64_t src  = *reinterpret_cast<uint64_t*>(get(sourceRow));\n            uint64_t* end = reinterpret_cast<uint64_t*>(get(finalRow));\n            for (uint64_t* p = reinterpret_cast<uint64_t*>(get(sourceRow + 1)); p <= end;\n                 p           = reinterpret_cast<uint64_t*>(reinterpret_cast<char*>(p) + stride_)) {\n                *p = src;\n            }\n", "            const uint64_t src = *reinterpret_cast<uint64_t*>(get(sourceRow));\n            for (int row = sourceRow + 1; row <= finalRow; ++row)\n                *reinterpret_cast<uint64_t*>(get(row)) = src;\n"),
   (SD, "        for (int row = sourceRow + 1; row <= finalRow; ++row) {\n            ::memcpy(get(row), src, dataSize_);\n        }", "        for (int row = sourceRow; row < finalRow; ++row)\n            ::memcpy(get(row + 1), src, dataSize_);")], set()),
]
