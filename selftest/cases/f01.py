H = "src/odc/core/Header.cc"
C = "src/odc/core/Codec.h"
CO = "src/odc/core/Column.h"
ST = "src/odc/codec/String.h"
K = "src/odc/codec/Constant.h"
D = "src/odc/core/DataStream.h"
CASES = [
 ("f01-minmax", [(C, "        ds.read(min_);\n        ds.read(max_);", "        ds.read(max_);\n        ds.read(min_);")], {"F01"}),
 ("f01-bitfield-guard", [(CO, "    ds.read(type_);\n    if (type_ == api::BITFIELD) {", "    ds.read(type_);\n    if (type_ == api::BITFIELD || type_ == api::INTEGER) {")], {"F01"}),
 ("f01-rows-first", [(H, "            ds.write(static_cast<int64_t>(dataSize));    // Reserved: nextFrameOffset\n            ds.write(static_cast<int64_t>(0));           // Reserved: prevFrameOffset\n            ds.write(static_cast<int64_t>(rowsNumber));  // num. rows", "            ds.write(static_cast<int64_t>(rowsNumber));\n            ds.write(static_cast<int64_t>(0));\n            ds.write(static_cast<int64_t>(dataSize));")], {"F01"}),
 ("f01-props-order", [(H, "            ds.write(flags);\n\n            ds.write(properties);", "            ds.write(properties);\n            ds.write(flags);")], {"F01"}),
 ("f01-magic", [(H, 'magic != "\\xff\\xffODA"', 'magic != "\\xfe\\xffODA"')], {"F01"}),
 ("f01-cnt-index", [(ST, """            ds.write(static_cast<int32_t>(0));  // "cnt" field is not used.
            ds.write(static_cast<int32_t>(i));""", """            ds.write(static_cast<int32_t>(i));
            ds.write(static_cast<int32_t>(0));""")], {"F01"}),
 ("f01-conststring-swap", [(K, "    core::DataStreamCodec<ByteOrder>::load(ds);\n    ByteOrder::swap(this->min_);\n    ByteOrder::swap(this->max_);", "    core::DataStreamCodec<ByteOrder>::load(ds);\n    ByteOrder::swap(this->min_);")], {"F01"}),
 ("f01-conststring-restore", [(K, "    core::DataStreamCodec<ByteOrder>::save(ds);\n    ByteOrder::swap(this->min_);\n    ByteOrder::swap(this->max_);", "    core::DataStreamCodec<ByteOrder>::save(ds);\n    ByteOrder::swap(this->max_);")], {"F01"}),
 ("f01-minor", [(H, "formatVersionMinor > 3", "formatVersionMinor > 5")], {"F01"}),
 ("f01-string-len16", [(D, "    int32_t len = s.length();\n    write(len);", "    int16_t len = s.length();\n    write(len);")], {"F01"}),
 ("f01-order-select", [(H, "if (byteOrder_ != BYTE_ORDER_INDICATOR) {", "if (byteOrder_ == BYTE_ORDER_INDICATOR) {")], {"F01"}),
 ("f01-refactor", [(H, "            ds.write(static_cast<int64_t>(dataSize));    // Reserved: nextFrameOffset\n            ds.write(static_cast<int64_t>(0));           // Reserved: prevFrameOffset\n            ds.write(static_cast<int64_t>(rowsNumber));  // num. rows",
   "            const int64_t words[3] = {int64_t(dataSize), 0, int64_t(rowsNumber)};\n            ds.write(words[0]); ds.write(words[1]); ds.write(words[2]);"),
   (H, "    ds1.read(headerDigest);\n\n    int32_t headerSize;\n    ds1.read(headerSize);", "    int32_t headerSize = 0;\n    ds1.read(headerDigest);\n    ds1.read(headerSize);"),
   (CO, "    if (type_ == api::BITFIELD) {", "    const bool isbf = (type_ == api::BITFIELD);\n    if (isbf) {"),
   (C, "        ds.write(hasMissing_);\n        ds.write(min_);", "        saveHead(ds);"),
   (C, "    // n.b. ds_ MUST be", "    void saveHead(DataStream<ByteOrder>& out) { out.write(hasMissing_); out.write(min_); }\n    // n.b. ds_ MUST be"),
   ], set()),
]
