O = "src/odc/codec/CodecOptimizer.h"
OC = "src/odc/codec/CodecOptimizer.cc"
C = "src/odc/core/Codec.cc"
I = "src/odc/codec/Integer.h"
RL = "src/odc/codec/Real.h"
S = "src/odc/codec/String.h"
CO = "src/odc/core/Column.h"
FA = "src/odc/core/CodecFactory.h"
K = "src/odc/codec/Constant.h"
X = {"F03"}
RINT = "                col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));\n                col.hasMissing(hasMissing);\n                col.missingValue(missing);\n                col.min(min);\n                col.max(max);\n                // LOG << (col.type() == BITFIELD"
CASES = [
 ("c-int8m-bound", [(O, "else if (n < 0xff)\n                        codec = \"int8_missing\"", "else if (n <= 0xff)\n                        codec = \"int8_missing\"")], X),
 ("c-int16m-bound", [(O, "else if (n < 0xffff)\n", "else if (n <= 0xffff)\n")], X),
 ("c-int8-bound", [(O, "else if (n <= 0xff)\n", "else if (n <= 0x100)\n")], X),
 ("c-int16-bound", [(O, "else if (n <= 0xffff)\n", "else if (n <= 0x10000)\n")], X),
 ("c-overflow", [(O, "n = max - min < 0x10000 ? max - min : 0x10000;", "n = max - min;")], X),
 ("c-missing-swapped", [(O, "                if (col.hasMissing()) {\n                    if (n == 0)", "                if (!col.hasMissing()) {\n                    if (n == 0)")], X),
 ("c-const-missing", [(O, "                if (max == min)\n                    codec = col.hasMissing() ? \"real_constant_or_missing\" : \"constant\";", "                if (max == min)\n                    codec = \"constant\";")], X),
 ("c-double-short", [(OC, "defaultCodec_[api::DOUBLE]   = \"long_real\"", "defaultCodec_[api::DOUBLE]   = \"short_real2\"")], X),
 ("c-int8-string", [(O, "else if (n < 256)", "else if (n <= 257)")], X),
 ("c-string-wide", [(O, "n == 1 && col.coder().dataSizeDoubles() == 1", "n == 1")], X),
 ("c-short-real", [(O, "else if (codec_long->hasShortReal2InternalMissing()) {\n                    ASSERT(!codec_long->hasShortRealInternalMissing());", "else if (codec_long->hasShortReal2InternalMissing()) {")], X),
 ("c-short-real2", [(O, "else if (codec_long->hasShortReal2InternalMissing()) {", "else if (codec_long->hasShortReal2InternalMissing() && min < 0 && hasMissing) {")], X),
 ("c-restore-min", [(O, RINT, RINT.replace("                col.min(min);\n", ""))], X),
 ("c-restore-missing-order", [(O, RINT, RINT.replace("                col.missingValue(missing);\n", "").replace("col.max(max);\n", "col.max(max);\n                col.missingValue(missing);\n"))], X),
 ("c-restore-swapped", [(O, RINT, RINT.replace("col.min(min)", "col.min(max)"))], X),
 ("c-restore-new", [(O, RINT, RINT.replace("col.max(max)", "col.max(col.max())"))], X),
 ("c-no-width", [(O, "newCodec->dataSizeDoubles(col.coder().dataSizeDoubles());", "")], X),
 ("c-no-strings", [(O, "newCodec->copyStrings(col.coder());", "")], X),
 ("c-stats-else", [(C, "        if (v > max_ || max_ == missingValue_)", "        else if (v > max_ || max_ == missingValue_)")], X),
 ("c-stats-min", [(C, "if (v < min_ || min_ == missingValue_)", "if (v < min_)")], X),
 ("c-stats-missing", [(C, "    if (v == missingValue_) {\n        hasMissing_ = 1;", "    if (v == missingValue_) {\n        hasMissing_ = min_ != missingValue_;")], X),
 ("c-stats-nan", [(C, "    else if (v != v) {\n        // A NaN is outside any range: a column containing one is not constant\n        if (min_ == max_)\n            min_ = max_ = v;\n    }\n", "")], X),
 ("c-typed", [(I, "        const ValueType& val(reinterpret_cast<const ValueType&>(v));\n        core::Codec::gatherStats(val);", "        core::Codec::gatherStats(v);")], X),
 ("c-sentinel", [(RL, "reinterpret_cast<const float&>(real2MissingAsInt);\n        if (s ==", "reinterpret_cast<const float&>(maxFloatAsInt);\n        if (s ==")], X),
 ("c-sentinel-double", [(RL, "float s                    = v;", "double s                    = v;")], X),
 ("c-narrow", [(I, "        ASSERT(\"Value out of range of the integer codec\" && val >= std::numeric_limits<InternalValueType>::min() &&\n               val <= std::numeric_limits<InternalValueType>::max());\n", "")], X),
 ("c-strings-index", [(S, "        size_t index = strings_.size();\n        strings_.push_back(s);\n", "        strings_.push_back(s);\n        size_t index = strings_.size();\n")], X),
 ("c-strings-len", [(S, "    size_t len = ::strnlen(reinterpret_cast<const char*>(&v), decodedSizeDoubles_ * sizeof(double));", "    size_t len = ::strnlen(reinterpret_cast<const char*>(&v), sizeof(double));")], X),
 ("c-builder-other", [(FA, "return std::unique_ptr<Codec>(new CODEC_T<OtherByteOrder, int64_t>(type));", "return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, int64_t>(type));")], X),
 ("c-builder-type", [(FA, "make(const OtherByteOrder&, api::ColumnType type) const override {\n        if ((type == api::INTEGER || type == api::BITFIELD) &&", "make(const OtherByteOrder&, api::ColumnType type) const override {\n        if ((type == api::INTEGER) &&")], X),
 ("c-first", [(CO, "        case DOUBLE:\n            codecName = \"long_real\";", "        case DOUBLE:\n            codecName = \"short_real2\";")], X),
 ("c-reset-size", [(CO, "    dataSizeDoubles(ds);\n", "")], X),
 # refactorings
 ("c-refactor-helper", [(O, "template <typename ByteOrder>\nint CodecOptimizer", "static inline std::string integerCodec(bool missing, double range) {\n    if (missing) {\n        return range < 1 ? \"constant_or_missing\" : range < 0xff ? \"int8_missing\" : range < 0xffff ? \"int16_missing\" : \"int32\";\n    }\n    if (range < 1) return \"constant\";\n    if (range < 256) return \"int8\";\n    if (range < 65536) return \"int16\";\n    return \"int32\";\n}\n\ntemplate <typename ByteOrder>\nint CodecOptimizer"),
   (O, "                if (col.hasMissing()) {\n                    if (n == 0)\n                        codec = \"constant_or_missing\";\n                    else if (n < 0xff)\n                        codec = \"int8_missing\";\n                    else if (n < 0xffff)\n                        codec = \"int16_missing\";\n                }\n                else {\n                    if (n == 0)\n                        codec = \"constant\";\n                    else if (n <= 0xff)\n                        codec = \"int8\";\n                    else if (n <= 0xffff)\n                        codec = \"int16\";\n                }\n", "                codec = integerCodec(col.hasMissing(), max - min);\n")], set()),
 ("c-refactor-flat", [(O, "                if (col.hasMissing()) {\n                    if (n == 0)\n                        codec = \"constant_or_missing\";\n                    else if (n < 0xff)\n                        codec = \"int8_missing\";\n                    else if (n < 0xffff)\n                        codec = \"int16_missing\";\n                }\n", "                if (hasMissing && n == 0)\n                    codec = \"constant_or_missing\";\n                else if (hasMissing && n < 0xff)\n                    codec = \"int8_missing\";\n                else if (hasMissing && n < 0xffff)\n                    codec = \"int16_missing\";\n                else if (hasMissing)\n                    ;\n")], set()),
 ("c-refactor-restore", [(O, "template <typename ByteOrder>\nint CodecOptimizer", "static inline void restoreStats(core::Column& c, bool h, double m, double lo, double hi) {\n    c.missingValue(m);\n    c.hasMissing(h);\n    c.max(hi);\n    c.min(lo);\n}\n\ntemplate <typename ByteOrder>\nint CodecOptimizer"),
   (O, RINT, "                col.coder(core::CodecFactory::instance().build<ByteOrder>(codec, col.type()));\n                restoreStats(col, hasMissing, missing, min, max);\n                // LOG << (col.type() == BITFIELD")], set()),
 ("c-refactor-stats", [(C, "        if (v < min_ || min_ == missingValue_)\n            min_ = v;\n        if (v > max_ || max_ == missingValue_)\n            max_ = v;\n", "        const bool first = (min_ == missingValue_);\n        if (first || !(min_ <= v))\n            min_ = v;\n        if (max_ == missingValue_ || max_ < v)\n            max_ = v;\n")], set()),
 ("c-refactor-stats2", [(C, "    if (v == missingValue_) {\n        hasMissing_ = 1;\n    }\n    else if (v != v)", "    if (v == missingValue_) {\n        hasMissing_ = 1;\n        return;\n    }\n    if (std::isnan(v))"), (C, "#include \"odc/core/Codec.h\"\n", "#include \"odc/core/Codec.h\"\n#include <cmath>\n")], set()),
 ("c-refactor-table", [(S, "    if (stringLookup_.find(s) == stringLookup_.end()) {\n        size_t index = strings_.size();\n        strings_.push_back(s);\n        stringLookup_[s] = index;\n    }\n", "    if (stringLookup_.count(s) == 0) {\n        stringLookup_[s] = strings_.size();\n        strings_.push_back(s);\n    }\n")], set()),
 ("c-refactor-emplace", [(S, "    if (stringLookup_.find(s) == stringLookup_.end()) {\n        size_t index = strings_.size();\n        strings_.push_back(s);\n        stringLookup_[s] = index;\n    }\n", "    if (stringLookup_.emplace(s, strings_.size()).second)\n        strings_.push_back(s);\n")], set()),
 ("c-refactor-cstr", [(O, "                if (max == min)\n                    codec = col.hasMissing() ? \"real_constant_or_missing\" : \"constant\";\n", "                if (max == min && hasMissing)\n                    codec = \"real_constant_or_missing\";\n                else if (max == min)\n                    codec = \"constant\";\n")], set()),
 ("c-refactor-string-flag", [(O, "                if (codec == \"constant_string\") {\n                    ASSERT(col.coder().dataSizeDoubles() == 1);\n                }\n                else {", "                const bool inHeader = (codec == \"constant_string\");\n                if (!inHeader) {")], set()),
 ("c-refactor-builder", [(FA, "    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type) const override {\n        if ((type == api::INTEGER || type == api::BITFIELD) && !ODBAPISettings::instance().integersAsDoubles()) {\n            return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, int64_t>(type));\n        }\n        else {\n            return std::unique_ptr<Codec>(new CODEC_T<SameByteOrder, double>(type));\n        }\n", "    static bool asIntegers(api::ColumnType type) {\n        switch (type) {\n            case api::INTEGER:\n            case api::BITFIELD:\n                return !ODBAPISettings::instance().integersAsDoubles();\n            default:\n                return false;\n        }\n    }\n    std::unique_ptr<Codec> make(const SameByteOrder&, api::ColumnType type) const override {\n        if (!asIntegers(type))\n            return std::make_unique<CODEC_T<SameByteOrder, double>>(type);\n        return std::make_unique<CODEC_T<SameByteOrder, int64_t>>(type);\n")], set()),
]
