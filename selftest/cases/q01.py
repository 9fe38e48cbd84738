C = "src/odc/Comparator.cc"
H = "src/odc/Comparator.h"
T = "src/odc/tools/CompareTool.cc"
K = "src/odc/tools/CompactTool.cc"
Fx = "src/odc/tools/FixedSizeRowTool.cc"
X = {"Q01"}
MISS1 = """                isMissing1                      = (*punned_val1 == *punned_missing1);
"""
NE = """            if (isMissing1 != isMissing2) {
                raiseNotEqual(column, *pdata1, *pdata2);
            }
"""
SAME = "if (!(same(*pdata1, *pdata2) || (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))"
SAMEF = "if (!(same(float(*pdata1), float(*pdata2)) ||"
STR = """                        if (len1 != len2 || ::strncmp(reinterpret_cast<const char*>(pdata1),
                                                      reinterpret_cast<const char*>(pdata2), len1)) {
"""
ADV = """            // throw;
        }

        pdata1 += md1[i]->dataSizeDoubles();
        pdata2 += md2[i]->dataSizeDoubles();
"""
SKIP = """            ++nextSkipCol;
            pdata1 += md1[i]->dataSizeDoubles();
            pdata2 += md2[i]->dataSizeDoubles();
            continue;
"""
EXCL = """            if (excludedColumns.find(column1.name()) != excludedColumns.end()) {
                skipCols.push_back(i);
                continue;
            }
"""
HM = """                if (column1.hasMissing() != column2.hasMissing()) {
"""
ND2 = """        if (it2->isNewDataset())
            compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);
"""
ERR = """        if (fabs(A) <= maxAbsoluteError || fabs(B) <= maxAbsoluteError)
            relativeError = fabs(A - B);
        else if (fabs(B) > fabs(A))
            relativeError = fabs((A - B) / B);
        else
            relativeError = fabs((A - B) / A);
"""
CASES = [
    # rows
    ("q01 second file may have more rows", [(H, """    ASSERT("Second file has more rows!" && !(it2 != end2));
""", "")], X),
    ("q01 first file may have more rows", [(H, """    ASSERT("First file has more rows!" && !(it1 != end1));
""", "")], X),
    ("q01 second advanced twice", [(H, "++it1, ++it2)", "++it1, ++it2, ++it2)")], X),
    ("q01 second not advanced", [(H, "++it1, ++it2)", "++it1)")], X),
    ("q01 row compared with itself", [(H, "it1->columns().size(), it1->data(), it2->data(),", "it1->columns().size(), it1->data(), it1->data(),")], X),
    ("q01 row with first columns twice", [(H, "it2->data(), it1->columns(), it2->columns(), skipCols", "it2->data(), it1->columns(), it1->columns(), skipCols")], X),
    ("q01 layout of second not compared", [(H, ND2, "")], X),
    ("q01 layout compared after row", [(H, ND2 + """
        compare(it1->columns().size(), it1->data(), it2->data(), it1->columns(), it2->columns(), skipCols);
""", """
        compare(it1->columns().size(), it1->data(), it2->data(), it1->columns(), it2->columns(), skipCols);
""" + ND2)], X),
    ("q01 only when both new", [(H, """        if (it1->isNewDataset())
            compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);
        if (it2->isNewDataset())
""", """        if (it1->isNewDataset() && it2->isNewDataset())
""")], X),
    ("q01 exclusions swapped", [(H, "std::set<std::string> excludedColumnsSet(excludedColumns.begin(), excludedColumns.end());", "std::set<std::string> excludedColumnsSet(excludedColumnsTypes.begin(), excludedColumnsTypes.end());")], X),
    ("q01 skip not passed", [(H, "it1->columns(), it2->columns(), skipCols);\n    }", "it1->columns(), it2->columns());\n    }")], X),
    ("q01 initial layout not compared", [(H, """    compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);

    for""", "    for")], X),
    ("q01 early stop", [(H, "        ++nRow_;\n", "        ++nRow_;\n        if (nRow_ > 1000000)\n            return true;\n")], X),
    # layout
    ("q01 column counts", [(C, "(metaData1.size() == metaData2.size())", "(metaData1.size() >= metaData2.size())")], X),
    ("q01 skip not cleared", [(C, "    skipCols.clear();\n", "")], X),
    ("q01 names not compared", [(C, "            ASSERT(column1.name() == column2.name());\n\n", "")], X),
    ("q01 types not compared", [(C, "                ASSERT(column1.type() == column2.type());\n", "")], X),
    ("q01 bitfields not compared", [(C, "if (column1.type() == BITFIELD)", "if (column1.type() == INTEGER)")], X),
    ("q01 bitfield logged only", [(C, "                        ASSERT(column1.bitfieldDef() == column2.bitfieldDef());\n", "")], X),
    ("q01 excluded types inverted", [(C, "excludedColumnsTypes.find(column1.name()) == excludedColumnsTypes.end()", "excludedColumnsTypes.find(column1.name()) != excludedColumnsTypes.end()")], X),
    ("q01 wrong column left out", [(C, "skipCols.push_back(i);", "skipCols.push_back(i + 1);")], X),
    ("q01 excluded columns compared", [(C, EXCL, EXCL.replace("                skipCols.push_back(i);\n", ""))], X),
    ("q01 missing flag inverted", [(C, "if (!skipTestingHaveMissing_) {", "if (skipTestingHaveMissing_) {")], X),
    ("q01 type excluded leaves out the values", [(C, "            if (!skipTestingHaveMissing_) {", "            else\n                skipCols.push_back(i);\n\n            if (!skipTestingHaveMissing_) {")], X),
    ("q01 last column of layout", [(C, "for (size_t i = 0; i < size; i++) {", "for (size_t i = 0; i + 1 < size; i++) {")], X),
    ("q01 layout difference swallowed", [(C, """            Log::info() << "While comparing column " << i << ": " << column1.name() << std::endl;
            throw;
""", """            Log::info() << "While comparing column " << i << ": " << column1.name() << std::endl;
""")], set()),
    # values
    ("q01 missing in one", [(C, NE, "")], X),
    ("q01 missing in either", [(C, "if (!isMissing1 && !isMissing2) {", "if (!isMissing1) {")], set()),
    ("q01 missing or", [(C, "            if (isMissing1 != isMissing2) {", "            if (isMissing1 && !isMissing2) {")], X),
    ("q01 missing value of other", [(C, "double missing2                 = column2.missingValue();", "double missing2                 = column.missingValue();")], X),
    ("q01 missing of value 1 twice", [(C, "const char* punnable_val2       = reinterpret_cast<const char*>(pdata2);", "const char* punnable_val2       = reinterpret_cast<const char*>(pdata1);")], X),
    ("q01 has missing ignored", [(C, "if (column2.hasMissing() || skipTestingHaveMissing_) {", "if (column.hasMissing() || skipTestingHaveMissing_) {")], X),
    ("q01 integers not compared", [(C, "                    case INTEGER:\n                    case BITFIELD:", "                    case INTEGER:\n                        break;\n                    case BITFIELD:")], X),
    ("q01 doubles as floats", [(C, SAME, SAME.replace("same(*pdata1, *pdata2)", "same(float(*pdata1), float(*pdata2))"))], X),
    ("q01 floats as doubles", [(C, SAMEF, "if (!(same(*pdata1, *pdata2) ||")], X),
    ("q01 nan or", [(C, SAME, SAME.replace("NaN_isOK_ && (", "NaN_isOK_ || ("))], X),
    ("q01 one nan", [(C, SAME, SAME.replace("(::isnan(*pdata1) && ::isnan(*pdata2))", "(::isnan(*pdata1) || ::isnan(*pdata2))"))], X),
    ("q01 nan twice same", [(C, SAME, SAME.replace("(::isnan(*pdata1) && ::isnan(*pdata2))", "(::isnan(*pdata1) && ::isnan(*pdata1))"))], X),
    ("q01 text width of other", [(C, "size_t width2 = column2.dataSizeDoubles()", "size_t width2 = column.dataSizeDoubles()")], X),
    ("q01 text only first word", [(C, "size_t width1 = column.dataSizeDoubles() * sizeof(double);", "size_t width1 = sizeof(double);"), (C, "size_t width2 = column2.dataSizeDoubles() * sizeof(double);", "size_t width2 = sizeof(double);")], X),
    ("q01 text length ignored", [(C, "if (len1 != len2 || ::strncmp", "if (::strncmp")], X),
    ("q01 text prefix", [(C, "if (len1 != len2 || ::strncmp", "if (len1 > len2 || ::strncmp")], X),
    ("q01 text equal", [(C, "pdata2), len1)) {", "pdata2), len1) > 0) {")], X),
    ("q01 difference not counted", [(C, "            ++numberOfDifferences;\n", "")], X),
    ("q01 difference of last row only", [(C, "            ++numberOfDifferences;\n", "            numberOfDifferences = (i == nCols - 1);\n")], set()),
    ("q01 more than one", [(C, "    if (numberOfDifferences) {", "    if (numberOfDifferences > 1) {")], X),
    ("q01 advance of one", [(C, ADV, ADV.replace("pdata2 += md2[i]->dataSizeDoubles();", "pdata2++;"))], X),
    ("q01 advance by other width", [(C, ADV, ADV.replace("pdata2 += md2[i]", "pdata2 += md1[i]"))], X),
    ("q01 skipped without advance", [(C, SKIP, SKIP.replace("            pdata2 += md2[i]->dataSizeDoubles();\n", ""))], X),
    ("q01 skip advances one", [(C, SKIP, SKIP.replace("pdata1 += md1[i]->dataSizeDoubles();", "++pdata1;").replace("pdata2 += md2[i]->dataSizeDoubles();", "++pdata2;"))], X),
    ("q01 cursor stuck", [(C, "            ++nextSkipCol;\n", "")], X),
    ("q01 first column unseen", [(C, "for (int i = 0; i < nCols; i++) {", "for (int i = 0; i < nCols - 1; i++) {")], X),
    ("q01 stops after string", [(C, "                            throw ValuesDifferent(ss.str());", "                            Log::error() << ss.str();")], X),
    ("q01 raise does not", [(C, "    throw ValuesDifferent(ss.str());\n}", "    if (type != IGNORE)\n        throw ValuesDifferent(ss.str());\n}")], X),
    # numbers
    ("q01 tolerance", [(H, "const double maxRelativeError = 1e-9;", "const double maxRelativeError = 1e-6;")], X),
    ("q01 smaller of two", [(H, "else if (fabs(B) > fabs(A))", "else if (fabs(B) < fabs(A))")], set()),
    ("q01 infinite values", [(H, "return A == B || err(A, B)", "return err(A, B)")], X),
    ("q01 both small", [(H, "fabs(A) <= maxAbsoluteError || fabs(B) <= maxAbsoluteError", "fabs(A) <= maxAbsoluteError && fabs(B) <= maxAbsoluteError")], X),
    ("q01 signed", [(H, "relativeError = fabs(A - B);", "relativeError = A - B;")], X),
    # tools
    ("q01 tool same file", [(T, "odc::Reader oda2(file2_);", "odc::Reader oda2(file1_);")], X),
    ("q01 tool options swapped", [(T, "file1_, file2_, excludedColumnsTypes, excludedColumns)", "file1_, file2_, excludedColumns, excludedColumnsTypes)")], X),
    ("q01 tool missing inverted", [(T, "odc::Comparator(!checkMissing)", "odc::Comparator(checkMissing)")], X),
    ("q01 tool missing ignored", [(T, "odc::Comparator(!checkMissing)", "odc::Comparator(false)")], X),
    ("q01 tool exclusions ignored", [(T, "file1_, file2_, excludedColumnsTypes, excludedColumns)", "file1_, file2_)")], X),
    ("q01 tool file param", [(T, "    file2_ = parameters()[2];", "    file2_ = parameters()[1];")], X),
    ("q01 tool option unregistered", [(T, '    registerOptionWithArgument("-excludeColumns");\n', "")], X),
    ("q01 wrapper end", [(C, """    odc::Reader::iterator end2(oda2.end());

    compare(it1, end1, it2, end2, p1, p2, excl""", """    odc::Reader::iterator end2(oda1.end());

    compare(it1, end1, it2, end2, p1, p2, excl""")], X),
    ("q01 wrapper handle", [(C, "odc::Reader oda2(r);", "odc::Reader oda2(l);")], X),
    ("q01 wrapper exclusions", [(C, "compare(it1, end1, it2, end2, p1, p2, excludedColumnsTypes, excludedColumns);", "compare(it1, end1, it2, end2, p1, p2, excludedColumns, excludedColumnsTypes);")], X),
    ("q01 compact verifies input", [(K, "odc::Reader outReader(outFile);", "odc::Reader outReader(inFile);")], X),
    ("q01 compact no verify", [(K, "    comparator.compare(it1, end1, it2, end2, inFile, outFile);\n", "")], X),
    ("q01 fix wrong file", [(Fx, "odc::Reader in(inFile);", "odc::Reader in(outFile);")], X),
    # refactorings
    ("q01 ok skip helper", [(C, """    unsigned long long numberOfDifferences(0);
""", """    unsigned long numberOfDifferences = 0;
"""), (C, SKIP, """            ++nextSkipCol;
            pdata1 = pdata1 + md1[i]->dataSizeDoubles();
            pdata2 = pdata2 + md2[i]->dataSizeDoubles();
            continue;
""")], set()),
    ("q01 ok bool flag", [(C, "    unsigned long long numberOfDifferences(0);\n", "    bool different = false;\n"), (C, "            ++numberOfDifferences;\n", "            different = true;\n"), (C, "    if (numberOfDifferences) {", "    if (different) {")], set()),
    ("q01 ok missing helper", [(C, "void Comparator::compare(int nCols, const double* data1, const double* data2, const MetaData& md1, const MetaData& md2,\n                         const std::vector<int>& skipCols) {\n", """namespace {
bool missing(const Column& column, const double* p, bool always) {
    if (!column.hasMissing() && !always)
        return false;
    double m = column.missingValue();
    return *reinterpret_cast<const uint64_t*>(p) == *reinterpret_cast<const uint64_t*>(&m);
}
}  // namespace

void Comparator::compare(int nCols, const double* data1, const double* data2, const MetaData& md1, const MetaData& md2,
                         const std::vector<int>& skipCols) {
"""), (C, """            bool isMissing2 = false;
            if (column2.hasMissing() || skipTestingHaveMissing_) {
                double missing2                 = column2.missingValue();
                const char* punnable_val2       = reinterpret_cast<const char*>(pdata2);
                const char* punnable_missing2   = reinterpret_cast<const char*>(&missing2);
                const uint64_t* punned_val2     = reinterpret_cast<const uint64_t*>(punnable_val2);
                const uint64_t* punned_missing2 = reinterpret_cast<const uint64_t*>(punnable_missing2);
                isMissing2                      = (*punned_val2 == *punned_missing2);
            }
""", "            const bool isMissing2 = missing(column2, pdata2, skipTestingHaveMissing_);\n")], set()),
    ("q01 ok one missing branch", [(C, "            if (!isMissing1 && !isMissing2) {", "            if (!isMissing1) {")], set()),
    ("q01 ok nan first", [(C, SAME, "if (!(NaN_isOK_ && ::isnan(*pdata2) && ::isnan(*pdata1)) && !same(*pdata2, *pdata1))")], set()),
    ("q01 ok memcmp", [(C, STR, """                        const bool equalText = len1 == len2 && ::memcmp(pdata1, pdata2, len1) == 0;
                        if (!equalText) {
""")], set()),
    ("q01 ok string types helper", [(C, EXCL, """            const bool leftOut = excludedColumns.count(column1.name()) != 0;
            if (leftOut) {
                skipCols.emplace_back(static_cast<int>(i));
                continue;
            }
""")], set()),
    ("q01 ok while rows", [(H, "    for (; it1 != end1 && it2 != end2; ++it1, ++it2) {\n", "    while (it1 != end1 && it2 != end2) {\n"), (H, "it1->columns(), it2->columns(), skipCols);\n    }", "it1->columns(), it2->columns(), skipCols);\n        ++it2;\n        ++it1;\n    }")], set()),
    ("q01 ok new layout once", [(H, """        if (it1->isNewDataset())
            compare(it1->columns(), it2->columns(), excludedColumnsTypesSet, excludedColumnsSet, skipCols);
        if (it2->isNewDataset())
""", """        if (it1->isNewDataset() || it2->isNewDataset())
""")], set()),
    ("q01 ok err max", [(H, ERR, """        const double a = fabs(A);
        const double b = fabs(B);
        if (b <= maxAbsoluteError || a <= maxAbsoluteError)
            return fabs(A - B);
        relativeError = fabs(A - B) / (a < b ? b : a);
""")], set()),
    ("q01 ok ends thrown", [(H, """    ASSERT("First file has more rows!" && !(it1 != end1));
    ASSERT("Second file has more rows!" && !(it2 != end2));
""", """    if (it1 != end1 || it2 != end2)
        throw eckit::Exception("The files have different numbers of rows");
""")], set()),
    ("q01 ok tool opt", [(T, """    bool checkMissing = !optionIsSet("-dontCheckMissing");
    odc::Comparator(!checkMissing).compare(""", """    odc::Comparator comparator(optionIsSet("-dontCheckMissing"));
    comparator.compare(""")], set()),
    ("q01 ok tool paths", [(T, """    odc::Reader oda1(file1_);
    odc::Reader oda2(file2_);

    odc::Reader::iterator it1(oda1.begin());
    odc::Reader::iterator end1(oda1.end());
    odc::Reader::iterator it2(oda2.begin());
    odc::Reader::iterator end2(oda2.end());

""", ""), (T, "compare(it1, end1, it2, end2, file1_, file2_, excl", "compare(file1_, file2_, excl")], set()),
    ("q01 ok compact scope", [(K, "    odc::Comparator comparator;\n    comparator.compare(", "    odc::Comparator(false).compare(")], set()),
    ("q01 ok row helper", [(H, """    void raiseNotEqual(const core::Column&, double, double);
""", """    void raiseNotEqual(const core::Column&, double, double);

    template <typename T1, typename T2>
    void compareRow(T1& a, T2& b, const std::vector<int>& skip) {
        ++nRow_;
        compare(a->columns().size(), a->data(), b->data(), a->columns(), b->columns(), skip);
    }
"""), (H, "        ++nRow_;\n\n", ""), (H, "        compare(it1->columns().size(), it1->data(), it2->data(), it1->columns(), it2->columns(), skipCols);\n", "        compareRow(it1, it2, skipCols);\n")], set()),
    ("q01 ok columns local", [(C, """            const Column& column(*md1[i]);
            const Column& column2(*md2[i]);
            ColumnType type(column.type());
""", """            const Column& column  = *md1.at(i);
            const Column& column2 = *md2.at(i);
            const ColumnType type = column.type();
""")], set()),
    ("q01 ok if chain", [(C, """                    case REAL:
                        if (!(same(float(*pdata1), float(*pdata2)) ||
                              (NaN_isOK_ && (::isnan(*pdata1) && ::isnan(*pdata2)))))
                            raiseNotEqual(column, *pdata1, *pdata2);
                        break;
""", """                    case REAL: {
                        const float f1 = float(*pdata1);
                        const float f2 = float(*pdata2);
                        if (same(f1, f2))
                            break;
                        if (NaN_isOK_ && ::isnan(*pdata1) && ::isnan(*pdata2))
                            break;
                        raiseNotEqual(column, *pdata1, *pdata2);
                        break;
                    }
""")], set()),
    ("q01 ok memcpy bits", [(C, """                const char* punnable_val1       = reinterpret_cast<const char*>(pdata1);
                const char* punnable_missing1   = reinterpret_cast<const char*>(&missing1);
                const uint64_t* punned_val1     = reinterpret_cast<const uint64_t*>(punnable_val1);
                const uint64_t* punned_missing1 = reinterpret_cast<const uint64_t*>(punnable_missing1);
                isMissing1                      = (*punned_val1 == *punned_missing1);
""", "                isMissing1 = ::memcmp(pdata1, &missing1, sizeof(missing1)) == 0;\n"), (C, """                const char* punnable_val2       = reinterpret_cast<const char*>(pdata2);
                const char* punnable_missing2   = reinterpret_cast<const char*>(&missing2);
                const uint64_t* punned_val2     = reinterpret_cast<const uint64_t*>(punnable_val2);
                const uint64_t* punned_missing2 = reinterpret_cast<const uint64_t*>(punnable_missing2);
                isMissing2                      = (*punned_val2 == *punned_missing2);
""", "                uint64_t bits2, missingBits2;\n                ::memcpy(&bits2, pdata2, sizeof(bits2));\n                ::memcpy(&missingBits2, &missing2, sizeof(missingBits2));\n                isMissing2 = bits2 == missingBits2;\n")], set()),
    ("q01 ok find skip", [(C, "        if (nextSkipCol != skipCols.end() && (*nextSkipCol) == i) {\n            ++nextSkipCol;\n", "        if (std::find(skipCols.begin(), skipCols.end(), i) != skipCols.end()) {\n"), (C, "    std::vector<int>::const_iterator nextSkipCol = skipCols.begin();\n", ""), (C, "#include <string.h>\n", "#include <string.h>\n#include <algorithm>\n")], set()),
    ("q01 ok string objects", [(C, STR, """                        const std::string s1(reinterpret_cast<const char*>(pdata1), len1);
                        const std::string s2(reinterpret_cast<const char*>(pdata2), len2);
                        if (s1 != s2) {
""")], set()),
    ("q01 ok index cursor", [(C, "        if (nextSkipCol != skipCols.end() && (*nextSkipCol) == i) {\n            ++nextSkipCol;\n", "        if (nextSkip < skipCols.size() && skipCols[nextSkip] == i) {\n            ++nextSkip;\n"), (C, "    std::vector<int>::const_iterator nextSkipCol = skipCols.begin();\n", "    size_t nextSkip = 0;\n")], set()),
    ("q01 ok no exceptions", [(C, """                            std::ostringstream ss;
                            ss << "String values differ in column " << column.name() << ": "
                               << std::string(reinterpret_cast<const char*>(pdata1), len1) << " is not equal to "
                               << std::string(reinterpret_cast<const char*>(pdata2), len2) << std::endl;
                            throw ValuesDifferent(ss.str());
""", """                            Log::info() << "String values differ in column " << column.name() << std::endl;
                            ++numberOfDifferences;
""")], set()),
    ("q01 ok width first", [(C, "        // Skip the specified columns\n", "        const size_t w1 = md1[i]->dataSizeDoubles();\n        const size_t w2 = md2[i]->dataSizeDoubles();\n"), (C, SKIP, "            ++nextSkipCol;\n            pdata1 += w1;\n            pdata2 += w2;\n            continue;\n"), (C, ADV, "            // throw;\n        }\n\n        pdata1 += w1;\n        pdata2 += w2;\n")], set()),
    ("q01 ok value method", [(C, "                    case INTEGER:\n                    case BITFIELD:\n                    case DOUBLE:\n                        " + SAME + "\n                            raiseNotEqual(column, *pdata1, *pdata2);", "                    case INTEGER:\n                    case BITFIELD:\n                    case DOUBLE:\n                        if (!equalValues(*pdata1, *pdata2))\n                            raiseNotEqual(column, *pdata1, *pdata2);"),
        (H, "    void raiseNotEqual(const core::Column&, double, double);\n", "    void raiseNotEqual(const core::Column&, double, double);\n    bool equalValues(double a, double b) const { return same(a, b) || (NaN_isOK_ && a != a && b != b); }\n")], set()),
]
