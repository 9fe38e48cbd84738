T = "src/odc/core/TablesReader.cc"
S = "src/odc/core/ThreadSharedDataHandle.cc"
SH = "src/odc/core/ThreadSharedDataHandle.h"
F = "src/odc/core/CodecFactory.cc"
FH = "src/odc/core/CodecFactory.h"
O = "src/odc/api/Odb.cc"
TB = "src/odc/core/Table.cc"
TBH = "src/odc/core/Table.h"
SD = "src/odc/api/StridedData.h"
DT = "src/odc/core/DecodeTarget.cc"
CO = "src/odc/codec/CodecOptimizer.cc"
A = "src/odc/api/odc.cc"
X = {"C01"}
LK = "    std::lock_guard<std::mutex> lock(internal_->m_);\n"
READ = """    ASSERT(internal_);
    std::lock_guard<std::mutex> lock(internal_->m_);

    if (position_ != internal_->dh_->position()) {
        internal_->dh_->seek(position_);
    }

    long delta = internal_->dh_->read(buffer, length);
    position_ += delta;
    return delta;
"""
LAUNCH = """            std::mutex guard_mutex;
            std::vector<std::future<void>> threads;
            size_t next_frame = 0;
"""
TAKE = """                        size_t frame;

                        {
                            std::lock_guard<std::mutex> guard(guard_mutex);
                            if (next_frame < tables_.size()) {
                                frame = next_frame++;
                            }
                            else {
                                return;
                            }
                        }
"""
JOIN = """            for (auto& thread : threads) {
                thread.get();
            }
"""
CASES = [
 ("c-read-nolock", [(S, READ, READ.replace(LK, ""))], X),
 ("c-read-seek-outside", [(S, READ, READ.replace(LK + "\n", "").replace("    long delta =", LK + "    long delta ="))], X),
 ("c-read-early-release", [(S, READ, READ.replace(LK + "\n    if (position_ != internal_->dh_->position()) {\n        internal_->dh_->seek(position_);\n    }\n", "    {\n    " + LK + "        if (position_ != internal_->dh_->position())\n            internal_->dh_->seek(position_);\n    }\n"))], X),
 ("c-read-unlock", [(S, READ, READ.replace("std::lock_guard<std::mutex> lock(internal_->m_)", "std::unique_lock<std::mutex> lock(internal_->m_)").replace("    long delta", "    lock.unlock();\n    long delta"))], X),
 ("c-read-defer", [(S, READ, READ.replace("std::lock_guard<std::mutex> lock(internal_->m_)", "std::unique_lock<std::mutex> lock(internal_->m_, std::defer_lock)"))], X),
 ("c-read-temp", [(S, READ, READ.replace("std::lock_guard<std::mutex> lock(internal_->m_);", "std::lock_guard<std::mutex>{internal_->m_};"))], X),
 ("c-own-mutex", [(S, READ, READ.replace(LK, "    static std::mutex own;\n    std::lock_guard<std::mutex> lock(own);\n"))], X),
 ("c-close-nolock", [(S, LK + "    internal_->dh_->close();", "    internal_->dh_->close();")], X),
 ("c-ensure-nolock", [(T, "    std::lock_guard<std::mutex> lock(m_);\n\n    ASSERT(idx >= 0);\n    ASSERT(idx <= long(tables_.size()));", "    ASSERT(idx >= 0);\n    ASSERT(idx <= long(tables_.size()));")], X),
 ("c-ensure-check-first", [(T, "    std::lock_guard<std::mutex> lock(m_);\n\n    ASSERT(idx >= 0);\n    ASSERT(idx <= long(tables_.size()));\n", "    ASSERT(idx >= 0);\n    if (idx < long(tables_.size()))\n        return true;\n    std::lock_guard<std::mutex> lock(m_);\n    ASSERT(idx <= long(tables_.size()));\n")], X),
 ("c-get-nolock", [(T, "Table& TablesReader::getTable(long idx) {\n\n    std::lock_guard<std::mutex> lock(m_);\n\n", "Table& TablesReader::getTable(long idx) {\n\n")], X),
 ("c-relock", [(T, "Table& TablesReader::getTable(long idx) {\n\n    std::lock_guard<std::mutex> lock(m_);\n\n", "Table& TablesReader::getTable(long idx) {\n\n    std::lock_guard<std::mutex> lock(m_);\n    ASSERT(ensureTable(idx));\n")], X),
 ("c-factory-nolock", [(F, "    std::lock_guard<std::mutex> lock(m_);\n\n    ASSERT(builders_.find(name) == builders_.end());", "    ASSERT(builders_.find(name) == builders_.end());")], X),
 ("c-static-scratch", [(TB, "Buffer Table::readEncodedData(bool includeHeader) {\n", "Buffer Table::readEncodedData(bool includeHeader) {\n    static long reads;\n    ++reads;\n")], X),
 ("c-static-lookup", [(TB, "    size_t ncols = metadata.size();\n\n    const std::map<std::string, size_t>& columnLookup(", "    size_t ncols = metadata.size();\n    static std::vector<size_t> scratch;\n    scratch.resize(ncols);\n\n    const std::map<std::string, size_t>& columnLookup(")], X),
 ("c-shared-handle", [(TBH, "    ThreadSharedDataHandle dh_;", "    ThreadSharedDataHandle& dh_;"), (TBH, "Table(const ThreadSharedDataHandle& dh)", "Table(ThreadSharedDataHandle& dh)"), (TB, "Table(const ThreadSharedDataHandle& dh)", "Table(ThreadSharedDataHandle& dh)")], X),
 ("c-take-late", [(O, TAKE, "                        size_t frame;\n                        {\n                            std::lock_guard<std::mutex> guard(guard_mutex);\n                            frame = next_frame;\n                        }\n                        if (frame >= tables_.size())\n                            return;\n                        {\n                            std::lock_guard<std::mutex> guard(guard_mutex);\n                            next_frame = frame + 1;\n                        }\n")], X),
 ("c-take-nolock", [(O, "                            std::lock_guard<std::mutex> guard(guard_mutex);\n", "")], X),
 ("c-take-ownlock", [(O, "                            std::lock_guard<std::mutex> guard(guard_mutex);\n", "                            std::mutex own;\n                            std::lock_guard<std::mutex> guard(own);\n")], X),
 ("c-skip-first", [(O, "frame = next_frame++;", "frame = ++next_frame;\n                                if (frame == tables_.size())\n                                    return;")], X),
 ("c-step", [(O, "frame = next_frame++;", "frame = next_frame;\n                                next_frame += 2;")], X),
 ("c-stop-early", [(O, "if (next_frame < tables_.size()) {", "if (next_frame + 1 < tables_.size()) {")], X),
 ("c-start", [(O, "size_t next_frame = 0;", "size_t next_frame = 1;")], X),
 ("c-one-each", [(O, "tables_[frame].decode(targets[frame]);\n", "tables_[frame].decode(targets[frame]);\n                        if (tables_.size() <= nthreads) return;\n")], X),
 ("c-wait", [(O, "thread.get();", "thread.wait();")], X),
 ("c-nojoin", [(O, JOIN, "")], X),
 ("c-join-some", [(O, "            for (auto& thread : threads) {\n                thread.get();", "            for (auto& thread : threads) {\n                if (next_frame < tables_.size())\n                    thread.get();")], X),
 ("c-clear-early", [(O, "            // Waits for the threads.", "            targets.clear();\n            // Waits for the threads.")], X),
 ("c-lifetime", [(O, LAUNCH, LAUNCH.replace("            std::vector<std::future<void>> threads;\n", "")), (O, "        std::vector<core::DecodeTarget> targets;\n", "        std::vector<std::future<void>> threads;\n        std::vector<core::DecodeTarget> targets;\n")], X),
 ("c-nthreads0", [(O, "if (nthreads <= 1) {\n                t.decode", "if (nthreads == 1) {\n                t.decode")], X),
 ("c-nthreads2", [(O, "if (nthreads > 1) {", "if (nthreads > 2) {")], X),
 ("c-rows-order", [(O, "            rowOffset += rows;\n        }\n\n        if (nthreads > 1)", "            rowOffset = rows;\n        }\n\n        if (nthreads > 1)")], X),
 ("c-slice-offset", [(SD, "return StridedDataT<value_type>(get(rowOffset), nrows, dataSize_, stride_);", "return StridedDataT<value_type>(data_ + rowOffset * dataSize_, nrows, dataSize_, stride_);")], X),
 ("c-slice-facade", [(DT, "newFacades.emplace_back(facade.slice(rowOffset, nrows));", "newFacades.emplace_back(facade.slice(newFacades.empty() ? rowOffset : 0, nrows));")], X),
 ("c-default-codec", [(CO, "    std::lock_guard<std::mutex> lock(m);\n", "")], X),
 ("c-default-insert", [("src/odc/codec/CodecOptimizer.h", "        auto it = defaultCodec_.find(col.type());\n        std::string codec(it == defaultCodec_.end() ? std::string() : it->second);\n", "        std::string codec(defaultCodec_[col.type()]);\n")], X),
 ("c-error-string", [(A, "static thread_local std::string g_current_error_str", "static std::string g_current_error_str")], X),
 # refactorings
 ("c-refactor-unique-lock", [(S, READ, READ.replace("std::lock_guard<std::mutex> lock(internal_->m_);", "std::unique_lock<std::mutex> lock(internal_->m_);").replace("    position_ += delta;", "    lock.unlock();\n    position_ += delta;"))], set()),
 ("c-refactor-scoped", [(S, READ, READ.replace("std::lock_guard<std::mutex> lock(internal_->m_);", "std::scoped_lock lock{internal_->m_};"))], set()),
 ("c-refactor-helper", [(S, "long ThreadSharedDataHandle::read(void* buffer", "static long positioned(eckit::DataHandle& dh, eckit::Offset at, void* buffer, long length) {\n    if (dh.position() != at)\n        dh.seek(at);\n    return dh.read(buffer, length);\n}\n\nlong ThreadSharedDataHandle::read(void* buffer"),
   (S, "    if (position_ != internal_->dh_->position()) {\n        internal_->dh_->seek(position_);\n    }\n\n    long delta = internal_->dh_->read(buffer, length);\n", "    const long delta = positioned(*internal_->dh_, position_, buffer, length);\n")], set()),
 ("c-refactor-manual", [(T, "Table& TablesReader::getTable(long idx) {\n\n    std::lock_guard<std::mutex> lock(m_);\n\n    ASSERT(idx >= 0);\n    ASSERT(idx < long(tables_.size()));\n\n    return *tables_[idx];\n", "Table& TablesReader::getTable(long idx) {\n\n    Table* t = nullptr;\n    {\n        std::lock_guard<std::mutex> lock(m_);\n        ASSERT(idx >= 0 && size_t(idx) < tables_.size());\n        t = tables_[idx].get();\n    }\n    return *t;\n")], set()),
 ("c-refactor-take", [(O, TAKE, "                        size_t frame = 0;\n                        {\n                            std::unique_lock<std::mutex> guard(guard_mutex);\n                            frame = next_frame;\n                            if (frame >= tables_.size())\n                                break;\n                            next_frame = frame + 1;\n                        }\n")], set()),
 ("c-refactor-atomic", [(O, LAUNCH, LAUNCH.replace("std::mutex guard_mutex;", "const size_t nframes = tables_.size();").replace("size_t next_frame = 0;", "std::atomic<size_t> next_frame{0};")), (O, TAKE, "                        const size_t frame = next_frame.fetch_add(1);\n                        if (frame >= nframes)\n                            return;\n"), (O, "#include <future>\n", "#include <atomic>\n#include <future>\n")], set()),
 ("c-refactor-for", [(O, JOIN, "            for (size_t i = 0; i < threads.size(); ++i)\n                threads[i].get();\n")], set()),
 ("c-refactor-split", [(O, "            core::DecodeTarget&& subTarget(target.slice(rowOffset, rows));\n            if (nthreads <= 1) {\n                t.decode(subTarget);\n            }\n            else {\n                targets.emplace_back(subTarget);\n            }\n", "            targets.push_back(target.slice(rowOffset, rows));\n"),
   (O, "        if (nthreads > 1) {\n", "        if (nthreads <= 1) {\n            for (size_t i = 0; i < tables_.size(); ++i)\n                core::Table(tables_[i]).decode(targets[i]);\n        }\n        else {\n".replace("core::Table(tables_[i])", "tables_[i]"))], set()),
 ("c-refactor-slice", [(SD, "        ASSERT(rowOffset + nrows <= nelem_);\n        return StridedDataT<value_type>(get(rowOffset), nrows, dataSize_, stride_);\n    }\n\n    StridedDataT<value_type> slice(size_t rowOffset, size_t nrows) const", "        ASSERT(nrows <= nelem_ && rowOffset <= nelem_ - nrows);\n        auto* start = data_ + stride_ * rowOffset;\n        return StridedDataT<value_type>(start, nrows, dataSize_, stride_);\n    }\n\n    StridedDataT<value_type> slice(size_t rowOffset, size_t nrows) const")], set()),
]
