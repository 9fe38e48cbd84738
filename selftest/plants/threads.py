from importlib.util import spec_from_file_location, module_from_spec
import os
_s = spec_from_file_location("read", os.path.dirname(os.path.abspath(__file__)) + "/read.py"); _m = module_from_spec(_s); _s.loader.exec_module(_m)
CPP = _m.CPP + r'''
#include <atomic>
#include <chrono>
#include <thread>
#include "eckit/io/DataHandle.h"
#include "odc/api/Odb.h"
#include "odc/core/ThreadSharedDataHandle.h"
// data in memory, read slowly
struct Slow : public eckit::DataHandle {
    std::vector<char> b; std::atomic<long> at{0}, inside{0}, clash{0}; std::atomic<int> ms{0}, readms{0};
    std::atomic<long> failAt{-1};
    explicit Slow(const std::vector<char>& v) : b(v) {}
    void enter(int n) { if (inside++ != 0) ++clash; if (n) std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
    void print(std::ostream& s) const override { s << "Slow"; }
    eckit::Length openForRead() override { return eckit::Length(b.size()); }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    long read(void* p, long n) override { enter(readms); long a = at; if (failAt >= 0 && a >= failAt) { --inside; throw eckit::ReadError("device failed"); }
        long k = std::min<long>(n, b.size() - a); memcpy(p, b.data() + a, k); at = a + k; --inside; return k; }
    long write(const void*, long) override { return -1; }
    void close() override {}
    eckit::Length estimate() override { return eckit::Length(b.size()); }
    eckit::Length size() override { return eckit::Length(b.size()); }
    eckit::Offset position() override { return eckit::Offset(long(at)); }
    eckit::Offset seek(const eckit::Offset& o) override { enter(ms); at = (long long)o; --inside; return o; }
    bool canSeek() const override { return true; }
    std::string name() const override { return "slow"; }
};
static std::vector<double> rowsOf(int n) { std::vector<double> v; for (int i = 0; i < n; ++i) { v.push_back(i + 0.5); v.push_back(i * 3.25); } return v; }
static std::vector<Col> two() { return {{"a", ODC_DOUBLE, 8}, {"b", ODC_DOUBLE, 8}}; }
'''
T = "src/odc/core/Table.cc"
O = "src/odc/api/Odb.cc"
S = "src/odc/core/ThreadSharedDataHandle.cc"
DECODE = r'''
// decode everything with nthreads into one array
static std::vector<double> all(Slow& h, int rows, size_t nthreads, int slow = 0) {
    odc::api::Reader r(h, true);
    odc::api::Frame f = r.next();
    CHECK(bool(f) && f.rowCount() == size_t(rows));
    h.readms = slow;
    std::vector<double> out(rows * 2, -7.0);
    std::vector<std::string> names = {"a", "b"};
    std::vector<odc::api::StridedData> st;
    st.emplace_back(out.data(), rows, 8, 16);
    st.emplace_back(out.data() + 1, rows, 8, 16);
    odc::api::Decoder d(names, st);
    d.decode(f, nthreads);
    h.readms = 0;
    return out;
}
'''
PLANTS = [
 dict(id="c01-scratch", property="C01",
  needs="two frames decoded by different threads at the same time: one sets up its columns while the other waits for its data",
  what="the frame decoder's table of output columns is one object shared by all threads",
  edits=[(T, "    std::vector<api::StridedData*> facades(ncols,\n                                           0);  // TODO", "    static std::vector<api::StridedData*> facades;\n    facades.assign(ncols, nullptr);  // TODO")],
  code=CPP + DECODE + r'''
int main() {
    init();
    const int n = 40;
    std::vector<double> in = rowsOf(n);
    Slow h(encode(two(), in, n, 10));
    CHECK(all(h, n, 1) == in);
    for (int k = 0; k < 3; ++k) { h.at = 0; CHECK(all(h, n, 4, 40) == in); }
    return 0;
}'''),
 dict(id="c01-seek-outside", property="C01",
  needs="two threads reading different parts of one handle: the second moves the position between the first one's seek and read",
  what="the shared handle is positioned before its lock is taken",
  edits=[(S, "    ASSERT(internal_);\n    std::lock_guard<std::mutex> lock(internal_->m_);\n\n    if (position_ != internal_->dh_->position()) {\n        internal_->dh_->seek(position_);\n    }\n", "    ASSERT(internal_);\n\n    if (position_ != internal_->dh_->position()) {\n        internal_->dh_->seek(position_);\n    }\n\n    std::lock_guard<std::mutex> lock(internal_->m_);\n")],
  code=CPP + r'''
int main() {
    init();
    std::vector<char> data(4096); for (size_t i = 0; i < data.size(); ++i) data[i] = char(i / 256);
    Slow h(data);
    odc::core::ThreadSharedDataHandle a(h), b(a);
    h.ms = 3; h.readms = 3;
    std::atomic<int> wrong{0};
    auto work = [&](odc::core::ThreadSharedDataHandle& s, int first) {
        for (int k = 0; k < 20; ++k) {
            char c[16]; int page = (first + 2 * k) % 16;
            s.seek(eckit::Offset(page * 256LL));
            if (s.read(c, 16) != 16 || c[0] != char(page)) ++wrong;
        }
    };
    std::thread t([&] { work(b, 1); });
    work(a, 0);
    t.join();
    CHECK(h.clash == 0);
    CHECK(wrong == 0);
    return 0;
}'''),
 dict(id="c01-lost-error", property="C01",
  needs="a frame that cannot be read, decoded by one of several threads",
  what="the caller only waits for the worker threads; the exception of one that failed is dropped and stale rows are returned as decoded",
  edits=[(O, "                thread.get();\n", "                thread.wait();\n")],
  code=CPP + DECODE + r'''
int main() {
    init();
    const int n = 40;
    std::vector<double> in = rowsOf(n);
    std::vector<char> b = encode(two(), in, n, 10);
    Slow h(b);
    odc::api::Reader r(h, true);
    odc::api::Frame f = r.next();
    CHECK(bool(f));
    h.failAt = b.size() / 2;
    std::vector<double> out(n * 2, -7.0);
    std::vector<std::string> names = {"a", "b"};
    std::vector<odc::api::StridedData> st;
    st.emplace_back(out.data(), n, 8, 16);
    st.emplace_back(out.data() + 1, n, 8, 16);
    odc::api::Decoder d(names, st);
    bool failed = false;
    try { d.decode(f, 3); } catch (std::exception&) { failed = true; }
    CHECK(failed);
    return 0;
}'''),
 dict(id="c01-two-threads", property="C01",
  needs="decoding an aggregated frame with exactly two threads",
  what="with two threads the targets are set up but no thread is started",
  edits=[(O, "        if (nthreads > 1) {\n", "        if (nthreads > 2) {\n")],
  code=CPP + DECODE + r'''
int main() {
    init();
    const int n = 40;
    std::vector<double> in = rowsOf(n);
    Slow h(encode(two(), in, n, 10));
    for (size_t t : {1, 2, 3, 5, 8}) { h.at = 0; CHECK(all(h, n, t) == in); }
    return 0;
}'''),
 dict(id="c01-ensure", property="C01",
  needs="two threads iterating over the frames of one reader, with a slow device",
  what="a table is looked up before the lock is taken, while another thread is adding one",
  edits=[("src/odc/core/TablesReader.cc", "    std::lock_guard<std::mutex> lock(m_);\n\n    ASSERT(idx >= 0);\n    ASSERT(idx <= long(tables_.size()));\n", "    ASSERT(idx >= 0);\n    ASSERT(idx <= long(tables_.size()));\n    const bool last = idx == long(tables_.size());\n\n    std::lock_guard<std::mutex> lock(m_);\n"),
         ("src/odc/core/TablesReader.cc", "    if (idx == long(tables_.size())) {\n", "    if (last) {\n")],
  code=CPP + r'''
#include "odc/core/TablesReader.h"
#include "odc/core/Table.h"
int main() {
    init();
    const int n = 40;
    std::vector<double> in = rowsOf(n);
    Slow h(encode(two(), in, n, 10));
    h.ms = 5; h.readms = 5;
    odc::core::TablesReader r(h);
    std::atomic<int> wrong{0};
    auto work = [&] {
        long k = 0; eckit::Offset last(-1);
        try {
            for (auto it = r.begin(); it != r.end(); ++it, ++k) { if (it->startPosition() <= last) ++wrong; last = it->startPosition(); }
        } catch (std::exception& e) { printf("%s\n", e.what()); ++wrong; }
        if (k != 4) ++wrong;
    };
    std::thread t(work);
    work();
    t.join();
    CHECK(wrong == 0);
    return 0;
}'''),
]
