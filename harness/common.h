// Shared harness support: in-memory DataHandle with short reads / truncation / optional estimate, table builders,
// an independent byte-level writer for the ODB-2 container, and small value helpers.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "sym.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/Length.h"
#include "eckit/io/Offset.h"
#include "eckit/utils/MD5.h"
#include "odc/api/Odb.h"

namespace hs {

// In-memory handle.  One byte vector is shared by writer and readers.
class Mem : public eckit::DataHandle {
public:
    std::shared_ptr<std::vector<char>> d;
    size_t pos = 0;
    bool estimates = true;           // false: estimate() is 0, as for a stream
    long maxRead = 0;                // >0: read() returns at most this many bytes
    long failWriteAt = -1;           // >=0: the write that would pass this offset is cut short there
    bool seekable = true;
    bool clips = false;              // seek() stops at the end of the data, as on a stream made seekable by reading
    bool closed = false, opened = false;
    void (*onOp)() = nullptr;
    Mem() : d(new std::vector<char>()) {}
    explicit Mem(std::shared_ptr<std::vector<char>> b) : d(b) {}
    explicit Mem(const std::vector<char>& b) : d(new std::vector<char>(b)) {}
    void print(std::ostream& s) const override { s << "Mem"; }
    eckit::Length openForRead() override { pos = 0; opened = true; return estimate(); }
    void openForWrite(const eckit::Length&) override { d->clear(); pos = 0; opened = true; }
    void openForAppend(const eckit::Length&) override { pos = d->size(); opened = true; }
    long read(void* b, long n) override {
        if (onOp) onOp();
        long left = (long)d->size() - (long)pos;
        if (left <= 0 || n <= 0) return 0;
        if (n > left) n = left;
        if (maxRead > 0 && n > maxRead) n = maxRead;
        memcpy(b, d->data() + pos, n);
        pos += n;
        return n;
    }
    long write(const void* b, long n) override {
        if (!b) throw eckit::WriteError("mem", Here());      // as eckit's file handles
        if (n <= 0) return 0;
        if (failWriteAt >= 0 && (long)pos + n > failWriteAt) n = std::max(0l, failWriteAt - (long)pos);
        if (d->size() < pos + n) d->resize(pos + n);
        memcpy(d->data() + pos, b, n);
        pos += n;
        return n;
    }
    void close() override { closed = true; }
    void flush() override {}
    eckit::Length size() override { return eckit::Length(d->size()); }
    eckit::Length estimate() override { return estimates ? eckit::Length(d->size()) : eckit::Length(0); }
    eckit::Offset position() override { return eckit::Offset(pos); }
    eckit::Offset seek(const eckit::Offset& o) override { if (onOp) onOp(); pos = (size_t)(long long)o; if (clips && pos > d->size()) pos = d->size(); return eckit::Offset(pos); }
    bool canSeek() const override { return seekable; }
    void skip(const eckit::Length& l) override { pos += (size_t)(long long)l; }
    void rewind() override { pos = 0; }
    std::string title() const override { return "mem"; }
    DataHandle* clone() const override { auto* m = new Mem(d); m->estimates = estimates; m->clips = clips; return m; }
};

inline uint64_t bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
inline double dbl(uint64_t u) { double v; memcpy(&v, &u, 8); return v; }
inline uint32_t fbits(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
inline float flt(uint32_t u) { float v; memcpy(&v, &u, 4); return v; }

// --- MD5 model (symbolic build only; the replay builds use the real eckit::MD5) -------------------------------
// constant: every digest is the same 32 characters (headers of any content are accepted)
// ideal:    digest("x") == digest("y") exactly when x and y are byte-wise equal (first recorded content gets digest 0)
void md5_ideal(bool on);
}  // namespace hs
