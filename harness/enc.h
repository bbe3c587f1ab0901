// Helpers around the public encode/decode API.
#pragma once
#include "common.h"
namespace hs {
using odc::api::ColumnInfo;
using odc::api::ColumnType;
using odc::api::ConstStridedData;
using odc::api::StridedData;

// column-major table of 8-byte cells (strings: `width` cells per value)
struct Tab {
    std::vector<ColumnInfo> cols;
    std::vector<std::vector<uint64_t>> v;   // v[c] has rows*width(c) entries
    size_t rows = 0;
    size_t width(size_t c) const { return cols[c].decodedSize / 8; }
    size_t add(const std::string& n, ColumnType t, size_t bytes = 8) {
        cols.push_back(ColumnInfo{n, t, bytes, {}});
        v.push_back(std::vector<uint64_t>(rows * (bytes / 8)));
        return v.size() - 1;
    }
    uint64_t& at(size_t c, size_t r) { return v[c][r * width(c)]; }
    void setI(size_t c, size_t r, int64_t x) { at(c, r) = (uint64_t)x; }
    void setD(size_t c, size_t r, double x) { at(c, r) = bits(x); }
    int64_t getI(size_t c, size_t r) { return (int64_t)at(c, r); }
    double getD(size_t c, size_t r) { return dbl(at(c, r)); }
    std::vector<ConstStridedData> strided() {
        std::vector<ConstStridedData> s;
        for (size_t c = 0; c < cols.size(); c++)
            s.emplace_back(v[c].data(), rows, cols[c].decodedSize, cols[c].decodedSize);
        return s;
    }
};

inline void encode(Tab& t, Mem& out, const std::map<std::string, std::string>& p = {}, size_t maxRows = 10000) {
    odc::api::encode(out, t.cols, t.strided(), p, maxRows);
}

// decode a frame into fresh buffers, named columns in the given order, widths taken from columnInfo
struct Dec {
    std::vector<std::string> names;
    std::vector<size_t> w;
    std::vector<std::vector<uint64_t>> v;
    size_t rows = 0;
    static constexpr uint64_t POISON = 0xa5a5a5a5a5a5a5a5ull;
    Dec() {}
    Dec(const odc::api::Frame& f, const std::vector<std::string>& nm, size_t nthreads = 1) { run(f, nm, nthreads); }
    void run(const odc::api::Frame& f, const std::vector<std::string>& nm, size_t nthreads = 1) {
        names = nm;
        rows = f.rowCount();
        std::vector<StridedData> sd;
        v.resize(nm.size());
        for (size_t i = 0; i < nm.size(); i++) {
            size_t ww = 1;
            for (auto& ci : f.columnInfo())
                if (ci.name == nm[i]) ww = ci.decodedSize / 8;
            w.push_back(ww);
            v[i].assign(rows * ww + 1, POISON);
            sd.emplace_back(v[i].data(), rows, ww * 8, ww * 8);
        }
        odc::api::Decoder d(nm, sd);
        d.decode(f, nthreads);
        for (size_t i = 0; i < nm.size(); i++) sym::check(v[i].back() == POISON, "decode wrote past the end of a column buffer");
    }
    uint64_t at(size_t c, size_t r) { return v[c][r * w[c]]; }
    int64_t getI(size_t c, size_t r) { return (int64_t)at(c, r); }
    double getD(size_t c, size_t r) { return dbl(at(c, r)); }
    std::string getS(size_t c, size_t r) {
        const char* p = (const char*)&v[c][r * w[c]];
        return std::string(p, strnlen(p, 8 * w[c]));
    }
};
inline std::vector<std::string> names(const Tab& t) {
    std::vector<std::string> n;
    for (auto& c : t.cols) n.push_back(c.name);
    return n;
}
inline bool sameNum(double a, double b) { return a == b || (a != a && b != b); }
}  // namespace hs
