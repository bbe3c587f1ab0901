// Independent byte-level writer of the ODB-2 container (written from the file format documentation, shares no code
// with /repo): used to feed the reader with frames of either byte order, other versions and malformed fields.
#pragma once
#include "common.h"
namespace hs {

struct Bytes {
    std::vector<char> v;
    bool swap = false;
    void raw(const void* p, size_t n) { v.insert(v.end(), (const char*)p, (const char*)p + n); }
    void num(const void* p, size_t n) {
        char b[8];
        memcpy(b, p, n);
        if (swap) for (size_t i = 0; i < n / 2; i++) { char t = b[i]; b[i] = b[n - 1 - i]; b[n - 1 - i] = t; }
        raw(b, n);
    }
    void u8(uint8_t x) { v.push_back((char)x); }
    void u16(uint16_t x) { num(&x, 2); }
    void i32(int32_t x) { num(&x, 4); }
    void i64(int64_t x) { num(&x, 8); }
    void f32(float x) { num(&x, 4); }
    void f64(double x) { num(&x, 8); }
    void str(const std::string& s) { i32((int32_t)s.size()); raw(s.data(), s.size()); }
    void marker(unsigned c) { u8((uint8_t)(c >> 8)); u8((uint8_t)c); }
    size_t size() const { return v.size(); }
};

enum { T_INT = 1, T_REAL = 2, T_STRING = 3, T_BITFIELD = 4, T_DOUBLE = 5 };

struct FCol {
    std::string name; int32_t type = T_INT; std::string codec = "constant";
    int32_t hasMissing = 0; double min = 0, max = 0, missing = 0;
    std::vector<std::string> strings;             // int8_string / int16_string table
    std::vector<int32_t> cnt, index;              // defaults: 0, i
    std::vector<std::string> bfNames; std::vector<int32_t> bfSizes;
    std::string longConst;                        // long_constant_string
    char cchars[8] = {0};                         // constant_string: the 8 characters
};
inline FCol fcol(const std::string& n, int t, const std::string& codec, double mn = 0, double mx = 0, double miss = 0, int hm = 0) {
    FCol c; c.name = n; c.type = t; c.codec = codec; c.min = mn; c.max = mx; c.missing = miss; c.hasMissing = hm; return c;
}

struct FFrame {
    bool swap = false;
    int32_t major = 0, minor = 5;
    int64_t prev = 0;
    int64_t rows = 0;
    bool haveDataSize = false; int64_t dataSize = 0;   // default: data.size()
    bool haveHeaderSize = false; int32_t headerSize = 0;
    std::vector<double> flags;
    std::map<std::string, std::string> props;
    std::vector<FCol> cols;
    Bytes data;
    std::string digest;                                // default: the right one
    void (*patch)(std::vector<char>&) = nullptr;       // applied to the variable part before the digest is taken
    // offsets in the variable part
    size_t oDataSize = 0, oRows = 16, oFlags = 24, oProps = 0, oNcols = 0;
    std::vector<size_t> oCol;
    explicit FFrame(bool sw = false) : swap(sw) { data.swap = sw; }

    Bytes body() {
        Bytes b; b.swap = swap;
        b.i64(haveDataSize ? dataSize : (int64_t)data.size());
        b.i64(prev);
        b.i64(rows);
        b.i32((int32_t)flags.size());
        for (double f : flags) b.f64(f);
        oProps = b.size();
        b.i32((int32_t)props.size());
        for (auto& kv : props) { b.str(kv.first); b.str(kv.second); }
        oNcols = b.size();
        b.i32((int32_t)cols.size());
        oCol.clear();
        for (auto& c : cols) {
            oCol.push_back(b.size());
            b.str(c.name);
            b.i32(c.type);
            if (c.type == T_BITFIELD) {
                b.i32((int32_t)c.bfNames.size());
                for (auto& n : c.bfNames) b.str(n);
                b.i32((int32_t)c.bfSizes.size());
                for (auto s : c.bfSizes) b.i32(s);
            }
            b.str(c.codec);
            b.i32(c.hasMissing);
            if (c.codec == "constant_string") { b.raw(c.cchars, 8); b.raw(c.cchars, 8); }
            else { b.f64(c.min); b.f64(c.max); }
            b.f64(c.missing);
            if (c.codec == "chars") b.i32(0);
            if (c.codec == "int8_string" || c.codec == "int16_string") {
                b.i32((int32_t)c.strings.size());
                for (size_t i = 0; i < c.strings.size(); i++) {
                    b.str(c.strings[i]);
                    b.i32(i < c.cnt.size() ? c.cnt[i] : 0);
                    b.i32(i < c.index.size() ? c.index[i] : (int32_t)i);
                }
            }
            if (c.codec == "long_constant_string") b.str(c.longConst);
        }
        return b;
    }
    static std::string digestOf(const std::vector<char>& v) {
        eckit::MD5 m; m.add(v.data(), (long)v.size()); return m.digest();
    }
    std::vector<char> bytes() {
        Bytes h = body();
        if (patch) patch(h.v);
        Bytes b; b.swap = swap;
        b.u8(0xff); b.u8(0xff); b.u8('O'); b.u8('D'); b.u8('A');
        b.i32(1);
        b.i32(major);
        b.i32(minor);
        b.str(digest.empty() ? digestOf(h.v) : digest);
        b.i32(haveHeaderSize ? headerSize : (int32_t)h.size());
        b.raw(h.v.data(), h.size());
        b.raw(data.v.data(), data.size());
        return b.v;
    }
    static constexpr size_t FIXED = 57;   // bytes before the variable part
};
inline void append(std::vector<char>& a, const std::vector<char>& b) { a.insert(a.end(), b.begin(), b.end()); }
}  // namespace hs
