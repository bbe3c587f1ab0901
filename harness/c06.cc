// C06: a frame's description (names, types, sizes, bitfields, properties, row and column counts) round-trips through the header
#include "enc.h"
#include "odbfile.h"
#include "odc/ODBAPISettings.h"
#include "odc/core/Column.h"
#include "odc/core/Header.h"
#include "odc/core/MetaData.h"
#include "odc/core/ThreadSharedDataHandle.h"
using namespace hs;
using namespace odc::api;

// n symbolic bytes as a std::string (any bytes, NULs included)
static std::string str(int n) { std::string s((size_t)n, ' '); if (n) sym::bytes(&s[0], n); return s; }
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }

static void compare(const Frame& f, const std::vector<ColumnInfo>& cols, size_t rows, const std::map<std::string, std::string>& props, bool encoderKey) {
    sym::check(!!f && f.rowCount() == rows && f.columnCount() == cols.size() && f.columnInfo().size() == cols.size(), "row or column count");
    for (size_t c = 0; c < cols.size(); c++) {
        const ColumnInfo& g = f.columnInfo()[c];
        sym::check(same(g.name, cols[c].name), "column name changed");
        sym::check(g.type == cols[c].type, "column type changed");
        if (cols[c].type != STRING) sym::check(g.decodedSize == 8, "decoded size changed");
        else sym::check(g.decodedSize % 8 == 0 && g.decodedSize >= 8 && g.decodedSize <= cols[c].decodedSize, "decoded string size");
        sym::check(g.name.empty() || f.hasColumn(g.name), "hasColumn");
        if (cols[c].type != BITFIELD) continue;
        sym::check(g.bitfield.size() == cols[c].bitfield.size(), "number of bitfield members");
        int off = 0;
        for (size_t b = 0; b < g.bitfield.size(); b++) {
            sym::check(same(g.bitfield[b].name, cols[c].bitfield[b].name), "bitfield member name");
            sym::check(g.bitfield[b].size == cols[c].bitfield[b].size, "bitfield member size");
            sym::check(g.bitfield[b].offset == off, "bitfield member offset");
            off += cols[c].bitfield[b].size;
        }
    }
    auto p = f.properties();
    for (auto& kv : props) {
        auto it = p.find(kv.first);
        sym::check(it != p.end() && same(it->second, kv.second), "property changed");
    }
    sym::check(p.size() == props.size() + (encoderKey ? 1 : 0), "number of properties");
}
static void roundtrip(Tab& t, const std::map<std::string, std::string>& props) {
    Mem m;
    encode(t, m, props);
    Mem in(m.d);
    in.openForRead();
    Reader r(in);
    Frame f = r.next();
    compare(f, t.cols, t.rows, props, true);
    sym::check(!r.next(), "extra frame");
    sym::reach("done");
}
SYM_CASE(names) {
    Tab t; t.rows = 1;
    static const ColumnType ty[] = {INTEGER, REAL, STRING, BITFIELD, DOUBLE};
    int n = sym::choice(1, 2);
    for (int i = 0; i < n; i++) {
        int k = sym::choice(0, 4);
        t.add(str(sym::choice(0, 3)), ty[k], k == 2 ? 8 * sym::choice(1, 2) : 8);
    }
    if (n == 2) sym::assume(!same(t.cols[0].name, t.cols[1].name));  // a frame with two columns of the same name is refused
    roundtrip(t, {});
}
SYM_CASE(bitfields) {
    Tab t; t.rows = 2;
    size_t c = t.add("x@y", BITFIELD);
    int n = sym::choice(0, 3), left = 32;
    for (int i = 0; i < n; i++) {
        int sz = sym::any<uint8_t>();
        sym::assume(sz >= 1 && sz <= left);
        left -= sz;
        t.cols[c].bitfield.push_back({str(i + 1), sz, 0});
    }
    t.setD(c, 1, 3);
    t.add("k", INTEGER);
    roundtrip(t, {});
}
SYM_CASE(properties) {
    Tab t; t.rows = 1;
    t.add("k", INTEGER);
    std::map<std::string, std::string> p;
    int n = sym::choice(0, 2);
    if (n > 0) p["a"] = str(sym::choice(0, 4));
    if (n > 1) { std::string k = "b" + str(1); p[k] = str(2); }
    roundtrip(t, p);
}
// the description is larger than the configured header buffer (any size of buffer, any excess)
SYM_CASE(large) {
    int cap = 64 + 8 * sym::choice(0, 3);
    odc::ODBAPISettings::instance().headerBufferSize(cap);
    Tab t; t.rows = 2;
    t.add("first@t", INTEGER);
    size_t s = t.add("s@t", STRING, 16);
    memcpy(&t.at(s, 0), "hello", 5); memcpy(&t.at(s, 1), "0123456789ab", 12);
    std::map<std::string, std::string> p;
    int n = sym::choice(0, 70);
    std::string v(n, 'v');
    if (n) { v[n - 1] = sym::any<char>(); v[0] = sym::any<char>(); }
    p["key"] = v;
    roundtrip(t, p);
    odc::ODBAPISettings::instance().headerBufferSize(4 * 1024 * 1024);
}
// every frame of a multi-frame file carries the whole description
SYM_CASE(frames) {
    Tab t; t.rows = 5;
    t.add("a@" + str(1), INTEGER); t.add("b", REAL);
    for (int i = 0; i < 5; i++) { t.setD(0, i, i); t.setD(1, i, 0.5 * i); }
    std::map<std::string, std::string> p{{"k", str(2)}};
    Mem m;
    int per = sym::choice(1, 5);
    encode(t, m, p, per);
    Mem in(m.d);
    in.openForRead();
    Reader r(in, false);
    int done = 0;
    while (true) {
        Frame f = r.next();
        if (!f) break;
        compare(f, t.cols, std::min(per, 5 - done), p, true);
        done += (int)f.rowCount();
    }
    sym::check(done == 5, "rows of all frames");
    sym::reach("done");
}
// reading: either byte order, minor versions 4 and 5, flags present, symbolic names, sizes and properties
SYM_CASE(read) {
    FFrame f(sym::flag());
    f.minor = sym::choice(4, 5);
    f.rows = sym::choice(0, 2);
    for (int i = sym::choice(0, 2); i > 0; i--) f.flags.push_back(i);
    std::vector<ColumnInfo> cols;
    FCol b = fcol(str(2), T_BITFIELD, "int8", 0, 255);
    sym::assume(b.name[0] != 'z');
    cols.push_back({b.name, BITFIELD, 8, {}});
    for (int i = 0; i < 2; i++) {
        int sz = sym::any<uint8_t>() & 15;
        b.bfNames.push_back(str(1)); b.bfSizes.push_back(sz);
        cols[0].bitfield.push_back({b.bfNames[i], sz, 0});
    }
    f.cols.push_back(b);
    FCol s = fcol("z" + str(1), T_STRING, "int16_string");
    int len = sym::choice(0, 17);
    s.strings = {str(1), std::string(len, 'q')};
    f.cols.push_back(s);
    cols.push_back({s.name, STRING, size_t(len <= 8 ? 8 : len <= 16 ? 16 : 24), {}});
    std::map<std::string, std::string> p;
    for (int i = sym::choice(0, 2); i > 0; i--) p[std::string(1, (char)('a' + i))] = str(i);
    f.props = p;
    for (int i = 0; i < f.rows; i++) { f.data.marker(0); f.data.u8(1); f.data.u16(1); }
    Mem m(f.bytes());
    m.openForRead();
    Reader r(m);
    Frame fr = r.next();
    compare(fr, cols, f.rows, p, false);
    if (f.rows) sym::check(fr.columnInfo()[1].decodedSize == cols[1].decodedSize, "decoded string size");
    sym::check(!r.next(), "extra frame");
    sym::reach("done");
}
// Header::serializeHeader / serializeHeaderOtherByteOrder write the documented bytes
SYM_CASE(serialize) {
    bool sw = sym::flag();
    odc::core::MetaData md;
    md.setSize(2);
    std::string n0 = str(2), bn = str(1);
    int bs = sym::any<uint8_t>() & 31;
    md[0]->name(n0); md[0]->type<odc::core::SameByteOrder>(INTEGER);
    md[1]->name("b"); md[1]->type<odc::core::SameByteOrder>(BITFIELD);
    eckit::sql::BitfieldDef bf; bf.first.push_back(bn); bf.second.push_back(bs);
    md[1]->bitfieldDef(bf);
    if (sw) md.resetCodecs<odc::core::OtherByteOrder>();
    size_t dataSize = sym::any<uint32_t>(), rows = sym::any<uint16_t>();
    std::map<std::string, std::string> p{{"k", str(2)}};
    FFrame f(sw);
    f.haveDataSize = true; f.dataSize = dataSize; f.rows = rows; f.props = p;
    double mi = (double)Settings::integerMissingValue();
    FCol a = fcol(n0, T_INT, "int32", mi, mi, mi), b = fcol("b", T_BITFIELD, "int32", mi, mi, mi);
    b.bfNames = {bn}; b.bfSizes = {bs};
    f.cols = {a, b};
    std::vector<char> want = f.bytes();
    auto got = sw ? odc::core::Header::serializeHeaderOtherByteOrder(dataSize, rows, p, md) : odc::core::Header::serializeHeader(dataSize, rows, p, md);
    sym::check(got.second == want.size(), "header size differs from the documented layout");
    sym::check(memcmp(got.first.data(), want.data(), want.size()) == 0, "header bytes differ from the documented layout");
    sym::reach("done");
}
