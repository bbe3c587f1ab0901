// C10: damage to a header, foreign data and unsupported versions are recognised, by every reader
#include "enc.h"
#include "odbfile.h"
#include "odc/Reader.h"
#include "odc/api/odc.h"
#include "odc/core/MetaData.h"
#include "odc/core/Header.h"
using namespace hs;

static FFrame simple(bool swap, int tag = 0) {
    FFrame f(swap);
    f.rows = 1;
    f.props["k"] = "v";
    FCol b = fcol("b@t", T_BITFIELD, "int8", 0, 255);
    b.bfNames = {"x"}; b.bfSizes = {3};
    FCol s = fcol("s@t", T_STRING, "int8_string");
    s.strings = {"one", "two-and-more"};
    f.cols = {b, s};
    f.data.marker(0); f.data.u8(40 + tag); f.data.u8(1);
    return f;
}
enum { FRAMES, AGGREGATED, ROWS, TABLE, NREADERS };
// number of rows read before the end (or before the exception)
static long rowsRead(const std::vector<char>& file, int reader, bool& refused, bool estimates = true) {
    Mem m(file);
    m.estimates = estimates;
    m.openForRead();
    refused = false;
    long n = 0;
    try {
        if (reader == ROWS) {
            odc::Reader rd(m);
            auto end = rd.end();
            for (auto it = rd.begin(); it != end; ++it) { sym::check(it->data(0) == 40 + n, "row"); n++; sym::check(n < 10, "too many rows"); }
        } else if (reader == TABLE) {
            while (true) {
                if (!odc::core::Header::readMagic(m)) break;
                odc::core::MetaData md;
                std::map<std::string, std::string> props;
                odc::core::Header h(md, props);
                h.loadAfterMagic(m);
                sym::check(md.size() == 2 && md[0]->name() == "b@t", "header");
                m.skip(h.dataSize());
                n += h.rowsNumber();
                sym::check(n < 10, "too many rows");
            }
        } else {
            odc::api::Reader rd(m, reader == AGGREGATED);
            while (odc::api::Frame f = rd.next()) {
                Dec d(f, {"b@t"});
                for (size_t r = 0; r < f.rowCount(); r++) sym::check(d.getD(0, r) == 40 + n + r, "decoded row");
                n += f.rowCount();
                sym::check(n < 10, "too many rows");
            }
        }
    } catch (std::exception&) { refused = true; }
    return n;
}
// one or more bytes of a header differ from what was written
static void damage(size_t lo, int span, int nbytes) {
    md5_ideal(true);
    int reader = sym::choice(0, NREADERS - 1);
    bool sw = sym::flag();
    std::vector<char> file = simple(sw).bytes();
    size_t head = file.size();
    size_t body = simple(sw).body().v.size();
    append(file, simple(sw, 1).bytes());
    bool second = sym::flag();
    size_t at = lo + sym::choice(0, span - 1);
    sym::assume(at + nbytes <= body);
    at += FFrame::FIXED + (second ? head : 0);
    bool changed = false;
    for (int i = 0; i < nbytes; i++) { char v = sym::any<char>(); if (v != file[at + i]) changed = true; file[at + i] = v; }
    bool refused;
    long n = rowsRead(file, reader, refused);
    if (changed) {
        sym::check(refused, "a damaged header was accepted");
        sym::check(n == (second && reader != AGGREGATED ? 1 : 0), "rows read before the damaged header");
    } else sym::check(!refused && n == 2, "an undamaged file was refused");
    md5_ideal(false);
    sym::reach("done");
}
SYM_CASE(header1) { damage(0, 90, 1); }
SYM_CASE(header2) { damage(90, 160, 1); }
SYM_CASE(headerword1) { damage(0, 90, 4); }
SYM_CASE(headerword2) { damage(90, 160, 4); }
// the recorded digest differs in one or two characters
SYM_CASE(digest) {
    int reader = sym::choice(0, NREADERS - 1);
    bool sw = sym::flag();
    FFrame f = simple(sw);
    std::string d = FFrame::digestOf(f.body().v);
    char x = sym::any<char>(), y = sym::any<char>();
    int p = sym::choice(0, 31);
    d[p] ^= x;
    d[(p + 7) % 32] ^= y;
    f.digest = d;
    std::vector<char> file = f.bytes();
    bool refused;
    long n = rowsRead(file, reader, refused);
    sym::check(refused == (x || y), refused ? "a right digest was refused" : "a wrong digest was accepted");
    sym::check(n == (refused ? 0 : 1), "rows");
    sym::reach("done");
}
// the digest has another length
SYM_CASE(digestlen) {
    int reader = sym::choice(0, NREADERS - 1);
    FFrame f = simple(sym::flag());
    std::vector<char> file = f.bytes();
    Bytes b; b.swap = f.swap;
    int32_t len = sym::any<int32_t>();
    b.i32(len);
    memcpy(&file[17], b.v.data(), 4);
    bool refused;
    long n = rowsRead(file, reader, refused);
    sym::check(refused == (len != 32), "length of the digest");
    sym::check(n == (refused ? 0 : 1), "rows");
    sym::reach("done");
}
SYM_CASE(version) {
    int reader = sym::choice(0, NREADERS - 1);
    FFrame f = simple(sym::flag());
    f.major = sym::any<int32_t>();
    f.minor = sym::any<int32_t>();
    std::vector<char> file = f.bytes();
    bool refused;
    long n = rowsRead(file, reader, refused);
    if (f.major > 0 || (f.major == 0 && f.minor > 5)) sym::check(refused, "a newer format version was accepted");
    if (f.major == 0 && (f.minor == 4 || f.minor == 5)) sym::check(!refused && n == 1, "a supported version was refused");
    sym::reach("done");
}
// the first bytes, at the start and between frames
SYM_CASE(magic) {
    int reader = sym::choice(0, NREADERS - 1);
    FFrame f = simple(sym::flag());
    std::vector<char> file = f.bytes();
    size_t len = file.size();
    append(file, simple(f.swap, 1).bytes());
    bool second = sym::flag();
    char m[5];
    sym::bytes(m, 5);
    bool right = true;
    for (int i = 0; i < 5; i++) { if (m[i] != file[i]) right = false; file[i + (second ? len : 0)] = m[i]; }
    bool refused;
    long n = rowsRead(file, reader, refused);
    sym::check(refused == !right, refused ? "the right magic was refused" : "data that is no frame was accepted");
    if (refused) sym::check(n == (second && reader != AGGREGATED ? 1 : 0), "rows read before the foreign data");
    sym::reach("done");
}
// bytes after the last frame
SYM_CASE(trailing) {
    int reader = sym::choice(0, NREADERS - 1);
    bool est = sym::flag();
    std::vector<char> file = simple(sym::flag()).bytes();
    int k = sym::choice(0, 12);
    char t[12];
    sym::bytes(t, 12);
    file.insert(file.end(), t, t + k);
    bool refused;
    long n = rowsRead(file, reader, refused, est);
    sym::check(refused == (k > 0), refused ? "a whole file was refused" : "bytes after the last frame were ignored");
    if (reader != AGGREGATED) sym::check(n == 1, "rows of the complete frame");
    sym::reach("done");
}
// nothing at all, or a few bytes
SYM_CASE(foreign) {
    int reader = sym::choice(0, NREADERS - 1);
    bool est = sym::flag();
    int k = sym::choice(0, 56);
    std::vector<char> file(k);
    if (k) sym::bytes(file.data(), k);
    bool refused;
    long n = rowsRead(file, reader, refused, est);
    sym::check(n == 0, "rows in foreign data");
    sym::check(refused == (k > 0), refused ? "an empty file was refused" : "foreign data was read as an empty file");
    sym::reach("done");
}
