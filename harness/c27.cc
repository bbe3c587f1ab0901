// BUILD: tools
// C27: the index of a file (odc index): for every frame and value of seqno the number of rows, and where the frame lies
#include "memfs.h"
#include "sqlmini.h"
#include "odbfile.h"
#include "odc/Indexer.h"
#include "odc/Reader.h"
#include "odc/core/MetaData.h"
#include "odc/sql/TODATable.h"
#include "odc/tools/IndexTool.h"
using namespace hs;

struct Blk { long begin, length; std::vector<long> seq; };
struct File {
    std::vector<char> bytes;
    std::vector<Blk> blocks;
    // a frame of the given rows; lead: columns before seqno.  codec: 0 constant, 1 int8, 2 int16, 3 int32
    void frame(int rows, int codec, long min, bool swap, bool qualified, bool lead) {
        static const char* CODEC[] = {"constant", "int8", "int16", "int32"};
        FFrame f(swap);
        f.rows = rows;
        if (lead) f.cols.push_back(fcol("obsvalue", T_REAL, "constant", 1.5, 1.5));
        f.cols.push_back(fcol(qualified ? "seqno@hdr" : "seqno", T_INT, CODEC[codec], (double)min, codec ? (double)(min + 255) : (double)min));
        f.cols.push_back(fcol("n", T_INT, "int8", 0, 255));
        Blk b;
        for (int r = 0; r < rows; r++) {
            // the first row gives all columns, the others from the first one that changes: here always seqno
            f.data.marker(r && lead ? 1 : 0);
            if (codec == 0) b.seq.push_back(min);
            if (codec == 1) { uint8_t v = sym::any<uint8_t>(); f.data.u8(v); b.seq.push_back(min + v); }
            if (codec == 2) { uint16_t v = sym::any<uint16_t>(); f.data.u16(v); b.seq.push_back(min + v); }
            if (codec == 3) { int32_t v = sym::any<int32_t>(); f.data.i32(v); b.seq.push_back(v); }
            f.data.u8((uint8_t)r);
        }
        auto v = f.bytes();
        b.begin = (long)bytes.size();
        b.length = (long)v.size();
        bytes.insert(bytes.end(), v.begin(), v.end());
        blocks.push_back(b);
    }
    void put(const char* name) { memfs::files()[name].reset(new std::vector<char>(bytes)); }
};
struct Entry { long begin, length, seq, n; };
static std::vector<Entry> readIndex(const std::string& name) {
    std::vector<Entry> r;
    sym::check(memfs::files().count(name), "no index is written");
    Mem in(*memfs::files()[name]);
    odc::Reader rd(in);
    auto end = rd.end();
    for (auto it = rd.begin(); it != end; ++it) {
        sym::check(it->columns().size() == 4, "number of columns of the index");
        static const char* N[] = {"block_begin", "block_length", "seqno", "n_rows"};
        for (size_t c = 0; c < 4; c++) {
            sym::check(it->columns()[c]->name() == N[c], "name of a column of the index");
            sym::check(it->columns()[c]->type() == T_INT, "type of a column of the index");
        }
        r.push_back({(long)it->data(0), (long)it->data(1), (long)it->data(2), (long)it->data(3)});
    }
    return r;
}
static void checkIndex(const File& f, const std::string& name) {
    std::vector<Entry> e = readIndex(name);
    size_t at = 0;
    for (auto& b : f.blocks) {
        size_t first = at;
        // the entries of the frame: those with its position
        while (at < e.size() && e[at].begin == b.begin) {
            sym::check(e[at].length == b.length, "length of a block");
            sym::check(e[at].n >= 1, "an entry of no rows");
            at++;
        }
        long total = 0;
        for (size_t k = first; k < at; k++) total += e[k].n;
        sym::check(total == (long)b.seq.size(), "number of rows of a block");
        bool ok = true;
        for (long s : b.seq) {
            long n = 0, w = 0;
            for (size_t k = first; k < at; k++) n += e[k].seq == s ? e[k].n : 0;
            for (long t : b.seq) w += t == s;
            ok &= n == w;
        }
        sym::check(ok, "number of rows of a value of seqno in a block");
    }
    sym::check(at == e.size(), "an entry that belongs to no frame");
}
static void begin() { memfs::reset(); mini::query() = mini::Query(); mini::query().columns = {"seqno"}; }
static long anyMin() { static const long M[] = {-1, 0, -3, 70000}; return M[sym::choice(0, 3)]; }

// the values within a frame
static void runs(int rows, int codec) {
    begin();
    File f;
    f.frame(rows, codec, codec == 3 ? 0 : anyMin(), sym::flag(), sym::flag(), sym::flag());
    f.put("in");
    odc::Indexer::createIndex(eckit::PathName("in"), eckit::PathName("out"));
    checkIndex(f, "out");
    sym::check(*memfs::files()["in"] == f.bytes, "the data file is changed");
    sym::reach("done");
}
SYM_CASE(runs2) { runs(2, 3); }
SYM_CASE(runs3) { runs(3, 1); }
SYM_CASE(runs_const) { runs(sym::choice(1, 5), 0); }
// frames of either byte order, with the same or other values of seqno
SYM_CASE(blocks) {
    begin();
    File f;
    int n = sym::choice(1, 3);
    for (int k = 0; k < n; k++) f.frame(sym::choice(1, 2), 0, sym::flag() ? 5 : -1, sym::flag(), k == 1, k == 2);
    f.put("in");
    odc::Indexer::createIndex(eckit::PathName("in"), eckit::PathName("out"));
    sym::check(mini::query().text == "select seqno;", "the statement");
    checkIndex(f, "out");
    sym::reach("done");
}
SYM_CASE(blocks_any) {
    begin();
    File f;
    f.frame(2, 1, -1, sym::flag(), false, false);
    f.frame(1, 1, 0, sym::flag(), true, true);
    f.put("in");
    odc::Indexer::createIndex(eckit::PathName("in"), eckit::PathName("out"));
    checkIndex(f, "out");
    sym::reach("done");
}
// the tool, and several files at once
SYM_CASE(tool) {
    begin();
    File f;
    f.frame(2, 0, 7, false, false, false);
    f.frame(1, 1, 7, false, false, false);
    f.put("in");
    File g;
    g.frame(3, 0, 9, true, false, true);
    g.put("in2");
    int how = sym::choice(0, 3);
    if (how == 0) { char* a[] = {(char*)"index", (char*)"in", (char*)"my.idx", nullptr}; odc::tool::IndexTool t(3, a); t.run(); checkIndex(f, "my.idx"); }
    if (how == 1) { char* a[] = {(char*)"index", (char*)"in", nullptr}; odc::tool::IndexTool t(2, a); t.run(); checkIndex(f, "in.idx"); }
    if (how == 2) {
        auto r = odc::Indexer::createIndex({eckit::PathName("in"), eckit::PathName("in2")});
        sym::check(r.size() == 2 && r[0].asString() == "in.idx" && r[1].asString() == "in2.idx", "names of the indices");
        checkIndex(f, "in.idx");
        checkIndex(g, "in2.idx");
    }
    if (how == 3) {
        char* a[] = {(char*)"index", (char*)"none", nullptr};
        bool thrown = false;
        try { odc::tool::IndexTool t(2, a); t.run(); } catch (std::exception&) { thrown = true; }
        sym::check(thrown, "a file that is not there is indexed");
    }
    sym::reach("done");
}
// an index over an older, longer one
SYM_CASE(again) {
    begin();
    File f, g;
    for (int k = 0; k < 3; k++) f.frame(2, 0, k, false, false, false);
    g.frame(1, 1, 7, sym::flag(), false, false);
    f.put("in");
    odc::Indexer::createIndex(eckit::PathName("in"), eckit::PathName("out"));
    g.put("in");
    odc::Indexer::createIndex(eckit::PathName("in"), eckit::PathName("out"));
    checkIndex(g, "out");
    sym::reach("done");
}
// a file whose last frame is cut off
SYM_CASE(damaged) {
    begin();
    File f;
    f.frame(2, 0, 7, false, false, false);
    f.frame(2, 1, 7, sym::flag(), false, false);
    size_t cut = (size_t)f.blocks[1].begin + (size_t)sym::choice(1, (int)f.blocks[1].length - 1);
    f.bytes.resize(cut);
    f.put("in");
    bool thrown = false;
    try { odc::Indexer::createIndex(eckit::PathName("in"), eckit::PathName("out")); } catch (std::exception&) { thrown = true; }
    sym::check(thrown, "a damaged file is indexed without complaint");
    sym::reach("done");
}
