// Model of eckit::MD5 for the instrumented executable (libeckit's own implementation is a binary).
#include "common.h"
#include "eckit/utils/MD5.h"
#ifdef SYM_ENGINE
namespace {
bool ideal = false;
std::vector<std::vector<char>>& seen() { static std::vector<std::vector<char>> s; return s; }
std::map<const void*, std::vector<char>>& cur() { static std::map<const void*, std::vector<char>> m; return m; }
}
namespace eckit {
MD5::MD5() { cur()[this].clear(); }
MD5::MD5(const char* c) { cur()[this].assign(c, c + strlen(c)); }
MD5::MD5(const std::string& c) { cur()[this].assign(c.begin(), c.end()); }
MD5::MD5(const void* d, size_t n) { cur()[this].assign((const char*)d, (const char*)d + n); }
MD5::~MD5() { cur().erase(this); }
void MD5::reset() const { cur()[this].clear(); }
void MD5::update(const void* p, long n) {
    if (!ideal) { if (n > 0) { volatile const char* q = (const char*)p; (void)q[0]; (void)q[n - 1]; } return; }
    auto& v = cur()[this];
    v.insert(v.end(), (const char*)p, (const char*)p + n);
}
Hash::digest_t MD5::compute(const void* p, long n) { reset(); update(p, n); return digest(); }
Hash::digest_t MD5::digest() const {
    std::string r(32, '0');
    if (!ideal) return r;
    auto& v = cur()[this];
    size_t i = 0;
    for (; i < seen().size(); i++)
        if (seen()[i].size() == v.size() && memcmp(seen()[i].data(), v.data(), v.size()) == 0) break;
    if (i == seen().size()) seen().push_back(v);
    r[31] = (char)('0' + i);
    return r;
}
void MD5::numericalDigest(unsigned char out[16]) const { memset(out, 0, 16); }
}
namespace hs { void md5_ideal(bool on) { ideal = on; seen().clear(); } }
#else
namespace hs { void md5_ideal(bool) {} }
#endif
