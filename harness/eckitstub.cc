// Models of leaf string functions of the binary libeckit, so that symbolic strings can pass through them.
// Symbolic build only; the replay builds use the real library.
#ifdef SYM_ENGINE
#include <string>
#include <cstring>
#include "eckit/io/Buffer.h"
#include "eckit/io/BufferList.h"
#include "eckit/io/MemoryHandle.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/utils/StringTools.h"
#include "eckit/utils/Tokenizer.h"
#include "eckit/utils/Translator.h"
#include <istream>
#include <limits>
extern "C" long symm_strtol(const char* s, char** end, int) {
    const char* p = s;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    bool neg = *p == '-';
    if (*p == '-' || *p == '+') p++;
    const char* d = p;
    unsigned long v = 0, lim = neg ? 1ul << 63 : ~0ul >> 1;
    bool over = false;
    for (; *p >= '0' && *p <= '9'; p++) {
        unsigned c = *p - '0';
        // 18 digits cannot overflow
        if (p - d >= 18 && (over || v > (lim - c) / 10)) over = true;
        else v = v * 10 + c;
    }
    if (over) v = lim;
    if (end) *end = const_cast<char*>(p == d ? s : p);
    return neg ? (long)(0 - v) : (long)v;
}
extern "C" long symm_atol(const char* s) { return symm_strtol(s, nullptr, 10); }
extern "C" int symm_atoi(const char* s) { return (int)symm_strtol(s, nullptr, 10); }
namespace std {
template <> istream& getline(istream& in, string& s, char d) {
    ios_base::iostate st = ios_base::goodbit;
    istream::sentry ok(in, true);
    if (!ok) return in;
    s.clear();
    streambuf* b = in.rdbuf();
    size_t n = 0;
    for (;; n++) {
        int c = b->sbumpc();
        if (c == -1) { st |= ios_base::eofbit; if (!n) st |= ios_base::failbit; break; }
        if ((char)c == d) break;
        s.push_back((char)c);
    }
    if (st) in.setstate(st);
    return in;
}
}  // namespace std
namespace eckit {
bool StringTools::startsWith(const std::string& s, const std::string& p) {
    if (p.empty() || s.size() < p.size()) return false;
    for (size_t i = 0; i < p.size(); i++) if (s[i] != p[i]) return false;
    return true;
}
std::string StringTools::trim(const std::string& s) {
    auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\n'; };
    size_t b = 0, e = s.size();
    while (b < e && sp(s[b])) b++;
    while (e > b && sp(s[e - 1])) e--;
    return s.substr(b, e - b);
}
std::string StringTools::upper(const std::string& s) {
    std::string o = s;
    for (size_t i = 0; i < o.size(); i++) o[i] = (char)(o[i] - (((unsigned char)(o[i] - 'a') < 26) << 5));
    return o;
}
std::string StringTools::lower(const std::string& s) {
    std::string o = s;
    for (size_t i = 0; i < o.size(); i++) o[i] = (char)(o[i] + (((unsigned char)(o[i] - 'A') < 26) << 5));
    return o;
}
std::vector<std::string> StringTools::split(const std::string& d, const std::string& s) {
    std::vector<std::string> o;
    size_t b = 0;
    for (size_t i = 0; i <= s.size(); i++) {
        bool sep = i == s.size();
        for (size_t k = 0; !sep && k < d.size(); k++) sep = s[i] == d[k];
        if (!sep) continue;
        if (i > b) o.push_back(s.substr(b, i - b));
        b = i + 1;
    }
    return o;
}
void Tokenizer::operator()(const std::string& s, std::vector<std::string>& o) const {
    size_t b = 0;
    for (size_t i = 0; i <= s.size(); i++) {
        bool sep = i == s.size();
        for (char c : separator_) sep = sep || s[i] == c;
        if (!sep) continue;
        if (keepEmpty_ || i > b) o.push_back(s.substr(b, i - b));
        b = i + 1;
    }
}
std::string StringTools::unQuote(const std::string& s) {
    size_t n = s.size();
    if (n > 1 && s[0] == s[n - 1] && (s[0] == '\'' || s[0] == '"')) return s.substr(1, n - 2);
    return s;
}
extern "C" long symm_strtol(const char* s, char** end, int base);
long Translator<std::string, long>::operator()(const std::string& s) { return symm_strtol(s.c_str(), nullptr, 10); }
Buffer::Buffer(Buffer&& r) noexcept : buffer_(r.buffer_), size_(r.size_) { r.buffer_ = nullptr; r.size_ = 0; }
Buffer BufferList::consolidate() {
    size_t n = 0;
    for (auto& b : buffers_) n += b.size();
    Buffer out(n);
    size_t o = 0;
    for (auto& b : buffers_) { ::memcpy(out + o, b.data(), b.size()); o += b.size(); }
    buffers_.clear();
    return out;
}
// as the real one (checked natively): short writes at the end of a fixed buffer, growth by need, seek within the size
MemoryHandle::MemoryHandle(const Buffer& b) : MemoryHandle((const void*)b.data(), b.size()) {}
MemoryHandle::MemoryHandle(Buffer& b) : MemoryHandle((void*)b.data(), b.size()) {}
MemoryHandle::MemoryHandle(const void* a, size_t n) : address_((char*)a), size_(n), capacity_(n), opened_(false), readOnly_(true), read_(false), grow_(false), owned_(false), position_(0) {}
MemoryHandle::MemoryHandle(void* a, size_t n) : address_((char*)a), size_(n), capacity_(n), opened_(false), readOnly_(false), read_(false), grow_(false), owned_(false), position_(0) {}
MemoryHandle::MemoryHandle(size_t n, bool g) : address_(new char[n]), size_(0), capacity_(n), opened_(false), readOnly_(false), read_(false), grow_(g), owned_(true), position_(0) {}
MemoryHandle::~MemoryHandle() { if (owned_) delete[] address_; }
Length MemoryHandle::openForRead() { read_ = true; position_ = 0; opened_ = true; return Length(size_); }
void MemoryHandle::openForWrite(const Length&) { ASSERT(!readOnly_); read_ = false; position_ = 0; opened_ = true; }
void MemoryHandle::openForAppend(const Length&) { NOTIMP; }
long MemoryHandle::read(void* b, long n) {
    ASSERT(opened_ && read_);
    size_t p = (long long)position_, left = size_ - p, len = left < (size_t)n ? left : (size_t)n;
    ::memcpy(b, address_ + p, len);
    position_ += len;
    return len;
}
long MemoryHandle::write(const void* b, long n) {
    ASSERT(opened_ && !read_);
    size_t p = (long long)position_, len = n;
    if (owned_) {
        if (p + len > capacity_) {
            if (grow_) {
                size_t c = 2 * (p + len);
                char* a = new char[c];
                ::memcpy(a, address_, p);
                delete[] address_;
                address_ = a;
                capacity_ = c;
            }
            else len = capacity_ - p;
        }
        if (p + len > size_) size_ = p + len;
    }
    else if (p + len > size_) len = size_ - p;
    ::memcpy(address_ + p, b, len);
    position_ += len;
    return len;
}
void MemoryHandle::close() { opened_ = false; }
void MemoryHandle::flush() {}
void MemoryHandle::rewind() { position_ = 0; }
void MemoryHandle::print(std::ostream& s) const { s << "MemoryHandle[]"; }
void MemoryHandle::skip(const Length& n) { position_ += n; ASSERT((size_t)(long long)position_ <= size_); }
Offset MemoryHandle::seek(const Offset& o) { ASSERT((size_t)(long long)o <= size_); position_ = o; return position_; }
Length MemoryHandle::size() { return Length(size_); }
Length MemoryHandle::size() const { return Length(size_); }
Length MemoryHandle::estimate() { return Length(size_); }
Offset MemoryHandle::position() { return position_; }
DataHandle* MemoryHandle::clone() const { NOTIMP; }
std::string MemoryHandle::title() const { return "MemoryHandle[]"; }
const void* MemoryHandle::data() const { return address_; }
std::string MemoryHandle::str() const { return std::string(address_, size_); }
}  // namespace eckit
#endif
