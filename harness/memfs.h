// An in-memory file system behind eckit::FileHandle and eckit::PathName, used in the symbolic and the replay build
// (definitions here take precedence over those of the shared libeckit).  Include in one harness source only.
#pragma once
#include <set>
#include "common.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/PartFileHandle.h"
#include "eckit/io/PooledHandle.h"
#include "eckit/serialisation/Reanimator.h"

namespace memfs {
using Data = std::shared_ptr<std::vector<char>>;
inline std::map<std::string, Data>& files() { static std::map<std::string, Data> f; return f; }

// what is written reaches the file at once (eckit's default), or, with buffered() set (eckit's FileHandleIOBufferSize),
// when the handle is flushed or closed
inline bool& buffered() { static bool b; return b; }
struct Open {
    Data d; size_t pos = 0; bool append = false; std::vector<char> pending;
    void flush() {
        if (pending.empty()) return;
        if (append) pos = d->size();
        if (d->size() < pos + pending.size()) d->resize(pos + pending.size());
        memcpy(d->data() + pos, pending.data(), pending.size());
        pos += pending.size();
        pending.clear();
    }
};
inline std::map<const void*, Open>& handles() { static std::map<const void*, Open> h; return h; }
inline std::set<const void*>& parts() { static std::set<const void*> p; return p; }
inline void reset(bool b = false) { files().clear(); parts().clear(); buffered() = b; }
inline size_t& opens() { static size_t n; return n; }
inline void drop(const void* h) { auto it = handles().find(h); if (it != handles().end()) { it->second.flush(); handles().erase(it); } }
inline void exit() { parts().clear(); for (auto& kv : handles()) kv.second.flush(); handles().clear(); }
}  // namespace memfs

namespace eckit {
FileHandle::FileHandle(const std::string& n, bool o) : name_(n), overwrite_(o), file_(nullptr), read_(false) {}
FileHandle::FileHandle(Stream&) : overwrite_(false), file_(nullptr), read_(false) {}
FileHandle::~FileHandle() { memfs::drop(this); }
void FileHandle::advance(const Length& l) { memfs::handles().at(this).pos += (size_t)(long long)l; }
Length FileHandle::openForRead() {
    auto it = memfs::files().find(name_);
    if (it == memfs::files().end()) throw CantOpenFile(name_);
    memfs::Open o; o.d = it->second; memfs::handles()[this] = o;
    return Length(o.d->size());
}
void FileHandle::openForWrite(const Length&) {
    auto& f = memfs::files()[name_];
    if (!f) f.reset(new std::vector<char>());      // "w": the file keeps its identity and is truncated
    f->clear();
    memfs::Open o; o.d = f; memfs::handles()[this] = o; memfs::opens()++;
}
void FileHandle::openForAppend(const Length&) {
    auto& f = memfs::files()[name_];
    if (!f) f.reset(new std::vector<char>());
    memfs::Open o; o.d = f; o.append = true; o.pos = f->size(); memfs::handles()[this] = o; memfs::opens()++;
}
long FileHandle::read(void* b, long n) {
    auto& o = memfs::handles().at(this);
    long left = (long)o.d->size() - (long)o.pos;
    if (n > left) n = left;
    if (n <= 0) return 0;
    memcpy(b, o.d->data() + o.pos, n);
    o.pos += n;
    return n;
}
long FileHandle::write(const void* b, long n) {
    if (!b) throw AssertionFailed("FileHandle::write: no buffer");
    auto& o = memfs::handles().at(this);
    o.pending.insert(o.pending.end(), (const char*)b, (const char*)b + n);
    if (!memfs::buffered()) o.flush();
    return n;
}
void FileHandle::close() { memfs::drop(this); }
void FileHandle::flush() { auto it = memfs::handles().find(this); if (it != memfs::handles().end()) it->second.flush(); }
void FileHandle::rewind() { memfs::handles().at(this).pos = 0; }
void FileHandle::print(std::ostream& s) const { s << "FileHandle[" << name_ << "]"; }
Length FileHandle::size() { auto it = memfs::files().find(name_); return Length(it == memfs::files().end() ? 0 : it->second->size()); }
Length FileHandle::estimate() { return size(); }
Offset FileHandle::position() { auto& o = memfs::handles().at(this); return Offset(o.pos + o.pending.size()); }
bool FileHandle::isEmpty() const { return false; }
void FileHandle::restartReadFrom(const Offset& o) { seek(o); }
void FileHandle::restartWriteFrom(const Offset& o) { seek(o); }
void FileHandle::toRemote(Stream&) const {}
void FileHandle::selectMover(MoverTransferSelection&, bool) const {}
void FileHandle::encode(Stream&) const {}
std::string FileHandle::title() const { return name_; }
std::string FileHandle::metricsTag() const { return name_; }
Offset FileHandle::seek(const Offset& o) { memfs::handles().at(this).pos = (size_t)(long long)o; return o; }
bool FileHandle::canSeek() const { return true; }
void FileHandle::skip(const Length& l) { advance(l); }
DataHandle* FileHandle::clone() const { return new FileHandle(name_); }
void FileHandle::hash(MD5&) const {}
// one part of one file.  As in eckit: opened once until it is closed, and read only while it is open
PartFileHandle::PartFileHandle(const PathName& n, const Offset& o, const Length& l) : path_(n), pos_(0), index_(0), offset_{o}, length_{l} {}
PartFileHandle::~PartFileHandle() { memfs::parts().erase(this); }
Length PartFileHandle::openForRead() {
    if (memfs::parts().count(this)) throw AssertionFailed("PartFileHandle is open already");
    if (!memfs::files().count(path_.asString())) throw CantOpenFile(path_.asString());
    memfs::parts().insert(this);
    pos_ = 0;
    return length_[0];
}
long PartFileHandle::read(void* b, long n) {
    if (!memfs::parts().count(this)) throw AssertionFailed("PartFileHandle is not open");
    auto& d = *memfs::files().at(path_.asString());
    long at = (long)(long long)offset_[0] + pos_, left = std::min((long)(long long)length_[0] - (long)pos_, (long)d.size() - at);
    if (n > left) n = left;
    if (n <= 0) return 0;
    memcpy(b, d.data() + at, n);
    pos_ += n;
    return n;
}
void PartFileHandle::close() { memfs::parts().erase(this); }
void PartFileHandle::rewind() { pos_ = 0; }
Length PartFileHandle::size() { return length_[0]; }
Length PartFileHandle::estimate() { return length_[0]; }
Offset PartFileHandle::position() { return Offset(pos_); }
Offset PartFileHandle::seek(const Offset& o) { pos_ = (long long)o; return o; }
bool PartFileHandle::canSeek() const { return true; }
DataHandle* PartFileHandle::clone() const { return new PartFileHandle(path_, offset_[0], length_[0]); }
bool PathName::exists() const { return memfs::files().count(asString()) != 0; }
Length PathName::size() const { auto it = memfs::files().find(asString()); if (it == memfs::files().end()) throw CantOpenFile(asString()); return Length(it->second->size()); }
void PathName::mkdir(short) const {}
DataHandle* PathName::fileHandle(bool overwrite) const { return new FileHandle(asString(), overwrite); }
}  // namespace eckit
