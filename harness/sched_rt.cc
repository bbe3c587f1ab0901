// Compiled without instrumentation in every build.  Interposes the pthread operations used by libstdc++ and the code.
#include "coop.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <vector>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace {
enum State { READY, JOIN, MUTEX, COND, FUTEX, DONE };
struct Co {
    ucontext_t ctx;
    void* (*fn)(void*) = nullptr;
    void *arg = nullptr, *ret = nullptr;
    State st = READY;
    const void* on = nullptr;
    char eh[16] = {};
    std::vector<char> tls;
    std::map<unsigned, void*> spec;
};
bool active = false;
std::vector<Co*> co;
int cur = 0, budget = 0, nswitch = 0;
long npoints = 0, kpoint = -1;
int (*chooser)(int) = nullptr;
struct Own { int who = -1; int count = 0; };
std::map<const void*, Own> own;
char* tlsBase = nullptr; size_t tlsSize = 0, tlsInit = 0; const char* tlsImage = nullptr;
const size_t STACK = 1 << 20;

int findTls(dl_phdr_info* i, size_t, void*) {
    if (i->dlpi_name && *i->dlpi_name) return 0;             // the executable itself
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) {
            tlsBase = (char*)i->dlpi_tls_data; tlsSize = i->dlpi_phdr[k].p_memsz; tlsInit = i->dlpi_phdr[k].p_filesz;
            tlsImage = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
        }
    return 1;
}
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

void goTo(int n) {
    if (n == cur) return;
    Co *a = co[cur], *b = co[n];
    nswitch++;
    memcpy(a->eh, __cxxabiv1::__cxa_get_globals(), 16);
    if (tlsSize) { a->tls.resize(tlsSize); memcpy(a->tls.data(), tlsBase, tlsSize); memcpy(tlsBase, b->tls.data(), tlsSize); }
    memcpy(__cxxabiv1::__cxa_get_globals(), b->eh, 16);
    cur = n;
    swapcontext(&a->ctx, &b->ctx);
}
std::vector<int> ready() {
    std::vector<int> r;
    for (int d = 0; d < (int)co.size(); d++) { int i = (cur + d) % (int)co.size(); if (co[i]->st == READY) r.push_back(i); }
    return r;
}
int ask(int n) {
    if (n <= 1) return 0;
    bool a = active; active = false;
    int v = chooser(n);
    active = a;
    return v;
}
void block() {                                               // the current thread cannot go on
    auto r = ready();
    if (r.empty()) { active = false; sym::fail("deadlock: every thread is blocked"); abort(); }
    goTo(r[ask((int)r.size())]);
}
void maySwitch() {
    if (!active || budget <= 0 || co.size() < 2) return;
    auto r = ready();
    int v = ask((int)r.size());
    if (v) { budget--; goTo(r[v]); }
}
void wake(State s, const void* on) { for (auto* c : co) if (c->st == s && c->on == on) { c->st = READY; c->on = nullptr; } }
void entry(int id) {
    Co* c = co[id];
    c->ret = c->fn(c->arg);
    c->st = DONE;
    wake(JOIN, c);
    block();
}
void lock(const void* m, bool recursive) {
    maySwitch();
    Own* o = &own[m];
    if (o->who == cur && recursive) { o->count++; return; }
    while (o->who != -1) { co[cur]->st = MUTEX; co[cur]->on = m; block(); o = &own[m]; }
    o->who = cur; o->count = 1;
}
void unlock(const void* m) {
    Own& o = own[m];
    if (o.who != cur) return;
    if (--o.count == 0) { o.who = -1; wake(MUTEX, m); }
}
void drain() { while (true) { bool more = false; for (auto* c : co) if (c != co[0] && c->st != DONE) more = true; if (!more) return; co[0]->st = JOIN; co[0]->on = nullptr; bool any = false; for (auto* c : co) if (c->st == READY) any = true; if (!any) { co[0]->st = READY; return; }
    for (auto* c : co) (void)c; int n = -1; for (int i = 1; i < (int)co.size(); i++) if (co[i]->st == READY) { n = i; break; } co[0]->st = READY; goTo(n); } }
}  // namespace

namespace sched {
void run(const std::function<void()>& body, int b, long k, int (*ch)(int)) {
    static bool once = (dl_iterate_phdr(findTls, nullptr), true); (void)once;
    for (size_t i = 1; i < co.size(); i++) delete co[i];
    co.clear(); own.clear();
    co.push_back(new Co);
    cur = 0; budget = b; kpoint = k; npoints = 0; nswitch = 0; chooser = ch;
    active = true;
    try { body(); }
    catch (...) { drain(); active = false; throw; }
    drain();
    active = false;
}
long points() { return npoints; }
int threads() { return (int)co.size() - 1; }
int switches() { return nswitch; }
}

#define E extern "C" __attribute__((visibility("default")))
E void sched_yield_point() { if (active) maySwitch(); }
E void sched_point() {
    if (!active || co.size() < 2) return;
    int n = 0;
    for (auto* c : co) n += c->st == READY;
    if (n < 2) return;                                       // nobody else could run here
    if (npoints++ == kpoint) {
        auto r = ready();
        if (r.size() > 1) goTo(r[1 + ask((int)r.size() - 1)]);
    }
}
E int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!active) return f(t, a, fn, arg);
    Co* c = new Co;
    c->fn = fn; c->arg = arg;
    if (tlsSize) { c->tls.assign(tlsSize, 0); memcpy(c->tls.data(), tlsImage, tlsInit); }
    getcontext(&c->ctx);
    c->ctx.uc_stack.ss_sp = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    c->ctx.uc_stack.ss_size = STACK;
    c->ctx.uc_link = nullptr;
    co.push_back(c);
    makecontext(&c->ctx, (void (*)())entry, 1, (int)co.size() - 1);
    *t = (pthread_t)(0x7000 + co.size() - 1);
    maySwitch();
    return 0;
}
E int pthread_join(pthread_t t, void** ret) {
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!active || t < 0x7000 || t >= 0x7000 + co.size()) return f(t, ret);
    Co* c = co[t - 0x7000];
    while (c->st != DONE) { co[cur]->st = JOIN; co[cur]->on = c; block(); }
    if (ret) *ret = c->ret;
    return 0;
}
E int pthread_detach(pthread_t t) {
    static auto f = real<int (*)(pthread_t)>("pthread_detach");
    return active && t >= 0x7000 && t < 0x7000 + co.size() ? 0 : f(t);
}
E pthread_t pthread_self() {
    static auto f = real<pthread_t (*)()>("pthread_self");
    return active && cur > 0 ? (pthread_t)(0x7000 + cur) : f();
}
E int pthread_mutex_lock(pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (!active) return f(m);
    lock(m, (m->__data.__kind & 3) == 1);
    return 0;
}
E int pthread_mutex_trylock(pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    if (!active) return f(m);
    maySwitch();
    Own& o = own[m];
    if (o.who != -1 && !(o.who == cur && (m->__data.__kind & 3) == 1)) return EBUSY;
    o.who = cur; o.count++;
    return 0;
}
E int pthread_mutex_unlock(pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    if (!active) return f(m);
    unlock(m);
    maySwitch();
    return 0;
}
E int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    if (!active) return f(c, m);
    co[cur]->st = COND; co[cur]->on = c;
    unlock(m);
    block();
    lock(m, false);
    return 0;
}
E int pthread_cond_signal(pthread_cond_t* c) {
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    if (!active) return f(c);
    std::vector<Co*> w;
    for (auto* x : co) if (x->st == COND && x->on == c) w.push_back(x);
    if (!w.empty()) { Co* x = w[ask((int)w.size())]; x->st = READY; x->on = nullptr; }
    maySwitch();
    return 0;
}
E int pthread_cond_broadcast(pthread_cond_t* c) {
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    if (!active) return f(c);
    wake(COND, c);
    maySwitch();
    return 0;
}
E void* pthread_getspecific(pthread_key_t k) {
    static auto f = real<void* (*)(pthread_key_t)>("pthread_getspecific");
    if (!active || cur == 0) return f(k);
    auto it = co[cur]->spec.find(k);
    return it == co[cur]->spec.end() ? nullptr : it->second;
}
E int pthread_setspecific(pthread_key_t k, const void* v) {
    static auto f = real<int (*)(pthread_key_t, const void*)>("pthread_setspecific");
    if (!active || cur == 0) return f(k, v);
    co[cur]->spec[k] = (void*)v;
    return 0;
}
// std::future readiness (libstdc++): the waiter is woken by the notifier
E bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void* self, unsigned* a, unsigned v, bool has, long s, long ns) {
    static auto f = real<bool (*)(void*, unsigned*, unsigned, bool, long, long)>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
    if (!active) return f(self, a, v, has, s, ns);
    if (*(volatile unsigned*)a != v) return true;
    co[cur]->st = FUTEX; co[cur]->on = a;
    block();
    return true;
}
E void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* a) {
    static auto f = real<void (*)(unsigned*)>("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
    if (!active) return f(a);
    wake(FUTEX, a);
    maySwitch();
}
E int sched_yield() {
    static auto f = real<int (*)()>("sched_yield");
    if (!active) return f();
    auto r = ready();
    if (r.size() > 1) goTo(r[1 + ask((int)r.size() - 1)]);
    return 0;
}
E int nanosleep(const timespec* a, timespec* b) {
    static auto f = real<int (*)(const timespec*, timespec*)>("nanosleep");
    if (!active) return f(a, b);
    return sched_yield();
}
E int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) {
    static auto f = real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep");
    if (!active) return f(c, fl, a, b);
    return sched_yield();
}
