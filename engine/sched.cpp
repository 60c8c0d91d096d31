// Deterministic user-level scheduler for multi-threaded code under test: pthread calls of the program are replaced by
// fibers on one OS thread (so that the symbolic runtime can fork). Every context switch is a named nondeterministic
// choice; the pass adds a scheduling point before every atomic access. Linked into the symbolic and the replay binary.
// Bound: at most `delays` deviations from the default schedule (run until blocked, then round robin).
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#include "sym.h"
extern "C" void sym_sched_fail(const char* label) __attribute__((noreturn));
namespace {
enum St { RUN, MUTEX, COND, JOIN, SLEEP, DONE };
struct Fiber
{
    ucontext_t c;
    St st = RUN;
    const void* on = nullptr;   // what it is blocked on
    const void* mtx = nullptr;  // mutex to reacquire after a condition wait
    bool timed = false;
    long long wake = 0;
    size_t joinee = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
};
std::vector<Fiber*> F;
std::map<const void*, size_t> owner;  // locked mutexes
size_t cur = 0, steps = 0, points = 0, sameRun = 0;
int delays = 0;
// virtual clock: every reading advances it by `tick` ns, sleeping advances it to the wake-up time when nothing else runs
long long vtime = 0, tick = 0;
void init()
{
    if (F.empty()) F.push_back(new Fiber());
}
void switchTo(size_t i)
{
    sameRun = 0;
    if (i == cur) return;
    size_t o = cur;
    cur = i;
    swapcontext(&F[o]->c, &F[i]->c);
}
std::vector<size_t> others()
{
    std::vector<size_t> r;
    for (auto* f : F)
        if (f->st == SLEEP && f->wake <= vtime) f->st = RUN;
    for (size_t k = 1; k < F.size(); k++)
    {
        size_t i = (cur + k) % F.size();
        if (F[i]->st == RUN) r.push_back(i);
    }
    return r;
}
int pick(size_t n)
{
    if (n < 2 || delays <= 0) return 0;
    int c = sym_choice(("sched" + std::to_string(points++)).c_str(), (int)n);
    if (c) delays--;
    return c;
}
void limit()
{
    if (++steps > 200000) sym_sched_fail("scheduler: no progress");
}
// the running fiber may be preempted here
void point(bool force = false)
{
    if (F.size() < 2) return;
    limit();
    auto o = others();
    if (o.empty()) return;
    if (force || ++sameRun > 2000) { switchTo(o[0]); return; }
    int c = pick(o.size() + 1);
    if (c) switchTo(o[c - 1]);
}
// the running fiber is blocked
void block()
{
    limit();
    while (true)
    {
        auto o = others();
        if (o.empty())
        {
            if (F[cur]->st == RUN) return;
            long long next = -1;
            for (auto* f : F)
                if (f->st == SLEEP && (next < 0 || f->wake < next)) next = f->wake;
            if (next >= 0)
            {
                vtime = next;
                o = others();
                if (F[cur]->st == RUN) return;
            }
        }
        if (o.empty())
        {
            // timed waits expire only when nothing else can run
            for (auto* f : F)
                if (f->st == COND && f->timed) { f->st = RUN; f->on = nullptr; }
            o = others();
            if (F[cur]->st == RUN) return;
        }
        if (o.empty()) sym_sched_fail("deadlock");
        switchTo(o[pick(o.size())]);
        if (F[cur]->st == RUN) return;
    }
}
void acquire(const void* m)
{
    while (owner.count(m))
    {
        if (owner[m] == cur) sym_sched_fail("deadlock");
        F[cur]->st = MUTEX;
        F[cur]->on = m;
        block();
    }
    owner[m] = cur;
}
void release(const void* m)
{
    owner.erase(m);
    for (auto* f : F)
        if (f->st == MUTEX && f->on == m) f->st = RUN;
}
void entry(unsigned i)
{
    Fiber* f = F[i];
    f->ret = f->fn(f->arg);
    f->st = DONE;
    for (auto* g : F)
        if (g->st == JOIN && g->joinee == i) g->st = RUN;
    block();
}
int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    init();
    point();
    release(m);
    F[cur]->st = COND;
    F[cur]->on = c;
    F[cur]->timed = timed;
    block();
    bool expired = timed && F[cur]->on == nullptr;
    F[cur]->timed = false;
    acquire(m);
    return expired ? ETIMEDOUT : 0;
}
void wake(pthread_cond_t* c, bool all)
{
    init();
    point();
    for (size_t k = 0; k < F.size(); k++)
    {
        Fiber* f = F[(cur + k) % F.size()];
        if (f->st == COND && f->on == c)
        {
            f->st = RUN;
            f->on = c;
            if (!all) return;
        }
    }
}
}
extern "C" {
void sym_sched_delays(int d) { delays = d; }
size_t sym_sched_running()
{
    size_t n = 0;
    for (auto* f : F) n += f->st != DONE;
    return n;
}
void __symrt_yield() { point(); }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    init();
    Fiber* f = new Fiber();
    f->fn = fn;
    f->arg = arg;
    getcontext(&f->c);
    size_t sz = 16u << 20;
    f->c.uc_stack.ss_sp = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    f->c.uc_stack.ss_size = sz;
    F.push_back(f);
    makecontext(&f->c, (void (*)())entry, 1, (unsigned)(F.size() - 1));
    *t = (pthread_t)(0x1000 + F.size() - 1);
    point();
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    size_t i = (size_t)t - 0x1000;
    point();
    while (F[i]->st != DONE)
    {
        F[cur]->st = JOIN;
        F[cur]->joinee = i;
        block();
    }
    if (r) *r = F[i]->ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    init();
    point();
    acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    init();
    point();
    if (owner.count(m)) return EBUSY;
    owner[m] = cur;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    release(m);
    return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { wake(c, true); return 0; }
int sched_yield() { point(true); return 0; }
int nanosleep(const struct timespec* d, struct timespec*)
{
    init();
    if (!tick) { point(true); return 0; }
    F[cur]->st = SLEEP;
    F[cur]->wake = vtime + d->tv_sec * 1000000000LL + d->tv_nsec;
    block();
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* d, struct timespec*)
{
    timespec r = *d;
    if (flags & TIMER_ABSTIME)
    {
        long long n = d->tv_sec * 1000000000LL + d->tv_nsec - vtime;
        if (n < 0) n = 0;
        r.tv_sec = n / 1000000000LL;
        r.tv_nsec = n % 1000000000LL;
    }
    nanosleep(&r, nullptr);
    return 0;
}
void sym_sched_clock(long long t) { tick = t; }
int clock_gettime(clockid_t c, struct timespec* t)
{
    if (!tick) return (int)syscall(SYS_clock_gettime, c, t);
    init();
    vtime += tick;
    // a sleeper that is due gets the processor
    for (size_t i = 0; i < F.size(); i++)
        if (i != cur && F[i]->st == SLEEP && F[i]->wake <= vtime)
        {
            F[i]->st = RUN;
            switchTo(i);
            break;
        }
    t->tv_sec = vtime / 1000000000LL;
    t->tv_nsec = vtime % 1000000000LL;
    return 0;
}
}
