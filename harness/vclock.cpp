// Virtual clock: interposes the clock and every timed wait, so that the code under test runs in simulated time.
#include "vh.h"
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vh
{
    bool Enabled = false;
    int64_t NowNs = EPOCH_NS;
    std::function<void()> OnWait;      // after every wait on a condition
    std::function<void()> OnWaitBegin; // before it

    struct TAction
    {
        std::function<void()> F;
        bool InBus;
    };
    static std::multimap<int64_t, TAction> Actions; // by time in us

    void Start()
    {
        Enabled = true;
        NowNs = EPOCH_NS;
        Actions.clear();
    }
    void At(int64_t us, std::function<void()> f, bool inBus)
    {
        Actions.insert({us, {f, inBus}});
    }
    void ClearActions()
    {
        Actions.clear();
    }
    int64_t NextActionUs()
    {
        return Actions.empty() ? -1 : Actions.begin()->first;
    }
    bool RunDue(bool inBus)
    {
        bool res = false;
        for (auto it = Actions.begin(); it != Actions.end() && it->first <= NowUs();) {
            if (inBus && !it->second.InBus) {
                // keep the order of actions
                break;
            }
            auto f = it->second.F;
            Actions.erase(it);
            f();
            res = true;
            it = Actions.begin();
        }
        return res;
    }
    void AdvanceUs(int64_t us)
    {
        int64_t target = NowNs + us * 1000;
        for (;;) {
            auto it = Actions.begin();
            if (it == Actions.end() || !it->second.InBus || EPOCH_NS + it->first * 1000 > target) {
                break;
            }
            NowNs = std::max(NowNs, EPOCH_NS + it->first * 1000);
            RunDue(true);
        }
        NowNs = std::max(NowNs, target);
    }

    static int Sleep(const struct timespec* ts)
    {
        AdvanceUs(ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000);
        return 0;
    }
}

namespace std
{
    namespace chrono
    {
        inline namespace _V2
        {
            steady_clock::time_point steady_clock::now() noexcept
            {
                if (vh::Enabled) {
                    return time_point(duration(vh::NowNs));
                }
                timespec ts;
                syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
                return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
            }
            system_clock::time_point system_clock::now() noexcept
            {
                if (vh::Enabled) {
                    return time_point(duration(vh::NowNs + 1700000000LL * 1000000000LL));
                }
                timespec ts;
                syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
                return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
            }
        }
    }
}

extern "C" int nanosleep(const struct timespec* req, struct timespec*)
{
    if (vh::Enabled) {
        return vh::Sleep(req);
    }
    return syscall(SYS_nanosleep, req, nullptr) == 0 ? 0 : -1;
}
extern "C" int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req, struct timespec*)
{
    if (vh::Enabled) {
        return vh::Sleep(req);
    }
    return syscall(SYS_clock_nanosleep, clk, flags, req, nullptr) == 0 ? 0 : errno;
}
extern "C" int usleep(useconds_t us)
{
    timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

static int TimedWait(pthread_mutex_t* m, const struct timespec* abs, bool realtime)
{
    int64_t target = abs->tv_sec * 1000000000LL + abs->tv_nsec;
    if (realtime) {
        target -= 1700000000LL * 1000000000LL;
    }
    if (vh::OnWaitBegin) {
        vh::OnWaitBegin();
    }
    int64_t next = vh::NextActionUs();
    if (next >= 0 && vh::EPOCH_NS + next * 1000 <= target) {
        vh::NowNs = std::max(vh::NowNs, vh::EPOCH_NS + next * 1000);
        pthread_mutex_unlock(m);
        vh::RunDue(false);
        pthread_mutex_lock(m);
        if (vh::OnWait) {
            vh::OnWait();
        }
        return 0;
    }
    // a wait that is over at once takes some time too
    vh::NowNs = std::max(vh::NowNs + (target <= vh::NowNs ? 10000 : 0), target);
    if (vh::OnWait) {
        vh::OnWait();
    }
    return ETIMEDOUT;
}

// Only ever used with a virtual clock by single threaded drivers; the others must not enable it
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs)
{
    if (vh::Enabled) {
        return TimedWait(m, abs, clk == CLOCK_REALTIME);
    }
    typedef int (*TFn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    static TFn fn = (TFn)dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    return fn(c, m, clk, abs);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs)
{
    if (vh::Enabled) {
        return TimedWait(m, abs, true);
    }
    typedef int (*TFn)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    static TFn fn = (TFn)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    return fn(c, m, abs);
}
