// An operator new that can be told to fail, for programs of one translation unit or (OOM_MAIN in one of them) several.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>

#include "mj.hpp"

namespace oom
{
inline long g_live = 0;      // blocks that were allocated and not released
inline long g_count = 0;     // allocations since the last arm()
inline long g_fail = -1;     // the one that fails
inline bool g_from = false;  // and all after it
inline bool g_hit = false;

inline void* take(std::size_t n, std::size_t align)
{
    if (g_fail >= 0) {
        const long k = g_count++;
        if (g_from ? k >= g_fail : k == g_fail) {
            g_hit = true;
            return nullptr;
        }
    }
    else {
        ++g_count;
    }
    void* p = align > alignof(std::max_align_t) ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p) {
        std::abort();
    }
    ++g_live;
    return p;
}
inline void* take_or_throw(std::size_t n, std::size_t align)
{
    void* p = take(n, align);
    if (!p) {
        throw std::bad_alloc();
    }
    return p;
}
inline void give(void* p) noexcept
{
    if (p) {
        --g_live;
        std::free(p);
    }
}
inline void arm(long n, bool from)
{
    g_count = 0;
    g_hit = false;
    g_from = from;
    g_fail = n;
}
inline void disarm() { g_fail = -1; }

// f() with the n-th allocation failing
template <typename F>
inline std::string failing(long n, bool from, F&& f)
{
    std::string r;
    try {
        arm(n, from);
        r = f();
        disarm();
    }
    catch (const std::bad_alloc&) {
        disarm();
        r = "[\"bad\"]";
    }
    catch (const json::exception&) {
        disarm();
        r = "[\"jexc\"]";
    }
    catch (const mj::Unreal&) {
        disarm();
        throw;
    }
    catch (const std::exception&) {
        disarm();
        r = "[\"sexc\"]";
    }
    catch (...) {
        disarm();
        r = "[\"oexc\"]";
    }
    return r;
}

// the allocations of k to fail: all, or some of very many
inline std::vector<long> points(long k, long most = 40)
{
    std::vector<long> r;
    for (long i = 0; i < k; ++i) {
        if (k <= most || i < most / 2 || i >= k - most / 4 || (i - most / 2) % ((k - most) / (most / 4) + 1) == 0) {
            r.push_back(i);
        }
    }
    return r;
}

// f() with each of its k allocations failing, alone and with all after it. setup() comes before each attempt; finish(how it
// ended) gives what there is to tell, finish("") cleans up. tell(outcome, lost) is called for each attempt that was hit.
template <typename Setup, typename F, typename Finish, typename Tell>
void each(long k, long most, Setup&& setup, F&& f, Finish&& finish, Tell&& tell)
{
    for (long n : points(k, most)) {
        for (int from = 0; from < 2; ++from) {
            for (int attempt = 0; attempt < 2; ++attempt) { // what is set up once, in the first use, is not lost
                const long before = g_live;
                char* kept = nullptr;
                size_t size = 0;
                bool hit = false;
                {
                    setup();
                    std::string r = failing(n, from, f);
                    hit = g_hit;
                    if (hit) {
                        r = finish(std::move(r));
                        size = r.size();
                        kept = static_cast<char*>(std::malloc(size + 1));
                        std::memcpy(kept, r.data(), size);
                    }
                }
                finish(std::string());
                if (!hit) {
                    break;
                }
                const bool lost = g_live != before;
                if (!lost || attempt) {
                    tell(std::string(kept, size), lost);
                    std::free(kept);
                    break;
                }
                std::free(kept);
            }
        }
    }
}
} // namespace oom

#ifdef OOM_MAIN
void* operator new(std::size_t n) { return oom::take_or_throw(n, 0); }
void* operator new[](std::size_t n) { return oom::take_or_throw(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return oom::take_or_throw(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return oom::take_or_throw(n, static_cast<std::size_t>(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return oom::take(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return oom::take(n, 0); }
void operator delete(void* p) noexcept { oom::give(p); }
void operator delete[](void* p) noexcept { oom::give(p); }
void operator delete(void* p, std::size_t) noexcept { oom::give(p); }
void operator delete[](void* p, std::size_t) noexcept { oom::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { oom::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { oom::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { oom::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { oom::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { oom::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { oom::give(p); }
#endif
