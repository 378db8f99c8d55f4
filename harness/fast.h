// light allocator for inner-loop enumerations: counts blocks, fills memory
#pragma once
#include "mc.h"
#include "strophe.h"
#include <cstdlib>
#include <cstring>
struct FastAlloc {
    xmpp_mem_t mem;
    long live = 0;
    int fill = 0xA5;
    static void *al(size_t n, void *u)
    {
        FastAlloc *f = (FastAlloc *)u;
        char *p = (char *)malloc(n ? n : 1);
        memset(p, f->fill, n);
        f->live++;
        return p;
    }
    static void fr(void *p, void *u)
    {
        if (!p)
            return;
        ((FastAlloc *)u)->live--;
        free(p);
    }
    static void *re(void *p, size_t n, void *u)
    {
        if (!p)
            return al(n, u);
        return realloc(p, n ? n : 1);
    }
    FastAlloc()
    {
        mem.alloc = al;
        mem.free = fr;
        mem.realloc = re;
        mem.userdata = this;
    }
};
struct FastCtx {
    FastAlloc a;
    xmpp_ctx_t *ctx;
    FastCtx() { ctx = xmpp_ctx_new(&a.mem, nullptr); }
    ~FastCtx() { xmpp_ctx_free(ctx); }
};
// exact-size heap copy, so that the address sanitizer sees over-reads
struct Exact {
    char *p;
    size_t n;
    explicit Exact(const std::string &s) : n(s.size())
    {
        p = (char *)malloc(n ? n : 1);
        memcpy(p, s.data(), n);
    }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete;
};
