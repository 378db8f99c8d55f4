// Which allocations do not go through the context's allocator.
#pragma once
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" char *__real_strdup(const char *);
extern "C" char *__real_strndup(const char *, size_t);
namespace bypass
{
bool armed;
int calls;
// (a) the library's own calls: these references are redirected at link time.
// The allocator given to the context is the only other user of malloc().
void direct(const char *what)
{
    if (armed && !sim::Alloc::depth)
        mc::fail("bypass", "%s() is called directly", what);
}
// (b) expat and zlib, found on the call stack
struct Range {
    uintptr_t a, b;
    S name;
};
std::vector<Range> &ranges()
{
    static std::vector<Range> r;
    return r;
}
int phdr(struct dl_phdr_info *i, size_t, void *)
{
    S n = i->dlpi_name ? i->dlpi_name : "";
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            ranges().push_back({a, a + i->dlpi_phdr[k].p_memsz, n});
        }
    return 0;
}
struct Walk {
    bool asan = false;
    S who;
    int n = 0;
};
_Unwind_Reason_Code frame(struct _Unwind_Context *c, void *u)
{
    Walk *w = (Walk *)u;
    uintptr_t ip = _Unwind_GetIP(c);
    if (++w->n > 12)
        return _URC_END_OF_STACK;
    for (auto &r : ranges())
        if (ip >= r.a && ip < r.b) {
            bool asan = r.name.find("libasan") != S::npos;
            if (asan)
                w->asan = true;
            else if (w->asan) {
                w->who = r.name;
                return _URC_END_OF_STACK;
            }
            return _URC_NO_REASON;
        }
    return _URC_NO_REASON;
}
bool in_hook;
void on_malloc(const volatile void *, size_t)
{
    if (!armed || in_hook || sim::Alloc::depth)
        return;
    in_hook = true;
    Walk w;
    _Unwind_Backtrace(frame, &w);
    calls++;
    for (auto n : {"libexpat", "libz."})
        if (w.who.find(n) != S::npos)
            mc::fail(S("bypass:") + n, "%s allocates memory from the C library",
                     w.who.c_str());
    in_hook = false;
}
void on_free(const volatile void *) {}
void arm()
{
    static bool once;
    if (!once) {
        once = true;
        dl_iterate_phdr(phdr, nullptr);
        bool e = false, a = false;
        for (auto &r : ranges()) {
            e = e || r.name.find("libexpat") != S::npos;
            a = a || r.name.find("libasan") != S::npos;
        }
        if (!e || !a || !__sanitizer_install_malloc_and_free_hooks(on_malloc,
                                                                   on_free))
            mc::fail("harness:hooks", "cannot watch the allocator");
    }
    armed = true;
    calls = 0;
}
struct Arm {
    Arm() { arm(); }
    ~Arm() { armed = false; }
};
void run()
{
    sim::reset();
    // another context was there first, it may be gone or not
    sim::Alloc first;
    xmpp_ctx_t *fx = xmpp_ctx_new(&first.mem, quiet());
    xmpp_conn_t *fc = xmpp_conn_new(fx);
    bool gone = mc::choose(2, "the first context is gone");
    if (gone) {
        xmpp_conn_release(fc);
        xmpp_ctx_free(fx);
    }
    Arm a;
    Nego n;
    int k = mc::choose(NKINDS, "kind of connection");
    kind(n, k);
    n.setup();
    go(n, k);
    n.run();
    busy(n, 1);
    n.srv.send("<message from='x@y'><body>" + S(5000, 'b') +
               "</body></message>");
    n.run(6);
    ending(n, mc::choose(NENDS, "end"), k);
    finish(n);
    armed = false;
    if (!gone) {
        xmpp_conn_release(fc);
        xmpp_ctx_free(fx);
    }
    first.report_leaks("leak");
    mc::state(mc::fnv(mc::fmt("%d", k)));
    mc::trace("%d allocations looked at", calls);
}
// several contexts at a time, each with an allocator of its own
void contexts()
{
    sim::reset();
    Arm a;
    sim::Alloc al[3];
    xmpp_ctx_t *x[3];
    xmpp_conn_t *c[3];
    xmpp_stanza_t *s[3] = {};
    for (int i = 0; i < 3; i++) {
        x[i] = xmpp_ctx_new(&al[i].mem, quiet());
        c[i] = i < 2 ? xmpp_conn_new(x[i]) : nullptr;
    }
    bool live[3] = {true, true, true};
    int len = 5;
    for (int i = 0; i < len; i++) {
        int k = mc::choose(3, "context");
        if (!live[k]) {
            // a new one in its place
            x[k] = xmpp_ctx_new(&al[k].mem, quiet());
            c[k] = nullptr;
            live[k] = true;
        }
        switch (mc::choose(3, "call")) {
        case 0:
            if (s[k])
                xmpp_stanza_release(s[k]);
            s[k] = xmpp_stanza_new_from_string(
                x[k], "<a b='c'>text<d xmlns='u'/></a>");
            if (!s[k])
                mc::fail("harness:parse", "refused");
            break;
        case 1:
            if (c[k])
                xmpp_conn_release(c[k]);
            c[k] = xmpp_conn_new(x[k]);
            break;
        case 2:
            if (s[k])
                xmpp_stanza_release(s[k]);
            s[k] = nullptr;
            if (c[k])
                xmpp_conn_release(c[k]);
            c[k] = nullptr;
            xmpp_ctx_free(x[k]);
            live[k] = false;
            al[k].report_leaks("leak");
            break;
        }
    }
    for (int k = 0; k < 3; k++) {
        if (!live[k])
            continue;
        if (s[k])
            xmpp_stanza_release(s[k]);
        if (c[k])
            xmpp_conn_release(c[k]);
        xmpp_ctx_free(x[k]);
        al[k].report_leaks("leak");
    }
}
} // namespace bypass
extern "C" {
void *__wrap_malloc(size_t n)
{
    bypass::direct("malloc");
    return __real_malloc(n);
}
void *__wrap_calloc(size_t m, size_t n)
{
    bypass::direct("calloc");
    return __real_calloc(m, n);
}
void *__wrap_realloc(void *p, size_t n)
{
    bypass::direct("realloc");
    return __real_realloc(p, n);
}
char *__wrap_strdup(const char *s)
{
    bypass::direct("strdup");
    return __real_strdup(s);
}
char *__wrap_strndup(const char *s, size_t n)
{
    bypass::direct("strndup");
    return __real_strndup(s, n);
}
}
