// Bounded native battery for the host driver: the real sources of /repo/software/src, the real C++ library, mapped
// device memory replaced by traced memory (every access to it is single-stepped).  Prints "FAIL <what>" or "OK <n>".
// The code under test is linked as it is; open, mmap and close are the linker's wrapped versions below.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core_axi_lite.h"
#include "xilinx_dma.h"
#include "mmap_handler.h"
#include "tools.h"
#include "config.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <ucontext.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <random>
#include <sstream>
#include <algorithm>
using namespace std;
typedef uint32_t u32;
typedef uint64_t u64;

// ------------------------------------------------------------------ traced device memory
struct Region { u64 base; size_t len; char *at, *alias; bool traced; };
static Region reg[16];
static int nreg;
struct Ev { bool w; int r; u32 off; u32 val; };
static Ev evs[1 << 16];
static int nev;
static void (*on_read)(int r, u32 off);
static void (*on_write)(int r, u32 off, u32 val);
static int pend_r = -1;
static u32 pend_off;
static bool pend_w;
static string opened;
static int openflags, nopen, nclose, nmap;
static bool mapfail;
static u64 map_addr, map_len, map_off;
static int map_prot, map_flags, map_fd;
static bool strict = true;

static void die(const string &s) { printf("FAIL %s\n", s.c_str()); fflush(stdout); _exit(3); }
static string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }

static void on_segv(int, siginfo_t *si, void *vc)
{
    ucontext_t *uc = (ucontext_t *)vc;
    char *a = (char *)si->si_addr;
    for (int k = 0; k < nreg; k++)
        if (reg[k].traced && a >= reg[k].at && a < reg[k].at + reg[k].len) {
            pend_r = k;
            pend_off = (u32)(a - reg[k].at);
            pend_w = uc->uc_mcontext.gregs[REG_ERR] & 2;
            if (!pend_w && on_read) on_read(k, pend_off);
            mprotect(reg[k].at, (reg[k].len + 4095) & ~4095ul, PROT_READ | PROT_WRITE);
            uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
            return;
        }
    printf("FAIL access outside every mapping and buffer (address %p)\n", (void *)a);
    fflush(stdout);
    _exit(3);
}
static void on_trap(int, siginfo_t *, void *vc)
{
    ucontext_t *uc = (ucontext_t *)vc;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ull;
    if (pend_r < 0) return;
    Region &R = reg[pend_r];
    u32 v;
    memcpy(&v, R.alias + (pend_off & ~3u), 4);
    if (nev < (1 << 16)) evs[nev++] = Ev{pend_w, pend_r, pend_off, v};
    int k = pend_r;
    pend_r = -1;
    mprotect(R.at, (R.len + 4095) & ~4095ul, PROT_NONE);
    if (pend_w && on_write) on_write(k, pend_off, v);
}
static u32 &word(int r, u32 off) { return *(u32 *)(reg[r].alias + off); }

extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_open(const char *, int, ...);
int __real_close(int);
static const int FD = 7777;
int __wrap_open(const char *p, int fl, ...)
{
    if (string(p).substr(0, 5) == "/dev/") { opened = p; openflags = fl; nopen++; return FD; }
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return __real_open(p, fl, m);
}
int __wrap_open64(const char *p, int fl, ...) { return __wrap_open(p, fl, 0); }
int __wrap_close(int fd) { if (fd == FD) { nclose++; return 0; } return __real_close(fd); }
static bool tracing(u64 base);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t off)
{
    if (fd != FD) return __real_mmap(a, n, prot, fl, fd, off);
    nmap++;
    map_addr = (u64)a; map_len = n; map_off = (u64)off; map_prot = prot; map_flags = fl; map_fd = fd;
    if (mapfail) return MAP_FAILED;
    Region &R = reg[nreg];
    for (int k = 0; k < nreg; k++) if (reg[k].base == (u64)off) return reg[k].at;
    size_t m = (n + 4095) & ~4095ul;
    int mf = memfd_create("dev", 0);
    if (ftruncate(mf, m)) die("battery: memfd");
    char *g = (char *)__real_mmap(0, m + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    R.base = (u64)off; R.len = n; R.traced = tracing((u64)off);
    R.at = (char *)__real_mmap(g + 4096, m, R.traced ? PROT_NONE : prot, MAP_SHARED | MAP_FIXED, mf, 0);
    R.alias = (char *)__real_mmap(0, m, PROT_READ | PROT_WRITE, MAP_SHARED, mf, 0);
    __real_close(mf);
    if (!R.traced && n > 0x100000) memset(R.alias, 0xa5, m);          // memory holds something before
    nreg++;
    return R.at;
}
void *__wrap_mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) { return __wrap_mmap(a, n, prot, fl, fd, off); }
int __real_stat(const char *, struct stat *);
}
static bool trace_all = true;
static bool tracing(u64 base) { return trace_all || base == DMA_BASE; }

static void handlers()
{
    struct sigaction s;
    memset(&s, 0, sizeof s);
    s.sa_sigaction = on_segv;
    s.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &s, 0);
    sigaction(SIGBUS, &s, 0);
    s.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &s, 0);
}

static mt19937_64 rng;
static u64 rnd() { return rng(); }
static vector<u64> hints;              // values of a failed proof's counterexample
static u32 odd32() { if (hints.size() && rnd() % 3 == 0) return (u32)hints[rnd() % hints.size()]; u32 e[] = {0, 1, 0xffff, 0x10000, 0xffff0000u, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xf001}; return rnd() % 3 ? (u32)rnd() : e[rnd() % 9]; }
static long count_;

// run f in a child; returns exit code (-1: killed), output in out
static int child(function<void()> f, string *out = 0)
{
    char t[] = "/tmp/vpbXXXXXX";
    int fd = mkstemp(t);
    unlink(t);
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        dup2(fd, 1);
        alarm(40);
        f();
        fflush(stdout);
        cout.flush();
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) die("the code under test does not return");
    off_t n = lseek(fd, 0, SEEK_END);
    string s(n, 0);
    if (pread(fd, &s[0], n, 0) != n) die("battery: pread");
    __real_close(fd);
    if (out) *out = s;
    size_t q = s.find("FAIL ");
    if (q != string::npos) { printf("%s\n", s.substr(q, s.find('\n', q) - q).c_str()); fflush(stdout); _exit(3); }
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static void expect(vector<Ev> w, const string &what)
{
    vector<Ev> got;
    for (int k = 0; k < nev; k++) if (evs[k].w) got.push_back(evs[k]);
    bool ok = got.size() == w.size();
    for (size_t k = 0; ok && k < w.size(); k++) ok = got[k].off == w[k].off && got[k].val == w[k].val;
    if (ok) return;
    string s = what + ": wrote";
    for (auto &e : got) s += " [" + hex(e.off) + "]=" + hex(e.val);
    s += ", wanted";
    for (auto &e : w) s += " [" + hex(e.off) + "]=" + hex(e.val);
    die(s);
}

// ------------------------------------------------------------------ core registers
static void t_core()
{
    u32 base = 0x83C00000;
    for (int bd = 2; bd <= 16; bd++) {
        nreg = nev = nmap = 0;
        CoreAXILite c(base, bd);
        if (nmap != 1 || map_off != base || map_len < 0x10080) {
            if (map_len < 4 * 0x1008 || nmap != 1 || map_off != base) die("core constructor maps " + hex(map_off) + " length " + hex(map_len));
        }
        for (int it = 0; it < 60; it++) {
            for (u32 o = 0; o + 4 <= reg[0].len; o += 4) word(0, o) = odd32();
            u32 hw = word(0, 4 * 0x800), ac = word(0, 4 * 0x801);
            string ctx = " (register 0x800=" + hex(hw) + ", 0x801=" + hex(ac) + ")";
            nev = 0;
            if (c.get_height() != (hw & 0xffff)) die("get_height" + ctx);
            if (c.get_width() != hw >> 16) die("get_width" + ctx);
            if (c.get_allowed_cycles() != ac) die("get_allowed_cycles" + ctx);
            expect({}, "getters");
            u32 v = odd32();
            nev = 0; c.set_height(v);
            expect({Ev{true, 0, 4 * 0x800, (hw & 0xffff0000u) | (v & 0xffff)}}, "set_height(" + hex(v & 0xffff) + ")" + ctx);
            hw = word(0, 4 * 0x800);
            v = odd32();
            nev = 0; c.set_width(v);
            expect({Ev{true, 0, 4 * 0x800, (hw & 0xffff) | (v << 16)}}, "set_width(" + hex(v & 0xffff) + ")" + ctx);
            v = odd32();
            nev = 0; c.set_allowed_cycles(v);
            expect({Ev{true, 0, 4 * 0x801, v}}, "set_allowed_cycles(" + hex(v) + ")");
            // table
            for (int k = 0; k <= bd; k++) {
                u64 len = rnd() % 32;
                if (rnd() % 4 == 0) len = 16;
                u64 code = len ? rnd() & ((1ull << min<u64>(len, 31)) - 1) : 0;
                u64 e = (len << (16 + bd)) | ((code << (k < 16 ? k : 0)) & ((1ull << (16 + bd)) - 1));
                word(0, 4 * (0x400 + 2 * k)) = (u32)e;
                word(0, 4 * (0x401 + 2 * k)) = (u32)(e >> 32);
            }
            nev = 0;
            vector<string> L = c.get_ssss();
            expect({}, "get_ssss");
            if ((int)L.size() != bd + 1) die("get_ssss lists " + to_string(L.size()) + " categories at bit depth " + to_string(bd));
            for (int k = 0; k <= bd; k++) {
                u64 e = word(0, 4 * (0x400 + 2 * k)) | (u64)word(0, 4 * (0x401 + 2 * k)) << 32;
                u64 len = e >> (16 + bd), code = (k < 16 ? e >> k : e) & ((1ull << len) - 1);
                string &s = L[k];
                vector<u64> n;
                for (size_t p = 0; p < s.size();)
                    if (isdigit(s[p])) { size_t q; n.push_back(stoull(s.substr(p), &q)); p += q; } else p++;
                if (n.size() != 3 || n[0] != (u64)k || n[1] != (u32)code || n[2] != len || s.find("SSSS_CODE") == string::npos
                    || s.find("LENGTH") == string::npos || s.find("SSSS_CODE") > s.find("LENGTH"))
                    die("get_ssss line " + to_string(k) + " \"" + s + "\" for table entry " + hex(e) + " at bit depth " + to_string(bd));
            }
            // debugging counters
            const char *id[] = {"valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0"};
            nev = 0;
            vector<string> D = c.get_debug();
            expect({}, "get_debug");
            vector<string> vals;
            for (auto &s : D) if (s.find('=') != string::npos) vals.push_back(s);
            if (vals.size() != 8) die("get_debug lists " + to_string(vals.size()) + " counters");
            for (int k = 0; k < 8; k++) {
                size_t q = vals[k].find(':');
                if (vals[k].find(id[k]) != 0 || q == string::npos || stoull(vals[k].substr(q + 1)) != word(0, 4 * (0x1000 + k)))
                    die(string("get_debug line \"") + vals[k] + "\" for counter " + id[k] + " = " + to_string(word(0, 4 * (0x1000 + k))));
            }
            count_++;
        }
    }
    for (int bd : {0, 1, 17, 200})
        if (child([&] { nreg = 0; CoreAXILite c(0, bd); }) == 0) die("core constructor accepts bit depth " + to_string(bd));
}

// ------------------------------------------------------------------ DMA registers
static vector<u32> script;
static size_t script_at;
static u32 script_reg;
static void read_script(int r, u32 off)
{
    word(r, 4) = word(r, 0x34) = rnd() & ~0x1002u;            // the other channel is never finished
    if (off == script_reg) {
        if (script_at >= script.size()) die("still waiting after a finished status");
        word(r, off) = script[script_at++];
    }
}
static void t_dma()
{
    u32 base = 0x40400000;
    nreg = nev = nmap = 0;
    XilinxDMA d(base);
    if (nmap != 1 || map_off != base || map_len < 0x5c) die("DMA constructor maps " + hex(map_off) + " length " + hex(map_len));
    auto pair = [&](function<void()> f, u32 a, u32 va, u32 b, u32 vb, string what) {
        for (u32 o = 0; o < 0x60; o += 4) word(0, o) = odd32();
        nev = 0;
        f();
        vector<Ev> w;
        for (int k = 0; k < nev; k++) if (evs[k].w) w.push_back(evs[k]);
        bool ok = w.size() == 2 && ((w[0].off == a && w[0].val == va && w[1].off == b && w[1].val == vb) ||
                                    (w[1].off == a && w[1].val == va && w[0].off == b && w[0].val == vb));
        if (!ok) expect({Ev{true, 0, a, va}, Ev{true, 0, b, vb}}, what);
    };
    for (int it = 0; it < 100; it++) {
        u32 x = odd32(), y = odd32();
        pair([&] { d.reset_dma(); }, 0, 4, 0x30, 4, "reset_dma");
        pair([&] { d.halt_dma(); }, 0, 0, 0x30, 0, "halt_dma");
        pair([&] { d.start_dma(); }, 0, 0xf001, 0x30, 0xf001, "start_dma");
        pair([&] { d.set_dma_src_dist(x, y); }, 0x18, x, 0x48, y, "set_dma_src_dist");
        pair([&] { d.set_dma_transfer_len(x, y); }, 0x58, x, 0x28, y, "set_dma_transfer_len");
        for (int ch = 0; ch < 2; ch++) {
            script.clear();
            int n = rnd() % 6;
            for (int k = 0; k < n; k++) {
                u32 v = (u32)rnd() | (rnd() % 2 ? 0xffffefffu & (u32)rnd() : 0);
                v = rnd() % 2 ? v & ~0x1000u : v & ~2u;
                if (rnd() % 3 == 0) v |= rnd() % 2 ? 0x2 : 0;
                if ((v & 0x1002) == 0x1002) v &= ~0x1000u;
                script.push_back(v);
            }
            script.push_back((u32)rnd() | 0x1002);
            script_at = 0;
            script_reg = ch ? 0x34 : 4;
            on_read = read_script;
            nev = 0;
            if (ch) d.dma_s2mm_sync(); else d.dma_mm2s_sync();
            on_read = 0;
            expect({}, "sync");
            if (script_at != script.size()) die(string(ch ? "dma_s2mm_sync" : "dma_mm2s_sync") + " returned on status " + hex(script_at ? script[script_at - 1] : 0));
            count_++;
        }
    }
    struct { int b; const char *n; } B[] = {{1, "idle"}, {3, "SGIncld"}, {4, "DMAIntErr"}, {5, "DMASlvErr"}, {6, "DMADecErr"}, {8, "SGIntErr"},
        {9, "SGSlvErr"}, {10, "SGDecErr"}, {12, "IOC_Irq"}, {13, "Dly_Irq"}, {14, "Err_Irq"}};
    for (u32 it = 0; it < 6000; it++) {
        u32 v = it < 32 ? 1u << it : it < 64 ? ~(1u << (it - 32)) : (u32)rnd();
        for (int ch = 0; ch < 2; ch++) {
            word(0, 4) = word(0, 0x34) = ~v;
            word(0, ch ? 0x34 : 4) = v;
            nev = 0;
            vector<string> got = ch ? d.dma_s2mm_status() : d.dma_mm2s_status();
            expect({}, "status");
            vector<string> want{v & 1 ? "halted" : "running"};
            for (auto &b : B) if (v >> b.b & 1) want.push_back(b.n);
            if (got != want) {
                string s = string(ch ? "dma_s2mm_status" : "dma_mm2s_status") + " of " + hex(v) + " is";
                for (auto &g : got) s += " " + g;
                die(s);
            }
            count_++;
        }
    }
}

static void t_map()
{
    for (int it = 0; it < 20; it++) {
        nreg = nmap = nopen = nclose = 0;
        u32 base = (u32)rnd() & ~4095u, len = 1 + rnd() % 100000;
        if (it == 1) base = 0xfffff000u;
        if (it == 2) base = 0x80000000u;
        {
            MMapHandler m;
            if (nopen != 1 || opened != "/dev/mem" || (openflags & (O_RDWR | O_SYNC)) != (O_RDWR | O_SYNC)) die("memory device opened wrongly: " + opened + " flags " + hex(openflags));
            volatile void *p = m.mmap(base, len);
            if (nmap != 1 || map_off != base || map_len != len || map_prot != (PROT_READ | PROT_WRITE) || !(map_flags & MAP_SHARED) || (map_flags & MAP_FIXED))
                die("mmap(" + hex(base) + ", " + hex(len) + ") maps offset " + hex(map_off) + " length " + hex(map_len) + " prot " + hex(map_prot) + " flags " + hex(map_flags));
            if ((char *)p != reg[0].at) die("mmap does not return the mapping");
        }
        if (nclose != 1) die("memory device closed " + to_string(nclose) + " times");
        count_++;
    }
    if (child([] { mapfail = true; MMapHandler m; m.mmap(0, 4096); }) == 0) die("a failed mapping does not end the program");
}

// ------------------------------------------------------------------ tools
static void put(const string &fn, const string &s)
{
    FILE *f = fopen(fn.c_str(), "wb");
    if (s.size() && fwrite(s.data(), 1, s.size(), f) != s.size()) die("battery: write");
    fclose(f);
}
static string rand_bytes(size_t n)
{
    string s(n, 0);
    for (size_t k = 0; k < n; k++) { u64 r = rnd(); s[k] = (r & 0x700) ? (char)r : (char)0xff; }
    return s;
}
static string dir;
static void t_tools()
{
    for (size_t n : {(size_t)1, (size_t)2, (size_t)3, (size_t)127, (size_t)128, (size_t)129, (size_t)4095, (size_t)4096, (size_t)4097, (size_t)65537, (size_t)1000003}) {
        string s = rand_bytes(n), fn = dir + "/f";
        put(fn, s);
        string out;
        int r = child([&] {
            mem_data d = load_file(fn);
            if (d.length != n) die("load_file: length " + to_string(d.length) + " of a file of " + to_string(n));
            if (memcmp(d.pointer, s.data(), n)) die("load_file: wrong contents of a file of " + to_string(n));
            for (int k = 0; k < 128; k++) if (((char *)d.pointer)[n + k]) die("load_file: byte " + to_string(k) + " after a file of " + to_string(n) + " is not zero");
            mem_dump(d.pointer, n > 300 ? 300 : n);
            string t((char *)d.pointer, n);
            if (t != s) die("mem_dump changes the data");
            clear_mem_data(d);
        }, &out);
        if (r) die("load_file ends the program for a file of " + to_string(n) + " bytes");
        count_++;
    }
    put(dir + "/e", "");
    if (child([&] { load_file(dir + "/e"); }) == 0) die("load_file accepts an empty file");
    if (child([&] { load_file(dir + "/none"); }) == 0) die("load_file accepts a missing file");
    if (child([] { assert_term(false, "x"); }) == 0) die("assert_term(false) continues or succeeds");
    if (child([] { assert_term(true, "x"); }) != 0) die("assert_term(true) ends the program");
    char *b = new char[1000];
    memset(b, 7, 1000);
    for (u32 n = 0; n < 1000; n++) { if (n % 97 == 0) child([&] { mem_dump(b + 1000 - n, n); }); count_++; }
    clear_mem_data(mem_data(0, 0));
}

// ------------------------------------------------------------------ the test program
#ifdef WITH_MAIN
extern int vp_main(int, char **);
static string raw, lj;
static long corrupt;                 // offset of the byte to damage, -1: none
static int rsrc, rdst, rdma, polls;
static int started, finished_at;
static const u32 PIX = 4096 * 3072;
static int find_region(u64 b) { for (int k = 0; k < nreg; k++) if (reg[k].base == b) return k; return -1; }
static u32 px(u32 k)
{
    const unsigned char *b = (const unsigned char *)raw.data() + 3 * (k / 2);
    return k % 2 ? (b[1] & 15u) << 8 | b[2] : (u32)b[0] << 4 | b[1] >> 4;
}
static bool nomark;
static void begin()
{
    int s = find_region(SOURCE_BASE), d = find_region(DEST_BASE), m = find_region(DMA_BASE);
    if (s < 0 || d < 0) die("transfer started before the memories are mapped");
    if (!(word(m, 0) & 1) || !(word(m, 0x30) & 1)) die("transfer lengths written while a channel is not running");
    if (word(m, 0x18) != SOURCE_BASE || word(m, 0x48) != DEST_BASE) die("addresses are " + hex(word(m, 0x18)) + ", " + hex(word(m, 0x48)));
    if (word(m, 0x28) != PIX * 2) die("length sent " + to_string(word(m, 0x28)));
    if ((u64)SOURCE_BASE + 0x2000000 > DEST_BASE && (u64)DEST_BASE + 0x2000000 > SOURCE_BASE) die("source and destination memories overlap");
    u32 room = word(m, 0x58);
    if (room % 4 || room < lj.size() + 64 || room > 0x2000000) die("length received " + to_string(room) + " for a reference of " + to_string(lj.size()));
    if (INPUT_LENGTH == 64) {
        u64 *w = (u64 *)reg[s].alias;
        for (u32 k = 0; k < PIX; k += 4) {
            u64 e = (u64)px(k) << 52 | (u64)px(k + 1) << 40 | (u64)px(k + 2) << 28 | (u64)px(k + 3) << 16;
            if (w[k / 4] != e) die("source word " + to_string(k / 4) + " is " + hex(w[k / 4]) + " instead of " + hex(e));
        }
    } else {
        u32 *w = (u32 *)reg[s].alias;
        for (u32 k = 0; k < PIX; k += 2) {
            u32 e = px(k) << 20 | px(k + 1) << 8;
            if (w[k / 2] != e) die("source word " + to_string(k / 2) + " is " + hex(w[k / 2]) + " instead of " + hex(e));
        }
    }
    for (u32 k = 0; k < 0x2000000; k += 4) if (*(u32 *)(reg[d].alias + k)) die("destination not cleared at " + hex(k));
    int c = find_region(AXI_LITE_BASE);
    if (AXI_LITE_ENABLE) {
        if (c < 0 || word(c, 0x2000) != (4096u << 16 | 3072)) die("frame size register is " + (c < 0 ? "untouched" : hex(word(c, 0x2000))));
        if (word(c, 0x2004) < PIX / 2) die("cycle limit is " + hex(word(c, 0x2004)));
    } else if (c >= 0) die("core registers used though the core has none");
}
static void finish()
{
    int d = find_region(DEST_BASE);
    char *o = reg[d].alias;
    memset(o, 0xff, 16);
    string r = lj;
    if (r.size() % 2) r += '\0';
    for (size_t k = 0; k < r.size(); k++) o[16 + k] = r[k ^ 1];
    if (corrupt >= 0) o[16 + (corrupt ^ 1)] ^= 1 << (rnd() % 8);
    memset(o + 16 + r.size(), nomark ? 1 : 0xff, 16);
}
static int wrote_len;
static void main_write(int r, u32 off, u32 v)
{
    if (reg[r].base != DMA_BASE) return;
    if ((off == 0 || off == 0x30) && (v & 4)) { word(r, off) = 0; word(r, 4) = word(r, 0x34) = 1; wrote_len = 0; }
    if ((off == 0 || off == 0x30) && started && !(v & 1)) die("a channel is stopped during the transfer");
    if (off == 0x28) wrote_len |= 1;
    if (off == 0x58) wrote_len |= 2;
    if (wrote_len == 3 && !started) { started = 1; begin(); word(r, 4) = word(r, 0x34) = 0; }
}
static int sent, done;
static void main_read(int r, u32 off)
{
    if (reg[r].base != DMA_BASE || !started) return;
    if (off == 4 && !sent && --polls <= 0) { sent = 1; word(r, 4) = 0x1002; polls = 3; }
    if (off == 0x34 && sent && !done && --polls <= 0) { done = 1; finish(); word(r, 0x34) = 0x1002; }
}
static void t_main(int runs)
{
    trace_all = false;
    size_t sizes[] = {256, 257, 1000, 1001, 4098, 65535, 100002, 100003, 3000001};
    for (int it = 0; it < runs; it++) {
        raw = string((size_t)PIX / 2 * 3 + (it % 3 == 1 ? 77 : 0), 0);
        for (size_t k = 0; k + 8 <= raw.size(); k += 8) { u64 v = rnd(); memcpy(&raw[k], &v, 8); }
        for (size_t k = raw.size() & ~7ul; k < raw.size(); k++) raw[k] = rnd();
        size_t n = sizes[it % 9];
        if (it >= 9) n = 256 + rnd() % 200000;
        nomark = it % 9 == 8;
        if (nomark) n = 0x2000000 - 2048;                          // the longest, and no marker after it
        lj = rand_bytes(n);
        switch (it % 4) {
        case 0: corrupt = -1; break;
        case 1: corrupt = n - 1; break;
        case 2: corrupt = n - 1 - rnd() % 12; break;
        default: corrupt = rnd() % n;
        }
        if (it == 3) corrupt = 0;
        if (it == 4 || it == 5) corrupt = -1;
        if (hints.size() && it % 2 && !nomark) {
            n = hints[rnd() % hints.size()] % 0x1fff800;
            if (n < 256) n = 256;
            lj = rand_bytes(n);
            u64 c = hints[rnd() % hints.size()];
            corrupt = it % 4 == 1 ? -1 : c < n ? (long)c : (long)(n - 1 - rnd() % 12);
        }
        put(dir + "/raw", raw);
        put(dir + "/ref", lj);
        string out;
        polls = rnd() % 5;
        string a0 = "t", a1 = dir + "/raw", a2 = dir + "/ref";
        int r = child([&] {
            on_read = main_read;
            on_write = main_write;
            char *av[] = {&a0[0], &a1[0], &a2[0], 0};
            int rc = vp_main(3, av);
            if (!started) die("no transfer");
            if (!done) die("the result is used before the transfer has finished");
            fflush(stdout); cout.flush();
            _exit(rc);
        }, &out);
        bool ok = out.find("Validation succeeded") != string::npos, bad = out.find("Validation failed") != string::npos;
        string ctx = " (reference of " + to_string(n) + " bytes, " + (corrupt < 0 ? "output equal" : "output differs at byte " + to_string(corrupt)) + ")";
        if (r < 0) die("the program crashed" + ctx);
        if (ok == bad) die("no single verdict" + ctx);
        const char *kf = getenv("VERIF_FOUND");
        if (ok && n % 2 && corrupt == (long)n - 1 && kf && strstr(kf, "odd_reference_last_byte")) continue;   // listed finding
        if (ok != (corrupt < 0)) die(string("verdict ") + (ok ? "success" : "failure") + ctx);
        count_++;
    }
    // refusals
    string a0 = "t", a1 = dir + "/raw", a2 = dir + "/ref";
    char *av[] = {&a0[0], &a1[0], &a2[0], 0};
    if (child([&] { on_read = main_read; on_write = main_write; exit(vp_main(2, av)); }) == 0) die("runs without the reference file");
    raw.resize((size_t)PIX / 2 * 3 - 1);
    put(dir + "/raw", raw);
    if (child([&] { on_read = main_read; on_write = main_write; exit(vp_main(3, av)); }) == 0) die("accepts an image one byte short");
}
#endif

int main(int argc, char **argv)
{
    string t = argv[1];
    rng.seed(stoull(argv[2]));
    dir = argv[3];
    for (int k = 5; k < argc; k++) hints.push_back(stoull(argv[k]));
#ifndef NOTRACE
    handlers();
#endif
#ifdef WITH_MAIN
    if (t == "main") t_main(atoi(argv[4]));
#else
    if (t == "core") { string o; int r = child([] { t_core(); printf("\nN %ld\n", count_); }, &o); size_t q = o.rfind("\nN "); if (q != string::npos) count_ = atol(&o[q + 3]); if (r) die("crash in the register calls"); }
    if (t == "dma") { string o; int r = child([] { t_dma(); printf("\nN %ld\n", count_); }, &o); size_t q = o.rfind("\nN "); if (q != string::npos) count_ = atol(&o[q + 3]); if (r) die("crash in the DMA calls"); }
    if (t == "map") { string o; int r = child([] { t_map(); printf("\nN %ld\n", count_); }, &o); size_t q = o.rfind("\nN "); if (q != string::npos) count_ = atol(&o[q + 3]); if (r) die("crash in the mapping calls"); }
    if (t == "tools") t_tools();
#endif
    printf("OK %ld\n", count_);
    return 0;
}
