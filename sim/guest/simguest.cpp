// simguest: deterministic simulator for executables produced by shecc.
//
// Interprets ARMv7-A (A32, user mode, integer) and RV32IM machine code under a
// simulated Linux kernel.  Every source of nondeterminism (mapping placement,
// initial registers, stack placement, short/failed system calls, asynchronous
// interrupts, kill points, disk space, memory limits) is decided by the
// scenario that is read from standard input, so one scenario is one exactly
// repeatable execution.
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <algorithm>

typedef uint32_t u32;
typedef int32_t i32;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;
using std::string;
using std::vector;
using std::map;

static u64 splitmix(u64 &s) {
    u64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static u64 fnv(u64 h, const void *p, size_t n) {
    const u8 *b = (const u8 *) p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
static const u64 FNV0 = 1469598103934665603ULL;

enum { P_R = 1, P_W = 2, P_X = 4 };

struct Inode {
    string data;
    bool dir = false, ro = false, noread = false;
    u32 created_mode = 0;
};
struct OpenFile {
    std::shared_ptr<Inode> ino;
    string path;
    u64 off = 0;
    int flags = 0;
    int special = 0;  // 1 stdin 2 stdout 3 stderr
};

struct Fault {
    string name, kind;
    i64 nth;  // 1-based, counted per syscall name; 0 = every
    i64 arg;
    u64 hits = 0;
};

struct Scenario {
    string elf;
    vector<string> args, envs;
    map<string, std::shared_ptr<Inode>> fs;
    string stdin_data;
    u64 seed = 1;
    string place = "down";
    u32 mmap_base = 0xf7000000u, stack_top = 0xff000000u, stack_max = 8u << 20;
    u32 stack_shift = 0;
    u64 max_insn = 2000000000ULL;
    u64 mem_limit = 0xffffffffULL;
    u64 disk_cap = ~0ULL;
    vector<Fault> faults;
    vector<std::pair<u64, u32>> irqs;
    u64 irq_every = 0, irq_start = 0, irq_end = ~0ULL;
    u32 irq_depth = 64;
    u64 kill_at = 0;
    bool hist = false;
    bool regzero = false;
    vector<vector<i32>> ops;
    std::set<string> outfiles;
    bool dumpfiles = true;
    bool wx_text = false;  // flag writes to code
    u32 text_end = 0;
    string progpath;  // if set: path under which the ELF bytes also exist
};

enum Op : uint16_t {
    // ARM
    A_UNDEF, A_DP, A_MUL, A_MLA, A_MULL, A_DIV, A_MOVW, A_MOVT, A_LDST, A_LDSTX, A_LDM, A_STM,
    A_B, A_BL, A_BX, A_BLX, A_SVC, A_NOP, A_CLZ,
    A_DPR, A_DPI, // fast no-shift non-flag reg / imm
    // RV
    R_UNDEF, R_LUI, R_AUIPC, R_JAL, R_JALR, R_BEQ, R_BNE, R_BLT, R_BGE, R_BLTU, R_BGEU,
    R_LB, R_LH, R_LW, R_LBU, R_LHU, R_SB, R_SH, R_SW,
    R_ADDI, R_SLTI, R_SLTIU, R_XORI, R_ORI, R_ANDI, R_SLLI, R_SRLI, R_SRAI,
    R_ADD, R_SUB, R_SLL, R_SLT, R_SLTU, R_XOR, R_SRL, R_SRA, R_OR, R_AND,
    R_MUL, R_MULH, R_MULHSU, R_MULHU, R_DIV, R_DIVU, R_REM, R_REMU,
    R_ECALL, R_FENCE, R_EBREAK,
    X_FETCH = 0xffff
};

struct Insn {
    uint16_t op = X_FETCH;
    u8 cond = 14, rd = 0, rn = 0, rm = 0, rs = 0, sub = 0, flags = 0, sh = 0, seen = 0;
    u32 imm = 0;
};

struct Page {
    u8 *mem;
    u8 perm;
    Insn *dec;
};

enum Status { RUNNING, EXITED, SIGNALED, KILLED, LIMIT };

struct Machine {
    Scenario &S;
    Page **pt;  // 1M entries
    vector<u32> pages;
    map<u32, u32> vmas;  // mmap regions start -> end
    vector<std::pair<u32, u32>> gaps;  // holes left by munmap (for top-down placement)
    u64 down_low = 0, up_high = 0;
    u32 r[33];
    u32 pc = 0;
    bool N = false, Z = false, C = false, V = false;
    bool arm = false;
    u64 insn = 0;
    Status st = RUNNING;
    int code = 0;
    u32 faddr = 0;
    string why;
    map<int, OpenFile> fds;
    string out, err;
    u64 mem_used = 0, disk_used = 0;
    map<string, u64> sysn;
    map<string, u64> injected;
    u64 thash = FNV0;
    string hist;
    u64 rng;
    size_t opidx = 0;
    size_t irqidx = 0;
    u64 irqs_done = 0;
    u64 next_event = 0;
    u32 stack_lo = 0;
    u32 stack_low = 0xffffffff;
    u32 min_sp = 0xffffffff;
    u64 cov = 0;
    u32 code_lo = 0, code_hi = 0, seg_lo = 0, seg_hi = 0;
    u64 code_writes = 0, foreign_unmap = 0, hole_unmap = 0;
    u64 unknown_sys = 0;
    size_t stdin_off = 0;
    u32 stack_top = 0;

    Machine(Scenario &s) : S(s) {
        pt = (Page **) calloc(1 << 20, sizeof(Page *));
        memset(r, 0, sizeof r);
        rng = s.seed * 0x2545F4914F6CDD1DULL + 77;
    }
    ~Machine() {
        for (u32 p : pages)
            if (pt[p]) {
                free(pt[p]->mem);
                free(pt[p]->dec);
                free(pt[p]);
            }
        free(pt);
    }
    void h(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

    void addpage(u32 p, u8 perm) {
        if (pt[p]) { pt[p]->perm |= perm; return; }
        Page *g = (Page *) calloc(1, sizeof(Page));
        g->mem = (u8 *) calloc(1, 4096);
        g->perm = perm;
        pt[p] = g;
        pages.push_back(p);
    }
    void delpage(u32 p) {
        if (!pt[p]) return;
        free(pt[p]->mem); free(pt[p]->dec); free(pt[p]);
        pt[p] = nullptr;
    }
    Page *lookup(u32 a, u8 perm) {
        Page *g = pt[a >> 12];
        if (__builtin_expect(g && (g->perm & perm) == perm, 1)) return g;
        if (!g && a >= stack_lo && a < stack_top) {
            addpage(a >> 12, P_R | P_W);
            if (a < stack_low) stack_low = a & ~4095u;
            return pt[a >> 12];
        }
        return nullptr;
    }
    void segv(u32 a, const char *w) {
        if (st != RUNNING) return;
        st = SIGNALED; code = 11; faddr = a; why = w;
    }
    // lazily mapped anonymous memory: vma membership
    bool in_vma(u32 a) {
        auto it = vmas.upper_bound(a);
        if (it == vmas.begin()) return false;
        --it;
        return a < it->second;
    }
    Page *need(u32 a, u8 perm) {
        Page *g = lookup(a, perm);
        if (__builtin_expect(!!g, 1)) return g;
        if (!pt[a >> 12] && in_vma(a)) {
            addpage(a >> 12, P_R | P_W);
            return pt[a >> 12];
        }
        return nullptr;
    }
    u32 ld8(u32 a) {
        Page *g = need(a, P_R);
        if (!g) { segv(a, "load"); return 0; }
        return g->mem[a & 4095];
    }
    u32 ld32(u32 a) {
        if (__builtin_expect((a & 4095) <= 4092, 1)) {
            Page *g = need(a, P_R);
            if (!g) { segv(a, "load"); return 0; }
            u32 v; memcpy(&v, g->mem + (a & 4095), 4); return v;
        }
        return ld8(a) | ld8(a + 1) << 8 | ld8(a + 2) << 16 | ld8(a + 3) << 24;
    }
    u32 ld16(u32 a) { return ld8(a) | ld8(a + 1) << 8; }
    void inval(Page *g, u32 a) { g->dec[(a & 4095) >> 2].op = X_FETCH; }
    void st8(u32 a, u32 v) {
        Page *g = need(a, P_W);
        if (!g) { segv(a, "store"); return; }
        g->mem[a & 4095] = (u8) v;
        if (g->dec) inval(g, a);
        if (a >= code_lo && a < code_hi) code_writes++;
    }
    void st32(u32 a, u32 v) {
        if (__builtin_expect((a & 4095) <= 4092, 1)) {
            Page *g = need(a, P_W);
            if (!g) { segv(a, "store"); return; }
            memcpy(g->mem + (a & 4095), &v, 4);
            if (__builtin_expect(!!g->dec, 0)) { inval(g, a); inval(g, a + 3); }
            if (a >= code_lo && a < code_hi) code_writes++;
            return;
        }
        st8(a, v); st8(a + 1, v >> 8); st8(a + 2, v >> 16); st8(a + 3, v >> 24);
    }
    void st16(u32 a, u32 v) { st8(a, v); st8(a + 1, v >> 8); }
    bool rd_str(u32 a, string &s) {
        for (int i = 0; i < 65536; i++) {
            Page *g = need(a + i, P_R);
            if (!g) return false;
            char c = g->mem[(a + i) & 4095];
            if (!c) return true;
            s += c;
        }
        return false;
    }

    bool load();
    void setup_stack();
    u32 do_mmap(u32 len);
    void syscall_();
    void run();
    void step_arm();
    void decode_arm(u32 w, Insn &d, u32 at);
    void decode_rv(u32 w, Insn &d, u32 at);
    bool exec_arm(Insn &d);
    bool exec_rv(Insn &d);
    void irq(u32 depth);
    void events();
    void report();
};

void Machine::h(const char *fmt, ...) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof b - 1) n = sizeof b - 1;
    thash = fnv(thash, b, n);
    if (S.hist && hist.size() < (32u << 20)) { hist.append(b, n); hist += '\n'; }
}

static u32 g32(const string &s, size_t o) { u32 v = 0; if (o + 4 <= s.size()) memcpy(&v, s.data() + o, 4); return v; }
static u32 g16(const string &s, size_t o) { uint16_t v = 0; if (o + 2 <= s.size()) memcpy(&v, s.data() + o, 2); return v; }

bool Machine::load() {
    const string &e = S.elf;
    if (e.size() < 0x54 || memcmp(e.data(), "\177ELF\1\1\1", 7)) { why = "not an ELF32 LE image"; return false; }
    u32 mach = g16(e, 18);
    if (mach == 0x28) arm = true;
    else if (mach == 0xf3) arm = false;
    else { why = "machine"; return false; }
    if (g16(e, 16) != 2) { why = "not ET_EXEC"; return false; }
    pc = g32(e, 24);
    u32 phoff = g32(e, 28);
    u32 phn = g16(e, 44), phs = g16(e, 42);
    bool any = false;
    for (u32 i = 0; i < phn; i++) {
        u32 o = phoff + i * phs;
        if (g32(e, o) != 1) continue;
        u32 off = g32(e, o + 4), va = g32(e, o + 8), fsz = g32(e, o + 16), msz = g32(e, o + 20), fl = g32(e, o + 24);
        if ((u64) off + fsz > e.size()) { why = "segment beyond end of file"; return false; }
        if ((off & 4095) != (va & 4095)) { why = "segment offset/address not congruent"; return false; }
        if (msz < fsz) { why = "memsz < filesz"; return false; }
        u8 perm = ((fl & 4) ? P_R : 0) | ((fl & 2) ? P_W : 0) | ((fl & 1) ? P_X : 0);
        for (u32 p = va >> 12; p <= (va + msz - 1) >> 12; p++) addpage(p, perm);
        // the kernel maps whole pages of the file
        for (u32 k = 0; k < fsz; k++) pt[(va + k) >> 12]->mem[(va + k) & 4095] = e[off + k];
        // what follows the segment in its last page is nothing a program may rely on
        if (msz == fsz) {
            u64 gs = S.seed ^ 0x6a09e667f3bcc909ULL;
            for (u64 a = (u64) va + msz; a & 4095; a++) pt[a >> 12]->mem[a & 4095] = (u8) splitmix(gs);
        }
        for (u32 a = va & ~4095u; a < va; a++) {
            u32 fo = off - (va - a);
            if (fo < e.size()) pt[a >> 12]->mem[a & 4095] = e[fo];
        }
        seg_lo = va; seg_hi = va + msz;
        any = true;
    }
    if (!any) { why = "no loadable segment"; return false; }
    // section table: code range
    u32 sho = g32(e, 32), shn = g16(e, 48), shs = g16(e, 46);
    for (u32 i = 0; i < shn && shs >= 40; i++) {
        u32 o = sho + i * shs;
        if (g32(e, o + 4) == 1 && (g32(e, o + 8) & 4)) { code_lo = g32(e, o + 12); code_hi = code_lo + g32(e, o + 20); }
    }
    return true;
}

void Machine::setup_stack() {
    stack_top = S.stack_top;
    stack_lo = stack_top - S.stack_max;
    u32 p = stack_top - 64 - S.stack_shift;
    vector<u32> av, ev;
    auto push = [&](const string &s) {
        p -= s.size() + 1;
        for (size_t i = 0; i <= s.size(); i++) st8(p + i, i < s.size() ? (u8) s[i] : 0);
        return p;
    };
    for (auto &a : S.args) av.push_back(push(a));
    for (auto &a : S.envs) ev.push_back(push(a));
    p &= ~15u;
    p -= 16;
    for (int i = 0; i < 16; i++) st8(p + i, (u8) splitmix(rng));  // AT_RANDOM
    u32 rnd = p;
    vector<u32> w;
    w.push_back(av.size());
    for (u32 a : av) w.push_back(a);
    w.push_back(0);
    for (u32 a : ev) w.push_back(a);
    w.push_back(0);
    u32 aux[] = {6, 4096, 25, rnd, 9, pc, 11, 0, 0, 0};
    for (u32 a : aux) w.push_back(a);
    p -= w.size() * 4;
    p &= ~15u;
    for (size_t i = 0; i < w.size(); i++) st32(p + 4 * i, w[i]);
    for (int i = 0; i < 33; i++) r[i] = S.regzero ? 0 : (u32) splitmix(rng);
    if (arm) { r[13] = p; r[15] = 0; }
    else { r[0] = 0; r[2] = p; }
    if (!S.regzero && arm) { u32 f = splitmix(rng); N = f & 1; Z = f & 2; C = f & 4; V = f & 8; }
    min_sp = p;
    for (int i = 0; i < 3; i++) {
        OpenFile f; f.special = i + 1; fds[i] = f;
    }
}

u32 Machine::do_mmap(u32 len) {
    u64 l = ((u64) len + 4095) & ~4095ULL;
    if (len == 0) return (u32) -22;
    if (l > 0xc0000000ULL || mem_used + l > S.mem_limit) return (u32) -12;
    auto overlaps = [&](u64 a, u64 b) {
        if (a < (((u64) seg_hi + 0x100000) & ~4095ULL)) return true;  // keep clear of the program image
        if (a < (u64) stack_top + 4096 && b > (u64) stack_lo - 0x100000) return true;
        if (b > 0xfffe0000ULL) return true;
        auto it = vmas.lower_bound((u32) a);
        if (it != vmas.end() && it->first < b) return true;
        if (it != vmas.begin()) { --it; if (it->second > a) return true; }
        return false;
    };
    string pl = S.place;
    if (pl == "mixed") { static const char *o[] = {"down", "up", "random", "gap"}; pl = o[splitmix(rng) & 3]; }
    u64 a = 0;
    bool ok = false;
    if (pl == "down" || pl == "gap") {
        u64 g = pl == "gap" ? 4096 : 0;
        if (!down_low) down_low = S.mmap_base;
        // highest hole first (as Linux does), then below everything
        for (size_t i = 0; i < gaps.size() && !ok; i++) {
            u64 e = gaps[i].second;
            if (e - gaps[i].first >= l + 2 * g && !overlaps(e - g - l, e - g)) {
                a = e - g - l; ok = true;
                gaps[i].second = (u32) (e - g - l);
            }
        }
        while (!ok && down_low > l + g + 0x10000000ULL) {
            u64 c = down_low - l - g;
            if (!overlaps(c, c + l)) { a = c; ok = true; down_low = c; break; }
            down_low -= 4096;
        }
    } else if (pl == "up") {
        if (!up_high) up_high = 0x40000000ULL;
        while (!ok && up_high + l < 0xf0000000ULL) {
            if (!overlaps(up_high, up_high + l)) { a = up_high; ok = true; up_high += l; break; }
            up_high += 4096;
        }
    }
    for (int t = 0; t < 2000 && !ok; t++) {
        u64 c = ((splitmix(rng) % 0xeff00ULL) + 0x100ULL) << 12;
        if (c + l < 0xfffe0000ULL && !overlaps(c, c + l)) { a = c; ok = true; }
    }
    if (!ok) return (u32) -12;
    vmas[(u32) a] = (u32) (a + l);
    mem_used += l;
    return (u32) a;
}

static string norm(const string &p) {
    string o;
    size_t i = 0;
    bool abs = !p.empty() && p[0] == '/';
    vector<string> parts;
    while (i <= p.size()) {
        size_t j = p.find('/', i);
        if (j == string::npos) j = p.size();
        string c = p.substr(i, j - i);
        if (c == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!c.empty() && c != ".") parts.push_back(c);
        i = j + 1;
    }
    for (auto &c : parts) { if (!o.empty()) o += '/'; o += c; }
    return abs ? "/" + o : o;
}

void Machine::syscall_() {
    u32 nr, a[6];
    if (arm) { nr = r[7]; for (int i = 0; i < 6; i++) a[i] = r[i]; }
    else { nr = r[17]; for (int i = 0; i < 6; i++) a[i] = r[10 + i]; }
    const char *name = nullptr;
    if (nr >= 5000 && nr < 5010) name = "sim";
    else if (arm) switch (nr) {
        case 1: case 248: name = "exit"; break;
        case 3: name = "read"; break;
        case 4: name = "write"; break;
        case 5: name = "open"; break;
        case 322: name = "open"; a[0] = a[1]; a[1] = a[2]; a[2] = a[3]; break;
        case 6: name = "close"; break;
        case 91: name = "munmap"; break;
        case 192: name = "mmap"; break;
        case 19: name = "lseek"; break;
        case 10: name = "unlink"; break;
        case 38: name = "rename"; break;
        case 20: name = "getpid"; break;
    } else switch (nr) {
        case 93: case 94: name = "exit"; break;
        case 63: name = "read"; break;
        case 64: name = "write"; break;
        case 56: name = "open"; a[0] = a[1]; a[1] = a[2]; a[2] = a[3]; break;
        case 57: name = "close"; break;
        case 215: name = "munmap"; break;
        case 222: name = "mmap"; break;
        case 62: name = "lseek"; break;
        case 35: name = "unlink"; a[0] = a[1]; break;
        case 172: name = "getpid"; break;
    }
    i64 ret = -38;
    if (!name) { unknown_sys++; h("U %llu nr=%u", (unsigned long long) insn, nr); if (arm) r[0] = (u32) ret; else r[10] = (u32) ret; return; }
    string nm = name;
    u64 nth = ++sysn[nm];
    // fault lookup
    Fault *F = nullptr;
    for (auto &f : S.faults)
        if (f.name == nm && (f.nth == (i64) nth || f.nth == 0)) { F = &f; break; }
    bool did = false;
    u64 payload = FNV0;
    i64 shortk = -1;
    if (F) {
        if (F->kind == "err") { ret = -F->arg; did = true; }
        else if (F->kind == "short") shortk = F->arg;
        else if (F->kind == "kill") { st = KILLED; code = 9; injected["kill@" + nm]++; F->hits++; return; }
        else if (F->kind == "killafter") { /* handled below */ }
    }
    if (did) {
        F->hits++;
        injected[nm + ":err" + std::to_string(F->arg)]++;
        if (nm == "close") fds.erase(a[0]);  // Linux releases the descriptor even when close fails
    } else if (nm == "exit") {
        st = EXITED; code = (i32) a[0];
        h("S %llu exit %d", (unsigned long long) insn, (i32) a[0]);
        return;
    } else if (nm == "read" || nm == "write") {
        auto it = fds.find((int) a[0]);
        if (it == fds.end()) ret = -9;
        else {
            OpenFile &f = it->second;
            u32 n = a[2];
            bool wr = nm == "write";
            if ((i32) n < 0) ret = -22;
            else {
                if (shortk >= 0 && n > (u32) shortk) {
                    n = shortk; F->hits++; injected[nm + ":short"]++;
                }
                if (wr) {
                    string d;
                    bool bad = false;
                    for (u32 i = 0; i < n; i++) {
                        Page *g = need(a[1] + i, P_R);
                        if (!g) { bad = true; break; }
                        d += (char) g->mem[(a[1] + i) & 4095];
                    }
                    payload = fnv(payload, d.data(), d.size());
                    if (bad && d.empty()) ret = -14;
                    else if (f.special == 2) { out += d; ret = d.size(); }
                    else if (f.special == 3) { err += d; ret = d.size(); }
                    else if (f.special == 1) ret = -9;
                    else if ((f.flags & 3) == 0) ret = -9;
                    else {
                        if (f.flags & 02000) f.off = f.ino->data.size();
                        u64 room = S.disk_cap - disk_used;
                        u64 grow = f.off + d.size() > f.ino->data.size() ? f.off + d.size() - f.ino->data.size() : 0;
                        if (grow > room) {
                            u64 cut = grow - room;
                            injected["write:diskfull"]++;
                            if (cut >= d.size()) d.clear(); else d.resize(d.size() - cut);
                            grow = room;
                        }
                        if (d.empty() && n) ret = -28;
                        else {
                            if (f.off > f.ino->data.size()) f.ino->data.resize(f.off, 0);
                            f.ino->data.replace(f.off, std::min<u64>(d.size(), f.ino->data.size() - f.off), d);
                            f.off += d.size();
                            disk_used += grow;
                            ret = d.size();
                        }
                    }
                } else {
                    const string *src = nullptr;
                    u64 off = 0;
                    if (f.special == 1) { src = &S.stdin_data; off = stdin_off; }
                    else if (f.special) ret = -9;
                    else if (f.ino->dir) ret = -21;
                    else if ((f.flags & 3) == 1) ret = -9;
                    else { src = &f.ino->data; off = f.off; }
                    if (src) {
                        u64 k = off < src->size() ? std::min<u64>(n, src->size() - off) : 0;
                        bool bad = false;
                        for (u64 i = 0; i < k && !bad; i++) {
                            u32 ad = a[1] + i;
                            Page *g = need(ad, P_W);
                            if (!g) { bad = true; break; }
                            g->mem[ad & 4095] = (*src)[off + i];
                            if (g->dec) inval(g, ad);
                        }
                        payload = fnv(payload, src->data() + off, k);
                        if (bad) ret = -14;
                        else { ret = k; if (f.special == 1) stdin_off += k; else f.off += k; }
                    }
                }
            }
        }
    } else if (nm == "open") {
        string p;
        if (!rd_str(a[0], p)) ret = -14;
        else {
            string q = norm(p);
            int fl = a[1];
            auto it = S.fs.find(q);
            bool wr = (fl & 3) != 0;
            size_t sl = q.rfind('/');
            bool parent_ok = true;
            if (sl != string::npos && sl > 0) {
                auto d = S.fs.find(q.substr(0, sl));
                parent_ok = d != S.fs.end() && d->second->dir;
            }
            if (q.empty()) ret = -2;
            else if (it == S.fs.end() && !(fl & 0100)) ret = -2;
            else if (it == S.fs.end() && !parent_ok) ret = -2;
            else if (it != S.fs.end() && it->second->dir && (wr || (fl & 0100))) ret = -21;
            else if (it != S.fs.end() && wr && it->second->ro) ret = -13;
            else if (it != S.fs.end() && !wr && it->second->noread) ret = -13;
            else if (it != S.fs.end() && (fl & 0300) == 0300) ret = -17;
            else {
                if (it == S.fs.end()) {
                    auto n = std::make_shared<Inode>();
                    n->created_mode = a[2];
                    it = S.fs.emplace(q, n).first;
                }
                if ((fl & 01000) && wr) it->second->data.clear();
                OpenFile f; f.ino = it->second; f.path = q; f.flags = fl;
                int fd = 0;
                while (fds.count(fd)) fd++;
                if (fd >= 1024) ret = -24;
                else { fds[fd] = f; ret = fd; }
            }
            h("P %s flags=%o", q.c_str(), fl);
        }
    } else if (nm == "close") {
        if (fds.erase((int) a[0])) ret = 0; else ret = -9;
    } else if (nm == "mmap") {
        if ((a[3] & 0x20) == 0) ret = -22;
        else ret = (i32) do_mmap(a[1]);
    } else if (nm == "munmap") {
        u64 s = a[0], l = ((u64) a[1] + 4095) & ~4095ULL;
        if ((s & 4095) || !a[1] || s + l > 0xffffffffULL) ret = -22;
        else {
            u64 e = s + l;
            if ((s < seg_hi && e > (seg_lo & ~4095u)) || (s < stack_top && e > stack_lo)) {
                foreign_unmap++;
                h("X foreign munmap %x %x", a[0], a[1]);
            }
            u64 covered = 0;
            auto it = vmas.upper_bound((u32) s);
            if (it != vmas.begin()) --it;
            while (it != vmas.end() && it->first < e) {
                u64 vs = it->first, ve = it->second;
                u64 x = std::max<u64>(s, vs), y = std::min<u64>(e, ve);
                if (x >= y) { ++it; continue; }
                covered += y - x;
                it = vmas.erase(it);
                if (vs < x) vmas[(u32) vs] = (u32) x;
                if (y < ve) { vmas[(u32) y] = (u32) ve; it = vmas.upper_bound((u32) y); }
            }
            if (covered != l) { hole_unmap++; }
            if (covered && gaps.size() < 64) {
                gaps.push_back({(u32) s, (u32) e});
                std::sort(gaps.begin(), gaps.end(), [](const std::pair<u32, u32> &p, const std::pair<u32, u32> &q) { return p.second > q.second; });
            }
            mem_used -= covered;
            for (u64 p = s >> 12; p < e >> 12; p++) delpage((u32) p);
            ret = 0;
        }
    } else if (nm == "lseek") {
        auto it = fds.find((int) a[0]);
        if (it == fds.end()) ret = -9;
        else if (it->second.special) ret = -29;
        else {
            i64 b = a[2] == 0 ? 0 : a[2] == 1 ? (i64) it->second.off : (i64) it->second.ino->data.size();
            b += (i32) a[1];
            if (b < 0) ret = -22; else { it->second.off = b; ret = b; }
        }
    } else if (nm == "unlink") {
        string p;
        if (!rd_str(a[0], p)) ret = -14;
        else ret = S.fs.erase(norm(p)) ? 0 : -2;
    } else if (nm == "rename") {
        string p, q;
        if (!rd_str(a[0], p) || !rd_str(a[1], q)) ret = -14;
        else {
            p = norm(p); q = norm(q);
            auto it = S.fs.find(p);
            if (it == S.fs.end()) ret = -2;
            else { auto n = it->second; S.fs.erase(it); S.fs[q] = n; ret = 0; }
        }
    } else if (nm == "getpid") {
        ret = 4242;
    } else if (nm == "sim") {
        ret = 0;
        if (nr == 5000) {  // next operation
            if (opidx < S.ops.size()) {
                auto &o = S.ops[opidx];
                for (size_t i = 0; i < 8; i++) st32(a[0] + 4 * i, i < o.size() ? (u32) o[i] : 0);
                opidx++;
                ret = 1;
            }
        } else if (nr == 5001) {  // report
            h("R %llu %d %d %d %d %d", (unsigned long long) insn, (i32) a[0], (i32) a[1], (i32) a[2], (i32) a[3], (i32) a[4]);
        } else if (nr == 5002) {  // fill
            u64 s = a[2] + 1;
            int bad = 0;
            for (u32 i = 0; i < a[1]; i++) {
                Page *g = need(a[0] + i, P_W | P_R);
                u8 b = (u8) splitmix(s);
                if (!g) { bad++; continue; }
                g->mem[(a[0] + i) & 4095] = b;
                if (g->dec) inval(g, a[0] + i);
            }
            h("F %llu %u %u %u bad=%d", (unsigned long long) insn, a[0], a[1], a[2], bad);
            ret = bad;
        } else if (nr == 5003) {  // check
            u64 s = a[2] + 1;
            int bad = 0, diff = 0;
            u32 first = 0;
            for (u32 i = 0; i < a[1]; i++) {
                Page *g = need(a[0] + i, P_R);
                u8 b = (u8) splitmix(s);
                if (!g) bad++;
                else if (g->mem[(a[0] + i) & 4095] != b) { if (!diff) first = i; diff++; }
            }
            h("K %llu %u %u %u bad=%d diff=%d first=%u", (unsigned long long) insn, a[0], a[1], a[2], bad, diff, first);
            ret = bad + diff;
        } else if (nr == 5004) {  // zero check
            int bad = 0, diff = 0;
            for (u32 i = 0; i < a[1]; i++) {
                Page *g = need(a[0] + i, P_R);
                if (!g) bad++;
                else if (g->mem[(a[0] + i) & 4095]) diff++;
            }
            h("Z %llu %u %u bad=%d diff=%d", (unsigned long long) insn, a[0], a[1], bad, diff);
            ret = bad + diff;
        } else if (nr == 5005) {  // read a block of bytes into the history
            string d;
            for (u32 i = 0; i < a[1] && i < 4096; i++) {
                Page *g = need(a[0] + i, P_R);
                if (!g) break;
                char t[4]; snprintf(t, 4, "%02x", g->mem[(a[0] + i) & 4095]); d += t;
            }
            thash = fnv(thash, d.data(), d.size());
            if (S.hist) { hist += "B " + std::to_string(a[2]) + " " + std::to_string(a[1]) + " " + d + "\n"; }
        } else if (nr == 5006) {  // write operation payload string (arg: op index + offset table) into guest
            // a[0] = dest, a[1] = payload id, a[2] = max
            string key = "\001payload" + std::to_string(a[1]);
            auto it = S.fs.find(key);
            if (it == S.fs.end()) ret = -1;
            else {
                const string &d = it->second->data;
                u32 n = std::min<u32>(a[2], d.size());
                for (u32 i = 0; i < n; i++) st8(a[0] + i, (u8) d[i]);
                ret = n;
            }
        }
        if (arm) r[0] = (u32) ret; else r[10] = (u32) ret;
        return;
    }
    h("S %llu %s %x %x %x -> %lld %llx%s", (unsigned long long) insn, name, nm == "open" ? 0 : a[0], nm == "open" || nm == "write" || nm == "read" ? 0 : a[1], a[2],
      (long long) ret, (unsigned long long) payload, did ? " FAULT" : "");
    if (arm) r[0] = (u32) ret; else r[10] = (u32) ret;
    if (F && F->kind == "killafter") { st = KILLED; code = 9; injected["killafter@" + nm]++; }
}

void Machine::irq(u32 depth) {
    u32 sp = arm ? r[13] : r[2];
    u64 s = S.seed * 31 + insn;
    irqs_done++;
    for (u32 a = sp - depth; a < sp; a++) {
        if (a < stack_lo || a >= stack_top) continue;
        Page *g = need(a, P_W);
        if (!g) continue;
        g->mem[a & 4095] = (u8) splitmix(s);
    }
}

void Machine::events() {
    if (S.kill_at && insn >= S.kill_at) { st = KILLED; code = 9; injected["kill@insn"]++; return; }
    if (insn >= S.max_insn) { st = LIMIT; return; }
    while (irqidx < S.irqs.size() && S.irqs[irqidx].first <= insn) { irq(S.irqs[irqidx].second); irqidx++; }
    if (S.irq_every && insn >= S.irq_start && insn < S.irq_end && (insn - S.irq_start) % S.irq_every == 0) irq(S.irq_depth);
    u64 n = S.max_insn;
    if (S.kill_at) n = std::min(n, S.kill_at);
    if (irqidx < S.irqs.size()) n = std::min(n, S.irqs[irqidx].first);
    if (S.irq_every && insn < S.irq_end) {
        u64 k = insn < S.irq_start ? S.irq_start : insn + S.irq_every - (insn - S.irq_start) % S.irq_every;
        n = std::min(n, k);
    }
    next_event = n;
}

void Machine::decode_arm(u32 w, Insn &d, u32 at) {
    d.cond = w >> 28;
    d.op = A_UNDEF;
    d.rn = (w >> 16) & 15; d.rd = (w >> 12) & 15; d.rm = w & 15; d.rs = (w >> 8) & 15;
    d.imm = 0; d.flags = 0; d.sub = 0; d.sh = 0;
    if (d.cond == 15) { return; }
    u32 op1 = (w >> 25) & 7;
    if (op1 == 0 || op1 == 1) {
        if (op1 == 0 && (w & 0x90) == 0x90) {
            u32 sh = (w >> 5) & 3;
            if (sh == 0) {
                u32 o = (w >> 21) & 15;
                if ((w >> 24) & 1) return;
                if (o == 0) d.op = A_MUL;
                else if (o == 1) d.op = A_MLA;
                else if (o == 3) { d.op = A_MLA; d.sub = 1; }
                else if (o >= 4) { d.op = A_MULL; d.sub = o & 3; }
                else return;
                d.flags = (w >> 20) & 1;
                return;
            }
            // extra load/store
            d.op = A_LDSTX;
            d.sub = sh;
            d.flags = (w >> 20) & 31;  // P U I W L
            d.imm = ((w >> 8) & 15) << 4 | (w & 15);
            return;
        }
        u32 o = (w >> 21) & 15, s = (w >> 20) & 1;
        if (!s && o >= 8 && o <= 11) {
            if (op1 == 1) {
                if (o == 8) { d.op = A_MOVW; d.imm = ((w >> 4) & 0xf000) | (w & 0xfff); }
                else if (o == 10) { d.op = A_MOVT; d.imm = ((w >> 4) & 0xf000) | (w & 0xfff); }
                else if (o == 9) d.op = A_NOP;
                return;
            }
            u32 k = (w >> 4) & 15;
            if (o == 9 && k == 1) { d.op = A_BX; return; }
            if (o == 9 && k == 3) { d.op = A_BLX; return; }
            if (o == 11 && k == 1) { d.op = A_CLZ; return; }
            return;
        }
        d.op = A_DP;
        d.sub = o;
        d.flags = s;
        if (op1 == 1) {
            u32 rot = ((w >> 8) & 15) * 2, v = w & 255;
            d.imm = rot ? (v >> rot | v << (32 - rot)) : v;
            d.sh = 0x80;  // immediate
            d.rs = rot != 0;
            if (!s && d.rd != 15 && d.rn != 15) d.op = A_DPI;
        } else if (w & 16) {
            d.sh = 0x40 | ((w >> 5) & 3);  // by register
        } else {
            d.sh = (w >> 5) & 3;
            d.imm = (w >> 7) & 31;
            if (!s && d.sh == 0 && d.imm == 0 && d.rd != 15 && d.rn != 15 && d.rm != 15) d.op = A_DPR;
        }
        return;
    }
    if (op1 == 2 || op1 == 3) {
        if (op1 == 3 && (w & 16)) {
            u32 o = (w >> 20) & 31;
            if ((o == 0x11 || o == 0x13) && ((w >> 4) & 15) == 1 && ((w >> 12) & 15) == 15) {
                d.op = A_DIV; d.sub = o == 0x13;
            }
            return;
        }
        d.op = A_LDST;
        d.flags = (w >> 20) & 31;  // P U B W L
        if (op1 == 2) { d.imm = w & 0xfff; d.sh = 0x80; }
        else { d.sh = (w >> 5) & 3; d.imm = (w >> 7) & 31; }
        return;
    }
    if (op1 == 4) {
        d.op = (w >> 20) & 1 ? A_LDM : A_STM;
        d.flags = (w >> 20) & 31;  // P U S W L
        d.imm = w & 0xffff;
        return;
    }
    if (op1 == 5) {
        d.op = (w >> 24) & 1 ? A_BL : A_B;
        d.imm = at + 8 + ((i32) (w << 8) >> 6);
        return;
    }
    if (op1 == 7 && ((w >> 24) & 1)) d.op = A_SVC;
}

static inline u32 sh_imm(u32 t, u32 amt, u32 v, bool &c) {
    switch (t) {
    case 0: if (!amt) return v; c = (v >> (32 - amt)) & 1; return v << amt;
    case 1: if (!amt) { c = v >> 31; return 0; } c = (v >> (amt - 1)) & 1; return v >> amt;
    case 2: if (!amt) { c = v >> 31; return (i32) v >> 31; } c = ((i32) v >> (amt - 1)) & 1; return (i32) v >> amt;
    default: if (!amt) { bool n = v & 1; u32 x = (u32) c << 31 | v >> 1; c = n; return x; }
        c = (v >> (amt - 1)) & 1; return v >> amt | v << (32 - amt);
    }
}
static inline u32 sh_reg(u32 t, u32 amt, u32 v, bool &c) {
    amt &= 255;
    if (!amt) return v;
    switch (t) {
    case 0: if (amt < 32) { c = (v >> (32 - amt)) & 1; return v << amt; } c = amt == 32 ? v & 1 : 0; return 0;
    case 1: if (amt < 32) { c = (v >> (amt - 1)) & 1; return v >> amt; } c = amt == 32 ? v >> 31 : 0; return 0;
    case 2: if (amt < 32) { c = ((i32) v >> (amt - 1)) & 1; return (i32) v >> amt; } c = v >> 31; return (i32) v >> 31;
    default: amt &= 31; if (!amt) { c = v >> 31; return v; } c = (v >> (amt - 1)) & 1; return v >> amt | v << (32 - amt);
    }
}

static inline bool cond_ok(int c, bool N, bool Z, bool C, bool V) {
    switch (c) {
    case 0: return Z; case 1: return !Z; case 2: return C; case 3: return !C;
    case 4: return N; case 5: return !N; case 6: return V; case 7: return !V;
    case 8: return C && !Z; case 9: return !C || Z; case 10: return N == V; case 11: return N != V;
    case 12: return !Z && N == V; case 13: return Z || N != V; default: return true;
    }
}

// returns true if pc was written
bool Machine::exec_arm(Insn &d) {
    if (d.cond != 14 && !cond_ok(d.cond, N, Z, C, V)) return false;
    u32 at = pc;
#define RG(x) ((x) == 15 ? at + 8 : r[x])
    switch (d.op) {
    case A_DPR:
    case A_DPI: {
        u32 b = d.op == A_DPI ? d.imm : r[d.rm];
        u32 a = r[d.rn];
        switch (d.sub) {
        case 0: r[d.rd] = a & b; break; case 1: r[d.rd] = a ^ b; break; case 2: r[d.rd] = a - b; break;
        case 3: r[d.rd] = b - a; break; case 4: r[d.rd] = a + b; break; case 5: r[d.rd] = a + b + C; break;
        case 6: r[d.rd] = a - b - !C; break; case 7: r[d.rd] = b - a - !C; break;
        case 12: r[d.rd] = a | b; break; case 13: r[d.rd] = b; break; case 14: r[d.rd] = a & ~b; break;
        case 15: r[d.rd] = ~b; break;
        }
        return false;
    }
    case A_DP: {
        bool c = C;
        u32 b;
        if (d.sh & 0x80) { b = d.imm; if (d.rs) c = b >> 31; }
        else if (d.sh & 0x40) b = sh_reg(d.sh & 3, RG(d.rs), RG(d.rm), c);
        else b = sh_imm(d.sh, d.imm, RG(d.rm), c);
        u32 a = RG(d.rn), v = 0;
        bool wr = true, cc = c, vv = V;
        auto add = [&](u32 x, u32 y, u32 ci) {
            u64 s = (u64) x + y + ci;
            v = (u32) s; cc = s >> 32; vv = ((x ^ v) & (y ^ v)) >> 31;
        };
        switch (d.sub) {
        case 0: v = a & b; break; case 1: v = a ^ b; break;
        case 2: add(a, ~b, 1); break; case 3: add(b, ~a, 1); break;
        case 4: add(a, b, 0); break; case 5: add(a, b, C); break;
        case 6: add(a, ~b, C); break; case 7: add(b, ~a, C); break;
        case 8: v = a & b; wr = false; break; case 9: v = a ^ b; wr = false; break;
        case 10: add(a, ~b, 1); wr = false; break; case 11: add(a, b, 0); wr = false; break;
        case 12: v = a | b; break; case 13: v = b; break; case 14: v = a & ~b; break; case 15: v = ~b; break;
        }
        if (d.flags) { N = v >> 31; Z = v == 0; C = cc; V = vv; }
        if (wr) {
            if (d.rd == 15) { pc = v & ~3u; return true; }
            r[d.rd] = v;
        }
        return false;
    }
    case A_MUL: { u32 v = r[d.rm] * r[d.rs]; r[d.rn] = v; if (d.flags) { N = v >> 31; Z = !v; } return false; }
    case A_MLA: { u32 v = d.sub ? r[d.rd] - r[d.rm] * r[d.rs] : r[d.rm] * r[d.rs] + r[d.rd]; r[d.rn] = v; if (d.flags) { N = v >> 31; Z = !v; } return false; }
    case A_MULL: {
        u64 v = d.sub & 2 ? (u64) ((i64) (i32) r[d.rm] * (i32) r[d.rs]) : (u64) r[d.rm] * r[d.rs];
        if (d.sub & 1) v += (u64) r[d.rn] << 32 | r[d.rd];
        r[d.rd] = (u32) v; r[d.rn] = v >> 32;
        return false;
    }
    case A_DIV: {
        u32 n = r[d.rm], m = r[d.rs];
        if (!m) r[d.rn] = 0;
        else if (d.sub) r[d.rn] = n / m;
        else if (n == 0x80000000u && m == 0xffffffffu) r[d.rn] = n;
        else r[d.rn] = (i32) n / (i32) m;
        return false;
    }
    case A_MOVW: r[d.rd] = d.imm; return false;
    case A_MOVT: r[d.rd] = (r[d.rd] & 0xffff) | d.imm << 16; return false;
    case A_LDST: {
        u32 off;
        if (d.sh & 0x80) off = d.imm;
        else { bool c = C; off = sh_imm(d.sh, d.imm, RG(d.rm), c); }
        u32 base = RG(d.rn), ea = d.flags & 8 ? base + off : base - off;
        u32 addr = d.flags & 16 ? ea : base;
        if (d.flags & 1) {
            u32 v = d.flags & 4 ? ld8(addr) : ld32(addr);
            if (st != RUNNING) return false;
            if (!(d.flags & 16) || (d.flags & 2)) r[d.rn] = ea;
            if (d.rd == 15) { pc = v & ~3u; return true; }
            r[d.rd] = v;
        } else {
            u32 v = RG(d.rd);
            if (d.flags & 4) st8(addr, v); else st32(addr, v);
            if (st != RUNNING) return false;
            if (!(d.flags & 16) || (d.flags & 2)) r[d.rn] = ea;
        }
        return false;
    }
    case A_LDSTX: {
        u32 off = d.flags & 4 ? d.imm : RG(d.rm);
        u32 base = RG(d.rn), ea = d.flags & 8 ? base + off : base - off;
        u32 addr = d.flags & 16 ? ea : base;
        bool L = d.flags & 1;
        u32 v = 0;
        if (L) {
            if (d.sub == 1) v = ld16(addr);
            else if (d.sub == 2) v = (i32) (int8_t) ld8(addr);
            else v = (i32) (int16_t) ld16(addr);
            if (st != RUNNING) return false;
            r[d.rd] = v;
        } else {
            if (d.sub == 1) st16(addr, r[d.rd]);
            else if (d.sub == 2) { v = ld32(addr); u32 v2 = ld32(addr + 4); r[d.rd] = v; r[d.rd + 1] = v2; }
            else { st32(addr, r[d.rd]); st32(addr + 4, r[d.rd + 1]); }
            if (st != RUNNING) return false;
        }
        if (!(d.flags & 16) || (d.flags & 2)) r[d.rn] = ea;
        return false;
    }
    case A_LDM:
    case A_STM: {
        int n = __builtin_popcount(d.imm);
        u32 base = r[d.rn];
        u32 start = d.flags & 8 ? base : base - 4 * n;
        if (d.flags & 8) { if (d.flags & 16) start += 4; }
        else if (!(d.flags & 16)) start += 4;
        u32 fin = d.flags & 8 ? base + 4 * n : base - 4 * n;
        if (start & 3) { st = SIGNALED; code = 7; faddr = start; why = "unaligned ldm/stm"; return false; }
        bool w = false;
        u32 npc = 0, vals[16], k = 0;
        for (int i = 0; i < 16; i++)
            if (d.imm & (1 << i)) {
                if (d.op == A_LDM) vals[i] = ld32(start + 4 * k);
                else st32(start + 4 * k, i == 15 ? at + 8 : r[i]);
                k++;
                if (st != RUNNING) return false;
            }
        if (d.flags & 2) r[d.rn] = fin;
        if (d.op == A_LDM)
            for (int i = 0; i < 16; i++)
                if (d.imm & (1 << i)) { if (i == 15) { npc = vals[i]; w = true; } else r[i] = vals[i]; }
        if (w) { pc = npc & ~3u; return true; }
        return false;
    }
    case A_BL: r[14] = at + 4; pc = d.imm; return true;
    case A_B: pc = d.imm; return true;
    case A_BLX: { u32 t = RG(d.rm); r[14] = at + 4; if (t & 3) { st = SIGNALED; code = 4; why = "thumb/unaligned branch"; faddr = t; } pc = t & ~3u; return true; }
    case A_BX: { u32 t = RG(d.rm); if (t & 3) { st = SIGNALED; code = 4; why = "thumb/unaligned branch"; faddr = t; } pc = t & ~3u; return true; }
    case A_SVC: syscall_(); return false;
    case A_CLZ: r[d.rd] = r[d.rm] ? __builtin_clz(r[d.rm]) : 32; return false;
    case A_NOP: return false;
    default: st = SIGNALED; code = 4; faddr = at; why = "undefined instruction"; return false;
    }
}

void Machine::decode_rv(u32 w, Insn &d, u32 at) {
    d.op = R_UNDEF;
    d.rd = (w >> 7) & 31; d.rn = (w >> 15) & 31; d.rm = (w >> 20) & 31;
    u32 f3 = (w >> 12) & 7, f7 = w >> 25;
    i32 immI = (i32) w >> 20;
    i32 immS = ((i32) w >> 25 << 5) | ((w >> 7) & 31);
    i32 immB = ((i32) (w & 0x80000000) >> 19) | ((w & 0x80) << 4) | ((w >> 20) & 0x7e0) | ((w >> 7) & 0x1e);
    i32 immJ = ((i32) (w & 0x80000000) >> 11) | (w & 0xff000) | ((w >> 9) & 0x800) | ((w >> 20) & 0x7fe);
    switch (w & 0x7f) {
    case 0x37: d.op = R_LUI; d.imm = w & 0xfffff000; break;
    case 0x17: d.op = R_AUIPC; d.imm = at + (w & 0xfffff000); break;
    case 0x6f: d.op = R_JAL; d.imm = at + immJ; break;
    case 0x67: if (f3 == 0) { d.op = R_JALR; d.imm = immI; } break;
    case 0x63: {
        static const u8 o[] = {1, 2, 0, 0, 3, 4, 5, 6};
        if (o[f3]) { d.op = R_BEQ + o[f3] - 1; d.imm = at + immB; }
        break;
    }
    case 0x03: {
        
        const uint16_t o[] = {R_LB, R_LH, R_LW, R_UNDEF, R_LBU, R_LHU, R_UNDEF, R_UNDEF};
        d.op = o[f3]; d.imm = immI; break;
    }
    case 0x23: if (f3 < 3) { d.op = R_SB + f3; d.imm = immS; } break;
    case 0x13:
        d.imm = immI;
        switch (f3) {
        case 0: d.op = R_ADDI; break; case 2: d.op = R_SLTI; break; case 3: d.op = R_SLTIU; break;
        case 4: d.op = R_XORI; break; case 6: d.op = R_ORI; break; case 7: d.op = R_ANDI; break;
        case 1: if (f7 == 0) { d.op = R_SLLI; d.imm = d.rm; } break;
        case 5: if (f7 == 0) { d.op = R_SRLI; d.imm = d.rm; } else if (f7 == 32) { d.op = R_SRAI; d.imm = d.rm; } break;
        }
        break;
    case 0x33:
        if (f7 == 1) d.op = R_MUL + f3;
        else if (f7 == 0) { const uint16_t o[] = {R_ADD, R_SLL, R_SLT, R_SLTU, R_XOR, R_SRL, R_OR, R_AND}; d.op = o[f3]; }
        else if (f7 == 32) { if (f3 == 0) d.op = R_SUB; else if (f3 == 5) d.op = R_SRA; }
        break;
    case 0x73: if (w == 0x73) d.op = R_ECALL; else if (w == 0x100073) d.op = R_EBREAK; break;
    case 0x0f: d.op = R_FENCE; break;
    }
}

bool Machine::exec_rv(Insn &d) {
    u32 at = pc;
    u32 a = r[d.rn], b = r[d.rm];
#define WR(v) do { u32 _v = (v); if (d.rd) r[d.rd] = _v; return false; } while (0)
#define BR(c) do { if (c) { pc = d.imm; if (pc & 3) { st = SIGNALED; code = 4; why = "misaligned jump"; } return true; } return false; } while (0)
    switch (d.op) {
    case R_LUI: case R_AUIPC: WR(d.imm);
    case R_JAL: if (d.rd) r[d.rd] = at + 4; pc = d.imm; if (pc & 3) { st = SIGNALED; code = 4; why = "misaligned jump"; } return true;
    case R_JALR: { u32 t = (a + d.imm) & ~1u; if (d.rd) r[d.rd] = at + 4; pc = t; if (pc & 3) { st = SIGNALED; code = 4; why = "misaligned jump"; faddr = t; } return true; }
    case R_BEQ: BR(a == b); case R_BNE: BR(a != b);
    case R_BLT: BR((i32) a < (i32) b); case R_BGE: BR((i32) a >= (i32) b);
    case R_BLTU: BR(a < b); case R_BGEU: BR(a >= b);
    case R_LB: WR((i32) (int8_t) ld8(a + d.imm)); case R_LBU: WR(ld8(a + d.imm));
    case R_LH: WR((i32) (int16_t) ld16(a + d.imm)); case R_LHU: WR(ld16(a + d.imm));
    case R_LW: WR(ld32(a + d.imm));
    case R_SB: st8(a + d.imm, b); return false;
    case R_SH: st16(a + d.imm, b); return false;
    case R_SW: st32(a + d.imm, b); return false;
    case R_ADDI: WR(a + d.imm); case R_SLTI: WR((i32) a < (i32) d.imm); case R_SLTIU: WR(a < d.imm);
    case R_XORI: WR(a ^ d.imm); case R_ORI: WR(a | d.imm); case R_ANDI: WR(a & d.imm);
    case R_SLLI: WR(a << d.imm); case R_SRLI: WR(a >> d.imm); case R_SRAI: WR((i32) a >> d.imm);
    case R_ADD: WR(a + b); case R_SUB: WR(a - b); case R_SLL: WR(a << (b & 31));
    case R_SLT: WR((i32) a < (i32) b); case R_SLTU: WR(a < b); case R_XOR: WR(a ^ b);
    case R_SRL: WR(a >> (b & 31)); case R_SRA: WR((i32) a >> (b & 31)); case R_OR: WR(a | b); case R_AND: WR(a & b);
    case R_MUL: WR(a * b);
    case R_MULH: WR((u32) (((i64) (i32) a * (i32) b) >> 32));
    case R_MULHSU: WR((u32) (((i64) (i32) a * (i64) (u64) b) >> 32));
    case R_MULHU: WR((u32) (((u64) a * b) >> 32));
    case R_DIV: WR(!b ? 0xffffffffu : (a == 0x80000000u && b == 0xffffffffu) ? a : (u32) ((i32) a / (i32) b));
    case R_DIVU: WR(!b ? 0xffffffffu : a / b);
    case R_REM: WR(!b ? a : (a == 0x80000000u && b == 0xffffffffu) ? 0 : (u32) ((i32) a % (i32) b));
    case R_REMU: WR(!b ? a : a % b);
    case R_ECALL: syscall_(); return false;
    case R_FENCE: return false;
    default: st = SIGNALED; code = d.op == R_EBREAK ? 5 : 4; faddr = at; why = "undefined instruction"; return false;
    }
}

void Machine::run() {
    u32 curp = 0xffffffff;
    Insn *dec = nullptr;
    events();
    while (st == RUNNING) {
        if (__builtin_expect((pc >> 12) != curp || !dec, 0)) {
            curp = pc >> 12;
            Page *g = need(pc, P_X);
            if (!g) { st = SIGNALED; code = 11; faddr = pc; why = "execute"; break; }
            if (!g->dec) { g->dec = (Insn *) malloc(1024 * sizeof(Insn)); for (int i = 0; i < 1024; i++) g->dec[i] = Insn(); }
            dec = g->dec;
        }
        Insn &d = dec[(pc & 4095) >> 2];
        if (__builtin_expect(d.op == X_FETCH, 0)) {
            u32 w; memcpy(&w, pt[curp]->mem + (pc & 4095), 4);
            u8 seen = d.seen;
            if (arm) decode_arm(w, d, pc); else decode_rv(w, d, pc);
            if (!seen) { cov++; d.seen = 1; }
        }
        insn++;
        bool jumped = arm ? exec_arm(d) : exec_rv(d);
        if (!jumped) pc += 4;
        if (__builtin_expect(insn >= next_event, 0) && st == RUNNING) {
            events();
        }
        if (__builtin_expect(pt[curp] == nullptr, 0)) dec = nullptr;
    }
}

static void outblk(const char *tag, const string &name, const string &d) {
    printf("%s %zu %zu\n", tag, name.size(), d.size());
    fwrite(name.data(), 1, name.size(), stdout);
    fwrite(d.data(), 1, d.size(), stdout);
    putchar('\n');
}

void Machine::report() {
    static const char *sn[] = {"running", "exit", "signal", "killed", "limit"};
    printf("status %s %d %u\n", sn[st], code, faddr);
    printf("pc %u\n", pc);
    printf("why %s\n", why.c_str());
    printf("insn %llu\n", (unsigned long long) insn);
    printf("cov %llu\n", (unsigned long long) cov);
    printf("irqs %llu\n", (unsigned long long) irqs_done);
    printf("ops %zu\n", opidx);
    printf("codewrites %llu\n", (unsigned long long) code_writes);
    printf("foreignunmap %llu\n", (unsigned long long) foreign_unmap);
    printf("holeunmap %llu\n", (unsigned long long) hole_unmap);
    printf("unknownsys %llu\n", (unsigned long long) unknown_sys);
    printf("stackused %u\n", stack_low < stack_top ? stack_top - stack_low : 0);
    printf("memused %llu\n", (unsigned long long) mem_used);
    printf("openfds %zu\n", fds.size());
    printf("stdinoff %zu\n", stdin_off);
    printf("textlo %u\ntexthi %u\nseglo %u\nseghi %u\n", code_lo, code_hi, seg_lo, seg_hi);
    for (auto &k : sysn) printf("sys %s %llu\n", k.first.c_str(), (unsigned long long) k.second);
    for (auto &k : injected) printf("inj %s %llu\n", k.first.c_str(), (unsigned long long) k.second);
    u64 hh = thash;
    hh = fnv(hh, r, 16 * 4);
    hh = fnv(hh, out.data(), out.size());
    hh = fnv(hh, err.data(), err.size());
    hh = fnv(hh, &insn, 8);
    for (auto &f : S.fs) { hh = fnv(hh, f.first.data(), f.first.size()); hh = fnv(hh, f.second->data.data(), f.second->data.size()); }
    printf("trace %016llx\n", (unsigned long long) thash);
    printf("hash %016llx\n", (unsigned long long) hh);
    outblk("stdout", "", out);
    outblk("stderr", "", err);
    if (S.hist) outblk("hist", "", hist);
    if (S.dumpfiles)
        for (auto &f : S.fs)
            if (!f.second->dir && (f.first.empty() || f.first[0] != 1)) outblk("file", f.first, f.second->data);
    printf("end\n");
    fflush(stdout);
}

static bool rdline(string &s) {
    s.clear();
    int c;
    while ((c = getchar_unlocked()) != EOF) {
        if (c == '\n') return true;
        s += (char) c;
    }
    return !s.empty();
}
static string rdbytes(size_t n) {
    string s(n, 0);
    if (n && fread(&s[0], 1, n, stdin) != n) { fprintf(stderr, "short input\n"); exit(3); }
    return s;
}
static vector<string> split(const string &s) {
    vector<string> v;
    size_t i = 0;
    while (i < s.size()) {
        size_t j = s.find(' ', i);
        if (j == string::npos) j = s.size();
        if (j > i) v.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return v;
}

int main() {
    string line;
    while (true) {
        Scenario S;
        bool go = false;
        while (rdline(line)) {
            auto t = split(line);
            if (t.empty()) continue;
            const string &k = t[0];
            auto num = [&](int i) { return strtoull(t[i].c_str(), nullptr, 0); };
            if (k == "run") { go = true; break; }
            else if (k == "elf") {
                FILE *f = fopen(t[1].c_str(), "rb");
                if (f) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) S.elf.append(b, n); fclose(f); }
            }
            else if (k == "elfdata") { S.elf = rdbytes(num(1)); rdbytes(1); }
            else if (k == "arg") { S.args.push_back(rdbytes(num(1))); rdbytes(1); }
            else if (k == "env") { S.envs.push_back(rdbytes(num(1))); rdbytes(1); }
            else if (k == "file") {
                string fl = t[1]; string p = rdbytes(num(2)), d = rdbytes(num(3)); rdbytes(1);
                auto n = std::make_shared<Inode>(); n->data = d;
                if (fl == "dir") n->dir = true; if (fl == "ro") n->ro = true; if (fl == "noread") n->noread = true;
                S.fs[p] = n;
            }
            else if (k == "stdin") { S.stdin_data = rdbytes(num(1)); rdbytes(1); }
            else if (k == "seed") S.seed = num(1);
            else if (k == "place") S.place = t[1];
            else if (k == "mmapbase") S.mmap_base = num(1);
            else if (k == "stacktop") S.stack_top = num(1);
            else if (k == "stackmax") S.stack_max = num(1);
            else if (k == "stackshift") S.stack_shift = num(1);
            else if (k == "maxinsn") S.max_insn = num(1);
            else if (k == "memlimit") S.mem_limit = num(1);
            else if (k == "diskcap") S.disk_cap = num(1);
            else if (k == "fault") { Fault f; f.name = t[1]; f.nth = num(2); f.kind = t[3]; f.arg = t.size() > 4 ? strtoll(t[4].c_str(), 0, 0) : 0; S.faults.push_back(f); }
            else if (k == "irq") S.irqs.push_back({num(1), (u32) num(2)});
            else if (k == "irqevery") { S.irq_every = num(1); S.irq_depth = num(2); if (t.size() > 3) S.irq_start = num(3); if (t.size() > 4) S.irq_end = num(4); }
            else if (k == "kill") S.kill_at = num(1);
            else if (k == "hist") S.hist = num(1);
            else if (k == "regzero") S.regzero = num(1);
            else if (k == "nodump") S.dumpfiles = false;
            else if (k == "op") { vector<i32> o; for (size_t i = 1; i < t.size(); i++) o.push_back((i32) strtoll(t[i].c_str(), 0, 0)); S.ops.push_back(o); }
            else { fprintf(stderr, "bad scenario line: %s\n", line.c_str()); return 3; }
        }
        if (!go) break;
        std::stable_sort(S.irqs.begin(), S.irqs.end());
        Machine M(S);
        if (!M.load()) { M.st = SIGNALED; M.code = -1; }
        else { M.setup_stack(); if (M.st == RUNNING) M.run(); }
        M.report();
    }
    return 0;
}
