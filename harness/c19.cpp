// File over a scripted stream: every history of operations, every short or failing transfer
#ifndef PART
    #define PART 0
#endif
#include "mc/core.hpp"
#include "efp.hpp"
#include <cerrno>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

// ---- the scripted file system ----------------------------------------------------------------------
struct Cookie;
struct Fs {
    std::string disk[2];          // contents of the files "f0" and "f1"
    std::map<FILE*, Cookie*> open;
    int opened = 0, closed = 0;
    int faults = 0;               // faults still allowed
    int injected = 0;             // faults that happened
    bool shorts = false;          // transfers may be short
    int buffer = -1;              // -1: default, 0: unbuffered, else the size
    bool fail_open = false;
};
static Fs* fs;
struct Cookie {
    int file;
    size_t pos;
    bool app;
    char buf[64];
};
static ssize_t ck_read(void* c, char* b, size_t n) {
    Cookie& k = *static_cast<Cookie*>(c);
    std::string& d = fs->disk[k.file];
    size_t left = k.pos < d.size() ? d.size() - k.pos : 0;
    if (n > left)
        n = left;
    int alt = 1 + (fs->shorts && n > 1 ? 1 : 0) + (fs->faults > 0 ? 1 : 0);
    int v = alt > 1 ? choose(alt) : 0;
    if (v && v == alt - 1 && fs->faults > 0) {
        --fs->faults;
        ++fs->injected;
        note("<read fails>");
        errno = EIO;
        return -1;
    }
    if (v)
        n = 1;
    memcpy(b, d.data() + k.pos, n);
    k.pos += n;
    return ssize_t(n);
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
    Cookie& k = *static_cast<Cookie*>(c);
    std::string& d = fs->disk[k.file];
    // all of it, none of it, a part of it (a failure: the stream does not try again)
    int v = fs->faults > 0 ? choose(n > 1 ? 3 : 2) : 0;
    if (v) {
        --fs->faults;
        ++fs->injected;
        note(v == 1 ? "<write fails>" : "<write fails in the middle>");
        errno = ENOSPC;
        if (v == 1)
            return 0;
        n = n / 2;
    }
    if (k.app)
        k.pos = d.size();
    if (d.size() < k.pos + n)
        d.resize(k.pos + n);
    d.replace(k.pos, n, b, n);
    k.pos += n;
    return ssize_t(n);
}
static int ck_seek(void* c, off64_t* o, int w) {
    Cookie& k = *static_cast<Cookie*>(c);
    long base = w == SEEK_SET ? 0 : w == SEEK_CUR ? long(k.pos) : long(fs->disk[k.file].size());
    if (fs->faults > 0 && choose(2)) {
        --fs->faults;
        ++fs->injected;
        note("<seek fails>");
        errno = EIO;
        return -1;
    }
    if (base + *o < 0) {
        errno = EINVAL;
        return -1;
    }
    k.pos = size_t(base + *o);
    *o = off64_t(k.pos);
    return 0;
}
static int ck_close(void* c) {
    bool bad = fs->faults > 0 && choose(2);
    if (bad) {
        --fs->faults;
        ++fs->injected;
        note("<close fails>");
        errno = EIO;
    }
    delete static_cast<Cookie*>(c);
    return bad ? -1 : 0;
}
static void live(FILE* f, const char* what) {
    if (!f)
        fail("%s on a null stream", what);
    if (f == stdout || f == stderr)
        return;
    if (fs && !fs->open.count(f))
        fail("%s on a stream that is not open", what);
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
FILE* __wrap_fopen(const char* path, const char* mode) {
    if (!fs || path[0] != 'f' || path[2])
        return fs && path[0] == 'x' ? nullptr : __real_fopen(path, mode);
    int n = path[1] - '0';
    if (n < 0 || n > 1)
        return nullptr;
    Cookie* k = new Cookie();
    k->file = n;
    k->app = mode[0] == 'a';
    if (mode[0] == 'w')
        fs->disk[n].clear();
    k->pos = 0;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie(k, mode, io);
    if (!f) {
        delete k;
        return nullptr;
    }
    if (fs->buffer == 0)
        setvbuf(f, nullptr, _IONBF, 0);
    else if (fs->buffer > 0)
        setvbuf(f, k->buf, _IOFBF, size_t(fs->buffer));
    fs->open[f] = k;
    ++fs->opened;
    return f;
}
int __wrap_fclose(FILE* f) {
    if (!fs)
        return __real_fclose(f);
    live(f, "fclose");
    fs->open.erase(f);
    ++fs->closed;
    return __real_fclose(f);
}
#define WRAP(R, name, params, args, stream) \
    R __real_##name params;                 \
    R __wrap_##name params {                \
        live(stream, #name);                \
        return __real_##name args;          \
    }
WRAP(int, fgetc, (FILE * f), (f), f)
WRAP(int, getc, (FILE * f), (f), f)
WRAP(char*, fgets, (char* b, int n, FILE* f), (b, n, f), f)
WRAP(size_t, fread, (void* b, size_t s, size_t n, FILE* f), (b, s, n, f), f)
WRAP(int, fputc, (int c, FILE* f), (c, f), f)
WRAP(int, putc, (int c, FILE* f), (c, f), f)
WRAP(int, fputs, (const char* s, FILE* f), (s, f), f)
WRAP(size_t, fwrite, (const void* b, size_t s, size_t n, FILE* f), (b, s, n, f), f)
WRAP(int, fseek, (FILE * f, long o, int w), (f, o, w), f)
WRAP(long, ftell, (FILE * f), (f), f)
WRAP(int, ferror, (FILE * f), (f), f)
WRAP(int, feof, (FILE * f), (f), f)
WRAP(int, ungetc, (int c, FILE* f), (c, f), f)
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) {
    if (f)
        live(f, "fflush");
    return __real_fflush(f);
}
}
struct Use {
    Fs s;
    Use() {
        fs = &s;
    }
    ~Use() {
        fs = nullptr;
    }
};

// ---- model -------------------------------------------------------------------------------------------
struct Model {
    bool open = false, rd = false, wr = false, app = false, bin = false;
    int file = 0;
    std::string data;   // what the file holds once everything is flushed
    size_t pos = 0;
    int last = 0;       // 0 neutral, 1 read, 2 write
    bool exact = true;  // no operation reported a failure so far
    bool known = true;  // the position is known
};
static const char* modes[] = {"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "r+b", "wb+", "a+b"};
static Model opened(int m, int file, const std::string& before) {
    Model x;
    std::string s = modes[m];
    x.open = true;
    x.file = file;
    x.rd = s[0] == 'r' || s.find('+') != std::string::npos;
    x.wr = s[0] != 'r' || s.find('+') != std::string::npos;
    x.app = s[0] == 'a';
    x.bin = s.find('b') != std::string::npos;
    x.data = s[0] == 'w' ? "" : before;
    return x;
}
static std::string show(const std::string& s) {
    std::string r;
    for (char c : s.substr(0, 60)) {
        char b[8];
        if ((unsigned char)c < 32 || (unsigned char)c > 126) {
            snprintf(b, sizeof b, "\\x%02x", (unsigned char)c);
            r += b;
        } else
            r += c;
    }
    if (s.size() > 60)
        r += "...";
    return r;
}
// the next line from pos; false at the end
static bool next_line(const std::string& d, size_t& pos, std::string& line) {
    if (pos >= d.size())
        return false;
    size_t e = d.find('\n', pos);
    line = d.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
    pos = e == std::string::npos ? d.size() : e + 1;
    return true;
}
struct Slot {
    efp::File* p = nullptr;
    Model m;
    Slot() {}
    Slot(const Slot&) = delete;
    ~Slot() {
        delete p;
    }
    efp::File& f() {
        return *p;
    }
    void open(efp::Maybe<efp::File>&& o) {
        MC_CHECK(o.has_value() && !o.is_nothing(), "open gives nothing");
        drop();
        p = new efp::File(o.move());
    }
    void drop() {
        delete p;
        p = nullptr;
    }
};
static void check_disk(const Slot& s, const char* when) {
    if (s.m.exact && s.m.wr)
        MC_CHECK(fs->disk[s.m.file] == s.m.data, "%s the file holds \"%s\", expected \"%s\"", when, show(fs->disk[s.m.file]).c_str(), show(s.m.data).c_str());
}
static const std::string& text(int i) {
    static const std::string t[] = {"ab", "x\ny\n", std::string("p\0q", 3), "", "\n", "\xff\xfe", "longer line than the buffer"};
    return t[i];
}
enum { NTEXT = 7 };
static void do_write(Slot& s, const std::string& t, int how) {
    Model& m = s.m;
    note("write \"%s\"", show(t).c_str());
    bool ok;
    int before = fs->injected;
    if (how == 0)
        ok = s.f().write(efp::String(t.data(), t.size()));
    else if (how == 1)
        ok = s.f().write(t.data(), t.size());
    else
        ok = s.f().write(t.c_str());
    std::string w = how == 2 ? std::string(t.c_str()) : t;
    if (!m.open || (!m.wr && !w.empty())) {
        MC_CHECK(!ok, "write to a file that is %s succeeds", m.open ? "not writable" : "closed");
        return;
    }
    if (!m.wr)
        return;
    if (!ok) {
        MC_CHECK(fs->injected, "write fails without a failure underneath");
        m.exact = false;
    }
    (void)before;
    if (w.empty())
        return;
    if (m.app)
        m.pos = m.data.size();
    if (m.data.size() < m.pos + w.size())
        m.data.resize(m.pos + w.size());
    m.data.replace(m.pos, w.size(), w);
    m.pos += w.size();
    m.last = 2;
}
static void do_read(Slot& s) {
    Model& m = s.m;
    note("read_line");
    int before = fs->injected;
    efp::Maybe<efp::String> l = s.f().read_line();
    bool got = l.has_value();
    std::string g = got ? std::string(l.value().data(), l.value().size()) : "";
    if (!m.open || !m.rd) {
        MC_CHECK(!got, "read_line of a file that is %s gives \"%s\"", m.open ? "not readable" : "closed", show(g).c_str());
        return;
    }
    m.last = 1;
    if (!m.known || !m.exact)
        return;
    if (fs->injected > before) {
        // a failing read must not pass a part of a line off as a line
        std::string line;
        size_t p = m.pos;
        if (got)
            MC_CHECK(next_line(m.data, p, line) && line == g, "a failing read gives the line \"%s\"", show(g).c_str());
        m.known = false;
        return;
    }
    std::string line;
    bool want = next_line(m.data, m.pos, line);
    MC_CHECK(got == want, "read_line gives %s\"%s\", expected %s\"%s\"", got ? "" : "nothing ", show(g).c_str(), want ? "" : "nothing ", show(line).c_str());
    MC_CHECK(g == line, "read_line gives \"%s\", expected \"%s\"", show(g).c_str(), show(line).c_str());
}
static void do_lines(Slot& s) {
    Model& m = s.m;
    note("read_lines");
    int before = fs->injected;
    efp::Vector<efp::String> v = s.f().read_lines();
    std::vector<std::string> want;
    std::string line;
    size_t p = m.pos;
    if (m.open && m.rd) {
        while (next_line(m.data, p, line))
            want.push_back(line);
        m.last = 1;
    }
    if (!m.known || !m.exact)
        return;
    bool cut = fs->injected > before;
    MC_CHECK(cut ? v.size() <= want.size() : v.size() == want.size(), "read_lines gives %zu lines, expected %zu", size_t(v.size()), want.size());
    for (size_t i = 0; i < v.size(); ++i)
        MC_CHECK(std::string(v[i].data(), v[i].size()) == want[i], "line %zu is \"%s\", expected \"%s\"", i, show(std::string(v[i].data(), v[i].size())).c_str(), show(want[i]).c_str());
    if (cut)
        m.known = false;
    m.pos = p;
}
static void do_seek(Slot& s, long o) {
    Model& m = s.m;
    note("seek %ld", o);
    bool ok = s.f().seek(o);
    if (!m.open || o < 0) {
        if (!ok && fs->injected)
            m.exact = m.known = false;  // reported, whatever the reason
        MC_CHECK(!ok, "seek %s succeeds", m.open ? "to a negative position" : "in a closed file");
        return;
    }
    if (!ok) {
        MC_CHECK(fs->injected, "seek fails without a failure underneath");
        m.exact = m.known = false;
        return;
    }
    m.pos = size_t(o);
    m.last = 0;
    // a successful seek has flushed
    check_disk(s, "after seek");
}
static void do_tell(Slot& s) {
    Model& m = s.m;
    note("tell");
    long t = s.f().tell();
    if (!m.open) {
        MC_CHECK(t == -1, "tell of a closed file gives %ld", t);
        return;
    }
    if (!m.known || !m.exact || m.app)
        return;
    if (t == -1 && fs->injected)
        return;
    MC_CHECK(t == long(m.pos), "tell gives %ld, expected %zu", t, m.pos);
}
static void do_flush(Slot& s) {
    Model& m = s.m;
    note("flush");
    int r = s.f().flush();
    if (!m.open) {
        MC_CHECK(r != 0, "flush of a closed file succeeds");
        return;
    }
    if (r != 0) {
        MC_CHECK(fs->injected, "flush fails without a failure underneath");
        m.exact = m.known = false;
        return;
    }
    if (m.last == 2)
        m.last = 0;
    check_disk(s, "after flush");
}
static void do_close(Slot& s) {
    Model& m = s.m;
    note("close");
    int was = fs->closed;
    bool ok = s.f().close();
    MC_CHECK(fs->closed - was == (m.open ? 1 : 0), "close of %s file closes %d streams", m.open ? "an open" : "a closed", fs->closed - was);
    if (!m.open) {
        MC_CHECK(!ok, "close of a closed file succeeds");
        return;
    }
    m.open = false;
    if (ok)
        check_disk(s, "after close");
    else
        MC_CHECK(fs->injected, "close fails without a failure underneath");
}
static void destroyed(Slot& s) {
    if (!s.m.open)
        return;
    s.m.open = false;
    if (!fs->injected)
        check_disk(s, "after destruction");
}
// every history of operations on up to two files
static void history(int depth, int faults, bool two) {
    Use u;
    int m = choose(12);
    static const std::string init[] = {"", "ab\ncd", "\n\nx\n"};
    u.s.disk[0] = init[choose(3)];
    u.s.disk[1] = "one\ntwo\n";
    static const int bufs[] = {-1, 0, 4};
    u.s.buffer = bufs[choose(faults ? 3 : 2)];
    note("%s, buffer %d, holding \"%s\"", modes[m], u.s.buffer, show(u.s.disk[0]).c_str());
    std::string before = u.s.disk[0];
    {
        Slot s, t;
        s.open(efp::File::open("f0", modes[m]));
        s.m = opened(m, 0, before);
        u.s.faults = faults;
        u.s.shorts = faults > 0;
        if (two) {
            t.open(efp::File::open(efp::String("f1"), "r+"));
            t.m = opened(3, 1, u.s.disk[1]);
        }
        int n = choose(depth + 1);
        for (int i = 0; i < n; ++i) {
            // reading and writing must be separated by seek or flush (a rule of C streams)
            bool may_r = s.m.last != 2, may_w = s.m.last != 1;
            std::vector<int> ops;
            if (may_w || !s.m.open)
                for (int k = 0; k < (faults ? 3 : 5); ++k)
                    ops.push_back(k);
            if (may_r || !s.m.open) {
                ops.push_back(10);
                ops.push_back(11);
            }
            for (int k = 12; k < (two ? 24 : faults ? 18 : 19); ++k)
                ops.push_back(k);
            int op = ops[size_t(choose(int(ops.size())))];
            switch (op) {
                case 0: do_write(s, text(0), 2); break;
                case 1: do_write(s, text(1), 0); break;
                case 2: do_write(s, text(faults ? 6 : 2), 0); break;
                case 3: do_write(s, text(5), 1); break;
                case 4: do_write(s, text(3), 0); break;
                case 10: do_read(s); break;
                case 11: do_lines(s); break;
                case 12: do_seek(s, 0); break;
                case 13: do_seek(s, 4); break;
                case 14: do_tell(s); break;
                case 15: do_flush(s); break;
                case 16: do_close(s); break;
                case 17: {
                    note("moved away and back");
                    efp::File tmp(efp::move(s.f()));
                    Model saved = s.m;
                    s.m = Model();
                    do_write(s, text(0), 0);
                    do_read(s);
                    do_seek(s, 0);
                    do_tell(s);
                    do_flush(s);
                    do_close(s);
                    s.f() = efp::move(tmp);
                    s.m = saved;
                    break;
                }
                case 18: do_seek(s, -1); break;
                case 19: {
                    note("t = move(s)");
                    t.f() = efp::move(s.f());
                    destroyed(t);
                    t.m = s.m;
                    s.m = Model();
                    break;
                }
                case 20: {
                    note("swap");
                    efp::File tmp(efp::move(t.f()));
                    t.f() = efp::move(s.f());
                    s.f() = efp::move(tmp);
                    std::swap(s.m, t.m);
                    break;
                }
                case 21: do_lines(t); t.m.last = 0; break;
                case 22: do_close(t); break;
                case 23: {
                    note("s = move(s)");
                    efp::File& f = s.f();
                    efp::File& g = *&f;
                    f = efp::move(g);
                    break;
                }
            }
        }
        if (choose(2)) {
            do_close(s);
            if (two)
                do_close(t);
        } else {
            note("destroyed");
            s.drop();
            destroyed(s);
            t.drop();
            destroyed(t);
        }
    }
    MC_CHECK(u.s.open.empty() && u.s.opened == u.s.closed, "%d streams opened, %d closed", u.s.opened, u.s.closed);
    Hash h;
    for (char c : u.s.disk[0])
        h.u(uint64_t(c));
    h.u(uint64_t(u.s.injected));
    outcome(h.get());
}
// every content over a few bytes, read line by line, at once and mixed
static void contents(int len) {
    Use u;
    static const char al[] = {'a', '\n', '\xff', '\0', '\r'};
    std::string d;
    int n = choose(len + 1);
    for (int i = 0; i < n; ++i)
        d += al[choose(5)];
    u.s.disk[0] = d;
    static const int bufs[] = {-1, 0, 3};
    note("\"%s\"", show(d).c_str());
    for (int b = 0; b < 3; ++b)
        for (int how = 0; how < 4; ++how) {
            u.s.buffer = bufs[b];
            Slot s;
            s.open(efp::File::open("f0", how % 2 ? "rb" : "r"));
            s.m = opened(0, 0, d);
            if (how < 2) {
                for (int i = 0; i < n + 2; ++i)
                    do_read(s);
            } else if (how == 2)
                do_lines(s);
            else {
                do_read(s);
                do_tell(s);
                do_lines(s);
                do_read(s);
                do_seek(s, 1);
                do_lines(s);
            }
            do_close(s);
        }
}
// reads with every pattern of short and failing transfers
static void read_faults(int faults) {
    Use u;
    static const std::string ds[] = {"ab\ncd\n", "ab\ncd", "abcdefgh\nx\n\ny", "\n\n"};
    std::string d = ds[choose(4)];
    u.s.disk[0] = d;
    u.s.buffer = choose(2) ? 4 : 0;
    u.s.faults = faults;
    u.s.shorts = true;
    note("\"%s\" buffer %d", show(d).c_str(), u.s.buffer);
    Slot s;
    s.open(efp::File::open("f0", "r"));
    s.m = opened(0, 0, d);
    int k = choose(3);
    for (int i = 0; i < k; ++i)
        do_read(s);
    do_lines(s);
    u.s.faults = 0;
    do_close(s);
}
// long data: every length around the buffer sizes, every byte value
static void long_data() {
    Use u;
    static const int ls[] = {0, 1, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 20000};
    int n = ls[choose(15)], how = choose(3), m = choose(4);
    static const char* wm[] = {"w", "wb", "a", "w+"};
    note("%d bytes, mode %s", n, wm[m]);
    std::string d;
    for (int i = 0; i < n; ++i)
        d += char(how == 2 ? 1 + i % 255 : i % 256);
    Slot s;
    s.open(efp::File::open("f0", wm[m]));
    s.m = opened(m == 0 ? 1 : m == 1 ? 7 : m == 2 ? 2 : 4, 0, "");
    do_write(s, d, how);
    do_write(s, "end", 0);
    do_close(s);
    s.open(efp::File::open("f0", "rb"));
    s.m = opened(6, 0, u.s.disk[0]);
    do_lines(s);
    do_close(s);
}
static void long_lines() {
    Use u;
    int n = choose(core().thorough ? 1200 : 400);
    note("lines of %d characters", n);
    std::string a(size_t(n), 'q'), d = a + "\n" + a + "x\n" + a;
    u.s.disk[0] = d;
    Slot s;
    s.open(efp::File::open("f0", "r"));
    s.m = opened(0, 0, d);
    do_read(s);
    do_lines(s);
    do_close(s);
}
// real files in the scratch directory
static void real_files() {
    int k = choose(8);
    note("real file case %d", k);
    char dir[] = "files-XXXXXX";
    if (!mkdtemp(dir))
        fail("harness error: mkdtemp");
    std::string base = dir, p = base + "/file";
    std::string want;
    {
        switch (k) {
            case 0: MC_CHECK(!efp::File::open((base + "/none").c_str(), "r").has_value(), "opening a missing file gives a File"); break;
            case 1: MC_CHECK(!efp::File::open(efp::String((base + "/no/such").c_str()), "w").has_value(), "opening a file in a missing directory gives a File"); break;
            case 2: MC_CHECK(!efp::File::open(base.c_str(), "w").has_value(), "opening a directory for writing gives a File"); break;
            case 3: {
                auto o = efp::File::open(base.c_str(), "r");
                if (o)
                    MC_CHECK(!o.move().read_line().has_value(), "a line is read from a directory");
                break;
            }
            case 4: {
                Slot f, g;
                f.open(efp::File::open(p.c_str(), "w"));
                MC_CHECK(f.f().write("one\ntwo") && f.f().close(), "writing a file fails");
                g.open(efp::File::open(efp::String(p.c_str()), "r"));
                auto l = g.f().read_lines();
                MC_CHECK(l.size() == 2 && l[0] == efp::String("one") && l[1] == efp::String("two"), "the lines read are wrong");
                MC_CHECK(!g.f().read_line().has_value() && g.f().close(), "the end of the file is not reported");
                break;
            }
            case 5: {
                // a full device: the failure must be reported by close at the latest
                auto o = efp::File::open("/dev/full", "w");
                if (o) {
                    efp::File f(o.move());
                    bool w = f.write("data"), fl = f.flush() == 0, c = f.close();
                    MC_CHECK(!(w && fl && c), "writing to a full device succeeds");
                }
                break;
            }
            case 6: {
                for (int i = 0; i < 3; ++i) {
                    Slot f;
                    f.open(efp::File::open(p.c_str(), "a"));
                    MC_CHECK(f.f().write(efp::String("x\n")), "appending fails");
                }
                Slot g;
                g.open(efp::File::open(p.c_str(), "r"));
                MC_CHECK(g.f().read_lines().size() == 3, "appended lines are missing");
                break;
            }
            default: MC_CHECK(!efp::File::open(p.c_str(), "?").has_value(), "an invalid mode gives a File");
        }
    }
    unlink(p.c_str());
    rmdir(dir);
}
// positions no int can hold, in a sparse file
static void far_positions() {
    static const long at[] = {2147483646L, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967301L, 1099511627776L};
    long pos = at[choose(7)];
    bool bin = choose(2) == 1;
    note("position %ld", pos);
    char dir[] = "files-XXXXXX";
    if (!mkdtemp(dir))
        fail("harness error: mkdtemp");
    std::string base = dir, p = base + "/file", q = base + "/plain";
    // whether the file system holds such a file at all
    FILE* plain = fopen(q.c_str(), "w+");
    bool can = plain && fseek(plain, pos, SEEK_SET) == 0 && fputs("ab\ncd", plain) >= 0 && fflush(plain) == 0 && ftell(plain) == pos + 5;
    if (plain)
        fclose(plain);
    unlink(q.c_str());
    std::string bad;
    if (can) {
        Slot f;
        f.open(efp::File::open(p.c_str(), bin ? "wb+" : "w+"));
        if (!f.f().seek(pos))
            bad = "seek fails";
        else if (long(f.f().tell()) != pos)
            bad = "tell after seek gives " + std::to_string(long(f.f().tell()));
        else if (!f.f().write("ab\ncd") || f.f().flush() != 0)
            bad = "write fails";
        else if (long(f.f().tell()) != pos + 5)
            bad = "tell after write gives " + std::to_string(long(f.f().tell()));
        else if (!f.f().seek(pos + 1))
            bad = "seek back fails";
        else {
            auto ls = f.f().read_lines();
            if (ls.size() != 2 || !(ls[0] == efp::String("b")) || !(ls[1] == efp::String("cd")))
                bad = "the lines read back are wrong";
            else if (long(f.f().tell()) != pos + 5)
                bad = "tell at the end gives " + std::to_string(long(f.f().tell()));
            else if (!f.f().close())
                bad = "close fails";
        }
    }
    unlink(p.c_str());
    rmdir(dir);
    MC_CHECK(bad.empty(), "at position %ld: %s", pos, bad.c_str());
    outcome(uint64_t(pos));
}
static void unavailable() {
    Use u;
    int k = choose(2);
    note("unavailable");
    efp::Maybe<efp::File> f = k ? efp::File::open("x0", "r") : efp::File::open(efp::String("x0"), "w+");
    MC_CHECK(!f.has_value() && f.is_nothing(), "opening an unavailable path gives a File");
    MC_CHECK(!fs->opened, "a stream is opened");
}

static void setup() {
    add_choice("histories-one-file", [] { history((core().thorough ? 5 : 4) + core().bound_scale, 0, false); }, 16);
    add_choice("histories-two-files", [] { history((core().thorough ? 4 : 3) + core().bound_scale, 0, true); }, 16);
    add_choice("histories-one-fault", [] { history((core().thorough ? 4 : 3) + core().bound_scale, 1, false); }, 16);
    add_choice("histories-two-faults", [] { history((core().thorough ? 3 : 2), 2, false); }, 16);
    add_choice("histories-two-files-one-fault", [] { history((core().thorough ? 3 : 2), 1, true); }, 16);
    add_choice("read-contents", [] { contents((core().thorough ? 7 : 6) + core().bound_scale); }, 8);
    add_choice("read-short-transfers", [] { read_faults(0); });
    add_choice("read-one-failure", [] { read_faults(1); });
    add_choice("read-two-failures", [] { read_faults(2); });
    add_choice("long-data", long_data);
    add_choice("long-lines", long_lines);
    add_choice("real-files", real_files);
    add_choice("far-positions", far_positions);
    add_choice("unavailable", unavailable);
}
int main(int argc, char** argv) {
    return main_(argc, argv, setup);
}
