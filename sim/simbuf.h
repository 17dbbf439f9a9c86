// Simulated output sink: accepts bytes into memory, and fails as the program says.
#pragma once
#include "rt.h"
#include <cstring>
#include <ios>
#include <locale>
#include <streambuf>

enum IoFault { IO_NONE, IO_EOF, IO_THROW, IO_TRANSIENT, IO_PREFAILED, IO_SHORT, IO_SLOW, IO_NOMEM, IO_SYNC, IO_N };
struct sink_error {};

// a locale whose numbers look different
struct SimPunct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\3"; }
};
inline const std::locale &sim_locale() {
    static const std::locale l(std::locale::classic(), new SimPunct);
    return l;
}

class SimBuf : public std::streambuf {
public:
    char got[4096];
    size_t len = 0;
    int kind = IO_NONE;
    size_t at = 0;       // byte position at which the fault strikes
    bool fired = false, healed = false;

private:
    // decides about the next byte; true if it may be stored
    bool admit() {
        bool hit = !healed && len >= at;
        switch (kind) {
        case IO_EOF: case IO_SHORT: case IO_NOMEM:
            if (hit) { if (!fired) rt::res->io_faults[kind]++; fired = true; if (kind == IO_NOMEM) throw std::bad_alloc(); return false; }
            break;
        case IO_THROW:
            if (hit) { if (!fired) rt::res->io_faults[kind]++; fired = true; throw sink_error(); }
            break;
        case IO_TRANSIENT:
            if (hit && !fired) { fired = true; rt::res->io_faults[kind]++; return false; }
            break;
        default: break;
        }
        return len < sizeof got - 1;
    }

protected:
    int_type overflow(int_type c) override {
        rt::yield_point(rt::K_IO);
        if (c == traits_type::eof()) return traits_type::not_eof(c);
        if (!admit()) return traits_type::eof();
        got[len++] = (char)c;
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        rt::yield_point(rt::K_IO);
        std::streamsize i = 0;
        for (; i < n; i++) {
            if (kind == IO_SLOW && !fired) { fired = true; rt::res->io_faults[IO_SLOW]++; }
            if (kind == IO_SLOW) rt::yield_point(rt::K_IO);
            if (!admit()) break;
            got[len++] = s[i];
        }
        return i;
    }
    int sync() override {
        rt::yield_point(rt::K_IO);
        if (kind != IO_SYNC || healed || len < at) return 0;
        if (!fired) rt::res->io_faults[IO_SYNC]++;
        fired = true;
        return -1;
    }
};
