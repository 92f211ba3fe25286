// Fixed-capacity bit vector (two-state) used by the oracles. Independent of kratos.
#pragma once
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>

struct BV {
    static constexpr uint32_t NW = 16;
    static constexpr uint32_t MAXW = NW * 64;
    uint32_t w = 1;
    uint64_t d[NW];
    BV() { std::memset(d, 0, sizeof d); }
    BV(uint32_t width, uint64_t v) : w(width) {
        if (w > MAXW) throw std::runtime_error("BV: too wide: " + std::to_string(width));
        std::memset(d, 0, sizeof d);
        d[0] = v;
        mask();
    }
    static BV sval(uint32_t width, int64_t v) {
        BV r(width, 0);
        for (uint32_t i = 0; i < r.nw(); i++) r.d[i] = i == 0 ? (uint64_t)v : (v < 0 ? ~0ull : 0);
        r.mask();
        return r;
    }
    uint32_t nw() const { return (w + 63) / 64; }
    void mask() {
        uint32_t n = nw();
        if (w % 64) d[n - 1] &= (~0ull >> (64 - w % 64));
        for (uint32_t i = n; i < NW; i++) d[i] = 0;
    }
    bool bit(uint32_t i) const { return i < w && ((d[i / 64] >> (i % 64)) & 1); }
    void setbit(uint32_t i, bool v) {
        if (i >= w) return;
        if (v)
            d[i / 64] |= 1ull << (i % 64);
        else
            d[i / 64] &= ~(1ull << (i % 64));
    }
    bool msb() const { return w && bit(w - 1); }
    bool any() const {
        for (uint32_t i = 0; i < nw(); i++)
            if (d[i]) return true;
        return false;
    }
    bool all() const {
        for (uint32_t i = 0; i < w; i++)
            if (!bit(i)) return false;
        return true;
    }
    bool fits64() const {
        for (uint32_t i = 1; i < nw(); i++)
            if (d[i]) return false;
        return true;
    }
    uint64_t u64() const { return d[0]; }
    int64_t s64() const {
        if (w >= 64) return (int64_t)d[0];
        return msb() ? (int64_t)(d[0] | (~0ull << w)) : (int64_t)d[0];
    }
    bool operator==(const BV &o) const { return w == o.w && !std::memcmp(d, o.d, sizeof d); }
    bool operator!=(const BV &o) const { return !(*this == o); }
    BV resize(uint32_t nwid, bool sgn) const {
        BV r(nwid, 0);
        if (nwid <= w) {
            std::memcpy(r.d, d, sizeof d);
            r.mask();
            return r;
        }
        std::memcpy(r.d, d, sizeof d);
        if (sgn && msb())
            for (uint32_t i = w; i < nwid; i++) r.setbit(i, true);
        return r;
    }
    BV slice(uint32_t lo, uint32_t width) const {
        BV r(width, 0);
        uint32_t ws = lo / 64, bs = lo % 64;
        for (uint32_t i = 0; i < r.nw(); i++) {
            uint64_t v = 0;
            if (i + ws < NW) v = d[i + ws] >> bs;
            if (bs && i + ws + 1 < NW) v |= d[i + ws + 1] << (64 - bs);
            r.d[i] = v;
        }
        r.mask();
        return r;
    }
    void insert(uint32_t lo, const BV &v) {
        if (lo == 0 && v.w == w) {
            std::memcpy(d, v.d, sizeof d);
            return;
        }
        for (uint32_t i = 0; i < v.w; i++) setbit(lo + i, v.bit(i));
    }
    BV operator~() const {
        BV r(w, 0);
        for (uint32_t i = 0; i < nw(); i++) r.d[i] = ~d[i];
        r.mask();
        return r;
    }
    static BV add(const BV &a, const BV &b) {
        BV r(a.w, 0);
        unsigned __int128 c = 0;
        for (uint32_t i = 0; i < r.nw(); i++) {
            c += a.d[i];
            c += b.d[i];
            r.d[i] = (uint64_t)c;
            c >>= 64;
        }
        r.mask();
        return r;
    }
    static BV neg(const BV &a) { return add(~a, BV(a.w, 1)); }
    static BV sub(const BV &a, const BV &b) { return add(a, neg(b)); }
    static BV mul(const BV &a, const BV &b) {
        BV r(a.w, 0);
        uint32_t n = r.nw();
        for (uint32_t i = 0; i < n; i++) {
            unsigned __int128 c = 0;
            for (uint32_t j = 0; i + j < n; j++) {
                c += (unsigned __int128)a.d[i] * b.d[j] + r.d[i + j];
                r.d[i + j] = (uint64_t)c;
                c >>= 64;
            }
        }
        r.mask();
        return r;
    }
    static int ucmp(const BV &a, const BV &b) {
        for (int i = NW - 1; i >= 0; i--)
            if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
        return 0;
    }
    static int scmp(const BV &a, const BV &b) {
        if (a.msb() != b.msb()) return a.msb() ? -1 : 1;
        return ucmp(a, b);
    }
    static void udivmod(const BV &a, const BV &b, BV &q, BV &r) {
        q = BV(a.w, 0);
        r = BV(a.w, 0);
        if (a.nw() == 1 && b.nw() == 1) {
            q.d[0] = a.d[0] / b.d[0];
            r.d[0] = a.d[0] % b.d[0];
            return;
        }
        for (int i = (int)a.w - 1; i >= 0; i--) {
            bool top = r.msb();
            r = r.shl(1);
            r.setbit(0, a.bit(i));
            if (top || ucmp(r, b) >= 0) {
                r = sub(r, b);
                q.setbit(i, true);
            }
        }
    }
    static BV div(const BV &a, const BV &b, bool sgn, bool mod) {
        if (!b.any()) throw std::runtime_error("division by zero");
        BV q, r;
        if (!sgn) {
            udivmod(a, b, q, r);
            return mod ? r : q;
        }
        BV x = a.msb() ? neg(a) : a, y = b.msb() ? neg(b) : b;
        udivmod(x, y, q, r);
        if (a.msb() != b.msb()) q = neg(q);
        if (a.msb()) r = neg(r);
        return mod ? r : q;
    }
    BV shl(uint64_t n) const {
        BV r(w, 0);
        if (n >= w) return r;
        uint32_t ws = n / 64, bs = n % 64;
        for (int i = nw() - 1; i >= (int)ws; i--) {
            r.d[i] = d[i - ws] << bs;
            if (bs && i - (int)ws - 1 >= 0) r.d[i] |= d[i - ws - 1] >> (64 - bs);
        }
        r.mask();
        return r;
    }
    BV shr(uint64_t n, bool arith) const {
        bool f = arith && msb();
        BV r(w, 0);
        if (n >= w) {
            if (f) r = ~r;
            return r;
        }
        r = slice((uint32_t)n, w - (uint32_t)n).resize(w, false);
        if (f)
            for (uint32_t i = w - (uint32_t)n; i < w; i++) r.setbit(i, true);
        return r;
    }
    static BV pow(const BV &base, const BV &e, bool sgn) {
        BV r(base.w, 1);
        if (sgn && e.msb()) {
            // LRM table 11-4: negative exponent
            if (!base.any()) throw std::runtime_error("0 ** negative");
            if (base.w == 1 || base == BV(base.w, 1)) return r;  // 1 ** -n (w==1 signed: -1)
            if (base.all()) return e.bit(0) ? base : r;
            return BV(base.w, 0);
        }
        BV b = base;
        for (uint32_t i = 0; i < e.w; i++) {
            if (e.bit(i)) r = mul(r, b);
            b = mul(b, b);
        }
        return r;
    }
    uint64_t shamt() const { return fits64() ? d[0] : ~0ull; }
    std::string str() const {
        std::string s;
        for (int i = (int)((w + 3) / 4) - 1; i >= 0; i--) {
            int v = 0;
            for (int j = 3; j >= 0; j--) v = v * 2 + bit(i * 4 + j);
            s += "0123456789abcdef"[v];
        }
        return std::to_string(w) + "'h" + s;
    }
};
