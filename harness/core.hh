// Property-based testing engine: every random decision of a case is one entry of a choice
// sequence, so any case replays from (and shrinks as) a list of integers.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Src {
    std::vector<uint64_t> in;   // choices to replay
    std::vector<uint64_t> out;  // choices made
    size_t pos = 0;
    bool random = false;  // past the end of `in`: draw at random (else 0, the simplest choice)
    uint64_t s = 0;
    uint64_t next64() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n); 0 is the simplest value
    uint64_t draw(uint64_t n) {
        if (out.size() > 400000) throw std::runtime_error("pbt: case too large");
        uint64_t v = 0;
        if (n > 1) {
            if (pos < in.size())
                v = in[pos] % n;
            else if (random)
                v = next64() % n;
        }
        pos++;
        out.push_back(v);
        return v;
    }
    uint64_t bits(uint32_t w) {  // w-bit value, edge-biased
        if (w == 0) return 0;
        uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1);
        switch (draw(6)) {
            case 0:
                return draw(4) & m;
            case 1:
                return m - (draw(3) & m);
            case 2:
                return (1ull << draw(w > 63 ? 63 : w)) & m;
            default: {
                uint64_t v = draw(1ull << (w > 32 ? 32 : w));
                if (w > 32) v |= draw(1ull << 32) << 32;
                return v & m;
            }
        }
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
    // true with probability num/den; shrinks to false
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
    bool flip() { return draw(2) == 1; }
    template <typename T>
    const T &pick(const std::vector<T> &v) {
        return v[draw(v.size())];
    }
    template <typename T>
    void shuffle(std::vector<T> &v) {
        for (size_t i = 1; i < v.size(); i++) {
            size_t j = i - draw(i + 1);
            std::swap(v[i], v[j]);
        }
    }
};

struct Failure {
    std::string tag, msg;
};
struct Discard {
    std::string why;
};

struct Case {
    Src src;
    bool thorough = false;
    std::set<std::string> labels;
    bool nontrivial = false;
    std::string fingerprint;  // distinctness is counted over this (default: the choices)
    std::string sample;       // human readable rendering of the case
    bool verbose = false;
    [[noreturn]] void fail(const std::string &tag, const std::string &msg) {
        throw Failure{tag, msg};
    }
    void check(bool c, const std::string &tag, const std::string &msg) {
        if (!c) fail(tag, msg);
    }
    void label(const std::string &l) { labels.insert(l); }
};

struct Finding {
    std::string id;    // entry in known_findings.json
    std::string what;  // printed after KNOWN-FINDING
    std::function<bool()> still_fails;
};

struct Property {
    std::string id;
    std::string rule;  // what makes a case non-trivial
    std::function<void(Case &)> run;
    uint64_t quick_cases = 4000;
    uint64_t thorough_cases = 100000;
    std::vector<std::string> assumptions;
    std::vector<Finding> findings;
    bool trust_crash = false;  // a crash counts even when it does not repeat (reports of data races)
};

void add(Property p);
// is this finding listed (so its shape must not be generated)?
bool known(const std::string &finding_id);

struct Reg {
    explicit Reg(Property p) { add(std::move(p)); }
};

std::string scratch_dir();  // per-process scratch directory, removed by the runner

}  // namespace pbt
