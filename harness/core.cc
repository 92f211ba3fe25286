#include "core.hh"

#include <cxxabi.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>

namespace pbt {

static std::vector<Property> &props() {
    static std::vector<Property> p;
    return p;
}
void add(Property p) { props().push_back(std::move(p)); }

static std::string g_verif = "/verif";
static std::set<std::string> &known_ids() {
    static std::set<std::string> k;
    return k;
}
bool known(const std::string &id) { return known_ids().count(id) > 0; }

// known_findings.json: a JSON list of objects; entries with "status": "known" suppress.
static void load_known() {
    std::ifstream in(g_verif + "/known_findings.json");
    std::stringstream ss;
    ss << in.rdbuf();
    std::string t = ss.str();
    size_t p = 0;
    while ((p = t.find('{', p)) != std::string::npos) {
        size_t e = t.find('}', p);
        if (e == std::string::npos) break;
        std::string o = t.substr(p, e - p);
        auto get = [&](const std::string &k) -> std::string {
            auto a = o.find("\"" + k + "\"");
            if (a == std::string::npos) return "";
            a = o.find('"', o.find(':', a));
            auto b = a + 1;
            while (b < o.size() && o[b] != '"') b += o[b] == '\\' ? 2 : 1;
            return o.substr(a + 1, b - a - 1);
        };
        if (get("status") == "known") known_ids().insert(get("id"));
        p = e + 1;
    }
}

static std::string g_scratch;
std::string scratch_dir() {
    std::string d = g_scratch + "/" + std::to_string(getpid());
    mkdir(d.c_str(), 0755);
    return d;
}

enum { PASS = 0, FAIL = 1, DISCARD = 2 };
struct Outcome {
    int kind = PASS;
    std::string tag, msg;
};

static std::string demangle(const char *n) {
    int st = 0;
    char *s = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = s ? s : n;
    free(s);
    return r;
}

static Outcome run_case(const Property &p, Case &c) {
    Outcome o;
    try {
        p.run(c);
    } catch (Failure &f) {
        o = {FAIL, f.tag, f.msg};
    } catch (Discard &d) {
        o = {DISCARD, d.why, ""};
    } catch (std::exception &e) {
        o = {FAIL, "exception", demangle(typeid(e).name()) + ": " + e.what()};
    } catch (...) {
        o = {FAIL, "exception", "unknown exception"};
    }
    return o;
}

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x1234567;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c == '\t')
            r += "\\t";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}

// --- one case in its own process (used for shrinking and replay) -----------------------------
struct Attempt {
    Outcome o;
    std::vector<uint64_t> choices;
    std::string sample;
    std::string log;
};

static std::string read_all(int fd) {
    std::string s;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR))
        if (n > 0) s.append(buf, n);
    return s;
}
static void write_all(int fd, const std::string &s) {
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = write(fd, s.data() + o, s.size() - o);
        if (n <= 0) {
            if (errno == EINTR) continue;
            return;
        }
        o += n;
    }
}

static void silence(const std::string &errfile) {
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    int e = errfile.empty() ? n : open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(e, 2);
    if (n > 2) close(n);
}

// what a crashed process left behind, without the stack frames of the standard library
static std::string brief(const std::string &errfile) {
    std::ifstream in(errfile);
    std::string r, line;
    while (std::getline(in, line) && r.size() < 6000) {
        size_t h = line.find('#');
        bool frame = h != std::string::npos && line.find_first_not_of(' ') == h && h + 1 < line.size() && isdigit(line[h + 1]);
        if (frame && (line.find("kratos::") == std::string::npos || line.find(" std::") != std::string::npos || line.find("__invoke") != std::string::npos)) continue;
        r += line.substr(0, 200) + "\n";
    }
    return r;
}

static void limit_memory() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl {
        4ull << 30, 4ull << 30
    };
    setrlimit(RLIMIT_AS, &rl);
#endif
}

constexpr int CASE_CPU_SECONDS = 120;  // a case takes milliseconds; beyond this it is a hang

static Attempt attempt(const Property &p, const std::vector<uint64_t> &choices, uint64_t seed,
                       bool random, bool thorough) {
    int fds[2];
    if (pipe(fds)) exit(3);
    std::string errf = g_scratch + "/err." + std::to_string(getpid());
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        silence(errf);
        struct rlimit rl {
            CASE_CPU_SECONDS, CASE_CPU_SECONDS + 5
        };
        setrlimit(RLIMIT_CPU, &rl);
        limit_memory();
        Case c;
        c.thorough = thorough;
        c.verbose = true;
        c.src.in = choices;
        c.src.s = seed;
        c.src.random = random;
        Outcome o = run_case(p, c);
        std::ostringstream os;
        os << o.kind << "\n" << o.tag.size() << " " << o.msg.size() << " " << c.sample.size() << " "
           << c.src.out.size() << "\n"
           << o.tag << o.msg << c.sample;
        for (auto v : c.src.out) os << v << " ";
        write_all(fds[1], os.str());
        _exit(0);
    }
    close(fds[1]);
    std::string s = read_all(fds[0]);
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    Attempt a;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || s.empty()) {
        a.o.kind = FAIL;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
            a.o.tag = "hang";
            a.o.msg = "case used more than " + std::to_string(CASE_CPU_SECONDS) + " s of CPU";
        } else {
            a.o.tag = "crash";
            a.o.msg = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st))
                                      : "exited with status " + std::to_string(WEXITSTATUS(st));
            a.o.msg += "\n" + brief(errf);
        }
        a.choices = choices;
    } else {
        std::istringstream is(s);
        size_t t, m, sm, n;
        is >> a.o.kind >> t >> m >> sm >> n;
        is.get();
        a.o.tag.resize(t);
        is.read(&a.o.tag[0], t);
        a.o.msg.resize(m);
        is.read(&a.o.msg[0], m);
        a.sample.resize(sm);
        is.read(&a.sample[0], sm);
        a.choices.resize(n);
        for (auto &v : a.choices) is >> v;
    }
    unlink(errf.c_str());
    return a;
}

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static Attempt shrink(const Property &p, Attempt best, uint64_t seed, bool thorough) {
    double t0 = now();
    int budget = 8000;
    auto try_ = [&](const std::vector<uint64_t> &c) {
        if (budget-- <= 0 || now() - t0 > 60) return false;
        Attempt a = attempt(p, c, 0, false, thorough);
        if (a.o.kind == FAIL && a.o.tag == best.o.tag) {
            auto cc = a.choices;
            while (!cc.empty() && cc.back() == 0) cc.pop_back();
            if (cc.size() < best.choices.size() ||
                (cc.size() == best.choices.size() && cc < best.choices)) {
                a.choices = cc;
                best = a;
                return true;
            }
        }
        return false;
    };
    while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
    bool improved = true;
    while (improved && budget > 0 && now() - t0 < 60) {
        improved = false;
        for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k /= 2) {
            for (size_t i = best.choices.size(); i > 0 && budget > 0;) {
                i = i > k ? i - k : 0;
                if (i >= best.choices.size()) continue;
                auto c = best.choices;
                c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + k));
                if (try_(c)) {
                    improved = true;
                    continue;
                }
                c = best.choices;
                bool nz = false;
                for (size_t j = i; j < std::min(c.size(), i + k); j++) {
                    nz |= c[j] != 0;
                    c[j] = 0;
                }
                if (nz && try_(c)) improved = true;
            }
        }
        for (size_t i = 0; i < best.choices.size() && budget > 0; i++) {
            uint64_t lo = 0, hi = best.choices[i];
            while (lo < hi && budget > 0) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto c = best.choices;
                if (i >= c.size()) break;
                c[i] = mid;
                if (try_(c)) {
                    improved = true;
                    hi = mid;
                } else
                    lo = mid + 1;
            }
        }
    }
    (void)seed;
    return best;
}

// --- campaign ---------------------------------------------------------------------------------
struct Shared {
    volatile uint64_t cur[64];
};

struct Totals {
    uint64_t evals = 0, discards = 0, nontrivial = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

int run_property(const Property &p, const std::string &tier, uint64_t seed, uint64_t cases,
                 double time_cap, int workers) {
    double t0 = now();
    bool thorough = tier == "thorough";
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const uint64_t CHUNK = 50;
    uint64_t next = 0;
    struct W {
        pid_t pid = 0;
        int fd = -1;
        std::string buf;
        std::string errf;
    };
    std::vector<W> ws(workers);
    Totals tot;
    bool have_fail = false;
    uint64_t fail_idx = 0;
    std::string fail_err;
    uint64_t pseed = mix(seed, fnv(p.id));
    auto start = [&](int w) {
        if (have_fail || next >= cases || now() - t0 > time_cap) return;
        uint64_t a = next, b = std::min(cases, next + CHUNK);
        next = b;
        int fds[2];
        if (pipe(fds)) exit(3);
        ws[w].errf = g_scratch + "/werr." + std::to_string(w);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(fds[0]);
            for (auto &o : ws)
                if (o.fd >= 0) close(o.fd);
            silence(ws[w].errf);
            struct rlimit rl {
                CASE_CPU_SECONDS, CASE_CPU_SECONDS + 5
            };
            setrlimit(RLIMIT_CPU, &rl);
            limit_memory();
            std::ostringstream os;
            for (uint64_t i = a; i < b; i++) {
                sh->cur[w] = i;
                Case c;
                c.thorough = thorough;
                c.src.random = true;
                c.src.s = mix(pseed, i);
                Outcome o = run_case(p, c);
                if (o.kind == FAIL) {
                    os << "F " << i << "\n";
                    break;
                }
                if (o.kind == DISCARD) {
                    os << "D " << esc(o.tag) << "\n";
                    continue;
                }
                std::string f = c.fingerprint;
                if (f.empty())
                    for (auto v : c.src.out) f += std::to_string(v) + ",";
                os << "P " << (c.nontrivial ? 1 : 0) << " " << fnv(f) << " " << c.labels.size()
                   << "\n";
                for (auto &l : c.labels) os << l << "\n";
                if (i % 500 == 3 && c.nontrivial) os << "S " << esc(c.sample.substr(0, 1500)) << "\n";
            }
            os << "E\n";
            write_all(fds[1], os.str());
            _exit(0);
        }
        close(fds[1]);
        ws[w].pid = pid;
        ws[w].fd = fds[0];
        ws[w].buf.clear();
    };
    auto record_fail = [&](uint64_t i, const std::string &err) {
        if (!have_fail || i < fail_idx) {
            fail_idx = i;
            fail_err = err;
        }
        have_fail = true;
    };
    auto finish = [&](int w) {
        close(ws[w].fd);
        ws[w].fd = -1;
        int st = 0;
        waitpid(ws[w].pid, &st, 0);
        std::istringstream is(ws[w].buf);
        std::string line;
        bool ended = false;
        while (std::getline(is, line)) {
            if (line == "E") {
                ended = true;
            } else if (line[0] == 'F') {
                record_fail(std::stoull(line.substr(2)), "");
            } else if (line[0] == 'D') {
                tot.discards++;
                tot.labels["discard:" + line.substr(2)]++;
            } else if (line[0] == 'S') {
                if (tot.samples.size() < 5) tot.samples.push_back(line.substr(2));
            } else if (line[0] == 'P') {
                std::istringstream l(line.substr(2));
                int nt;
                uint64_t h, n;
                l >> nt >> h >> n;
                tot.evals++;
                if (nt) {
                    tot.nontrivial++;
                    tot.distinct.insert(h);
                }
                for (uint64_t k = 0; k < n; k++) {
                    std::getline(is, line);
                    tot.labels[line]++;
                }
            }
        }
        if (!ended) {
            record_fail(sh->cur[w], brief(ws[w].errf));
        }
        unlink(ws[w].errf.c_str());
        ws[w].pid = 0;
    };
    int rc = 0, unrepro = 0;
    std::string viol = "[]";
    for (;;) {  // again after a failure that could not be reproduced
    for (int w = 0; w < workers; w++) start(w);
    for (;;) {
        std::vector<pollfd> pf;
        std::vector<int> idx;
        for (int w = 0; w < workers; w++)
            if (ws[w].fd >= 0) {
                pf.push_back({ws[w].fd, POLLIN, 0});
                idx.push_back(w);
            }
        if (pf.empty()) break;
        poll(pf.data(), pf.size(), 1000);
        for (size_t k = 0; k < pf.size(); k++) {
            if (!(pf[k].revents & (POLLIN | POLLHUP | POLLERR))) continue;
            char buf[65536];
            ssize_t n = read(pf[k].fd, buf, sizeof buf);
            if (n > 0)
                ws[idx[k]].buf.append(buf, n);
            else if (n == 0) {
                finish(idx[k]);
                start(idx[k]);
            }
        }
    }
    if (!have_fail) break;
    {
        Attempt a = attempt(p, {}, mix(pseed, fail_idx), true, thorough);
        for (int r = 0; r < 4 && a.o.kind != FAIL; r++)
            a = attempt(p, {}, mix(pseed, fail_idx), true, thorough);
        if (a.o.kind != FAIL) {
            // it failed only inside a batch: run the batch prefix again the same way
            fprintf(stderr, "case %llu of %s failed in its batch but not alone\n%s\n",
                    (unsigned long long)fail_idx, p.id.c_str(), fail_err.c_str());
            // depends on the state of the process (heap layout); count it only if it repeats
            int again = 0;
            for (int r = 0; r < 6; r++) {
                pid_t pid = fork();
                if (pid == 0) {
                    silence("");
                    for (uint64_t i = fail_idx / CHUNK * CHUNK; i <= fail_idx; i++) {
                        Case c;
                        c.thorough = thorough;
                        c.src.random = true;
                        c.src.s = mix(pseed, i);
                        Outcome o = run_case(p, c);
                        if (o.kind == FAIL) _exit(1);
                    }
                    _exit(0);
                }
                int st;
                waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) again++;
            }
            if (again >= 1 || p.trust_crash) {
                std::string path = g_verif + "/replays/" + p.id + ".txt";
                mkdir((g_verif + "/replays").c_str(), 0755);
                std::ofstream out(path);
                out << "property " << p.id << "\nbatch " << pseed << " "
                    << fail_idx / CHUNK * CHUNK << " " << fail_idx << "\nthorough " << thorough << "\n";
                std::istringstream es(fail_err);
                for (std::string l; std::getline(es, l);) out << "# " << l << "\n";
                out.close();
                if (p.trust_crash) printf("%s\n", fail_err.c_str());
                printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
                rc = 1;
                viol = "[{\"tag\": \"history-dependent\", \"replay\": \"" + path + "\"}]";
            } else {
                printf("note: %s case %llu was not reproducible (%d/6), ignored\n", p.id.c_str(),
                       (unsigned long long)fail_idx, again);
            }
        } else {
            Attempt first = a;
            Attempt best = shrink(p, a, 0, thorough);
            int same = 0;
            Attempt last;
            for (int r = 0; r < 3; r++) {
                last = attempt(p, best.choices, 0, false, thorough);
                if (last.o.kind == FAIL && last.o.tag == best.o.tag) same++;
            }
            if (same != 3) {
                best = first;
                same = 0;
                for (int r = 0; r < 3; r++) {
                    last = attempt(p, best.choices, 0, false, thorough);
                    if (last.o.kind == FAIL) same++;
                }
            }
            if (same == 0) {
                // intermittent: the failure depends on more than the choices
                for (int r = 0; r < 12 && !same; r++) {
                    last = attempt(p, best.choices, 0, false, thorough);
                    if (last.o.kind == FAIL) same++;
                }
            }
            if (same >= 1 || (p.trust_crash && first.o.tag == "crash")) {
                if (last.o.kind != FAIL) last = first;
                std::string path = g_verif + "/replays/" + p.id + ".txt";
                mkdir((g_verif + "/replays").c_str(), 0755);
                std::ofstream out(path);
                out << "property " << p.id << "\nthorough " << thorough << "\nchoices";
                for (auto v : best.choices) out << " " << v;
                out << "\n# tag: " << last.o.tag << "\n# " ;
                std::string m = last.o.msg + "\n" + last.sample;
                for (char ch : m) {
                    out << ch;
                    if (ch == '\n') out << "# ";
                }
                out << "\n";
                out.close();
                printf("%s: %s\n%s\n%s\n", p.id.c_str(), last.o.tag.c_str(), last.o.msg.c_str(),
                       last.sample.c_str());
                printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
                rc = 1;
                viol = "[{\"tag\": \"" + esc(last.o.tag) + "\", \"message\": \"" +
                       esc(last.o.msg.substr(0, 500)) + "\", \"replay\": \"" + path + "\"}]";
            } else
                printf("note: %s case %llu failed once (%s) but not on replay, ignored\n%s\n",
                       p.id.c_str(), (unsigned long long)fail_idx, first.o.tag.c_str(),
                       first.o.msg.c_str());
        }
    }
    if (rc || ++unrepro > 5) break;
    have_fail = false;
    next = std::max(next, fail_idx + 1);
    }
    // known findings
    for (auto &f : p.findings) {
        if (!known(f.id)) continue;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            silence("");
            bool r = true;
            try {
                r = f.still_fails();
            } catch (...) {
            }
            _exit(r ? 7 : 0);
        }
        int st;
        waitpid(pid, &st, 0);
        bool still = !WIFEXITED(st) || WEXITSTATUS(st) != 0;
        if (still)
            printf("KNOWN-FINDING: property=%s %s %s\n", p.id.c_str(), f.id.c_str(), f.what.c_str());
        else
            printf("note: listed finding %s of %s no longer fails\n", f.id.c_str(), p.id.c_str());
    }
    double wall = now() - t0;
    mkdir((g_verif + "/evidence").c_str(), 0755);
    std::ofstream ev(g_verif + "/evidence/" + p.id + ".json");
    ev << "{\n  \"property\": \"" << p.id << "\",\n  \"tier\": \"" << tier << "\",\n  \"seed\": "
       << seed << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n    \"evaluations\": "
       << tot.evals << ",\n    \"discarded\": " << tot.discards << ",\n    \"nontrivial\": "
       << tot.nontrivial << ",\n    \"distinct_nontrivial\": " << tot.distinct.size()
       << ",\n    \"rule\": \"" << esc(p.rule) << "\",\n    \"classes\": {";
    bool first = true;
    for (auto &[l, n] : tot.labels) {
        ev << (first ? "\n" : ",\n") << "      \"" << esc(l) << "\": " << n;
        first = false;
    }
    ev << "\n    },\n    \"samples\": [";
    for (size_t i = 0; i < tot.samples.size(); i++)
        ev << (i ? ",\n      " : "\n      ") << "\"" << tot.samples[i] << "\"";
    ev << "\n    ]\n  },\n  \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); i++)
        ev << (i ? ", " : "") << "\"" << esc(p.assumptions[i]) << "\"";
    ev << "],\n  \"wall_s\": " << wall << ",\n  \"violations\": " << viol << "\n}\n";
    ev.close();
    printf("%s tier=%s seed=%llu cases=%llu nontrivial=%llu distinct=%zu discarded=%llu wall=%.1fs\n",
           p.id.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)tot.evals,
           (unsigned long long)tot.nontrivial, tot.distinct.size(),
           (unsigned long long)tot.discards, wall);
    return rc;
}

}  // namespace pbt

int main(int argc, char **argv) {
    using namespace pbt;
    std::string id, tier = "quick", replay;
    uint64_t seed = 1, cases = 0;
    int print = 0, workers = 8;
    bool labels = false;
    if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--tier")
            tier = val();
        else if (a == "--seed")
            seed = std::stoull(val());
        else if (a == "--cases")
            cases = std::stoull(val());
        else if (a == "--replay")
            replay = val();
        else if (a == "--print")
            print = std::stoi(val());
        else if (a == "--verif")
            g_verif = val();
        else if (a == "--workers")
            workers = std::stoi(val());
        else if (a == "--labels")
            labels = true;
        else
            id = a;
    }
    char tmpl[] = "/tmp/kverif.XXXXXX";
    g_scratch = mkdtemp(tmpl);
    load_known();
    int rc = 2;
    const Property *p = nullptr;
    std::vector<uint64_t> choices;
    uint64_t bseed = 0, bfrom = 0, bto = 0;
    bool batch = false, rthorough = false;
    if (!replay.empty()) {
        std::ifstream in(replay);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "property") is >> id;
            if (k == "thorough") is >> rthorough;
            if (k == "choices") {
                uint64_t v;
                while (is >> v) choices.push_back(v);
            }
            if (k == "batch") {
                batch = true;
                is >> bseed >> bfrom >> bto;
            }
        }
    }
    for (auto &q : props())
        if (q.id == id) p = &q;
    if (!p) {
        fprintf(stderr, "no such property: %s\n", id.c_str());
    } else if (!replay.empty()) {
        if (batch) {
            rc = 0;
            for (uint64_t i = bfrom; i <= bto; i++) {
                Case c;
                c.thorough = rthorough;
                c.src.random = true;
                c.src.s = mix(bseed, i);
                Outcome o = run_case(*p, c);
                if (o.kind == FAIL) {
                    printf("%s\n%s\n", o.tag.c_str(), o.msg.c_str());
                    rc = 1;
                    break;
                }
            }
        } else {
            Attempt a = attempt(*p, choices, 0, false, rthorough);
            rc = a.o.kind == FAIL ? 1 : 0;
            printf("%s\n", a.sample.c_str());
            if (rc) printf("%s\n%s\n", a.o.tag.c_str(), a.o.msg.c_str());
        }
        if (rc) printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
    } else if (print) {
        for (int i = 0; i < print; i++) {
            Attempt a = attempt(*p, {}, mix(mix(seed, fnv(p->id)), i), true, tier == "thorough");
            printf("=== case %d: %s %s\n%s\n%s\n", i,
                   a.o.kind == FAIL ? "FAIL" : a.o.kind == DISCARD ? "discard" : "pass",
                   a.o.tag.c_str(), a.o.msg.c_str(), a.sample.c_str());
        }
        rc = 0;
    } else {
        bool th = tier == "thorough";
        if (!cases) cases = th ? p->thorough_cases : p->quick_cases;
        rc = run_property(*p, tier, seed, cases, th ? 650 : 450, workers);
    }
    (void)labels;
    std::string rm = "rm -rf '" + g_scratch + "'";
    if (g_scratch.rfind("/tmp/kverif.", 0) == 0 && system(rm.c_str())) {
    }
    return rc;
}
