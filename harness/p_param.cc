// P19 parameters: widths, array sizes and values that follow a parameter, for every value it is given
#include <functional>

#include "context.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
// c + sum of k[i] * parameter i
struct L {
    int64_t c = 0;
    std::vector<int64_t> k;
    int64_t at(const std::vector<int64_t> &env) const {
        int64_t r = c;
        for (size_t i = 0; i < k.size(); i++) r += k[i] * env[i];
        return r;
    }
    int64_t min() const {
        int64_t r = c;
        for (auto x : k) r += x;
        return r;
    }
    bool constant() const {
        for (auto x : k)
            if (x) return false;
        return true;
    }
    bool operator==(const L &o) const { return c == o.c && k == o.k; }
};
struct X;
using XP = std::shared_ptr<X>;
struct X {
    enum K { Var, Elem, Const, Param, Add, Xor, And, Not, Shr, Mux, Cat, Eq, Lt, Bit, Rdc } k = Const;
    L w;
    int v = 0;        // variable or parameter
    uint64_t n = 0;   // constant, bit
    std::vector<int> ix;  // of elements; -1-v: by a variable
    XP a, b, s;
};
struct Vr {
    std::string name;
    L w;
    std::vector<L> dims;
    enum K { In, Out, Wire, Reg, Inst } k;
    int inst = -1, port = -1;
};
struct Pm {
    std::string name;
    int64_t init = 0;  // 0: none
    bool size = false; // used for widths and sizes
};
struct St {  // v = x, or if (c) v = x else v = y; registers start at 0
    int v;
    int from = -1;  // a whole array
    XP x, c, y;
    int how = 0;  // 0 continuous, 1 block, 2 clocked
};
struct Bind {
    int up = -1;  // parameter of the parent
    int64_t v = 1;
};
struct Sub {
    int mod;
    std::vector<Bind> bind;
    std::vector<St> in;
};
struct Mod {
    std::string name;
    std::vector<Pm> p;
    std::vector<Vr> v;
    std::vector<int> order;  // statements, ~instances
    std::vector<St> st;
    std::vector<Sub> sub;
};
struct D {
    std::vector<Mod> m;
    std::vector<int64_t> top;  // values of the top
    uint32_t kw = 32;
    bool packed = true, flow = true, late = false, dbg = false;
    int spell = 0;
};
uint64_t mask(int64_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

std::string show(const Mod &m, const L &l) {
    std::string r;
    for (size_t i = 0; i < l.k.size(); i++)
        if (l.k[i]) r += (r.empty() ? "" : "+") + (l.k[i] > 1 ? std::to_string(l.k[i]) + "*" : "") + m.p[i].name;
    if (l.c || r.empty()) r += (r.empty() ? "" : "+") + std::to_string(l.c);
    return r;
}
std::string vn(const Mod &m, int v) { return m.v[v].k == Vr::Inst ? "u" + std::to_string(m.v[v].inst) + "." + m.v[v].name : m.v[v].name; }
std::string show(const Mod &m, const X &x) {
    auto a = [&]() { return show(m, *x.a); };
    auto b = [&]() { return show(m, *x.b); };
    switch (x.k) {
        case X::Var: return vn(m, x.v);
        case X::Elem: {
            auto r = vn(m, x.v);
            for (int i : x.ix) r += "[" + (i < 0 ? vn(m, -1 - i) : std::to_string(i)) + "]";
            return r;
        }
        case X::Const: return show(m, x.w) + "'d" + std::to_string(x.n);
        case X::Param: return m.p[x.v].name;
        case X::Add: return "(" + a() + "+" + b() + ")";
        case X::Xor: return "(" + a() + "^" + b() + ")";
        case X::And: return "(" + a() + "&" + b() + ")";
        case X::Not: return "~" + a();
        case X::Shr: return "(" + a() + ">>" + b() + ")";
        case X::Mux: return "(" + show(m, *x.s) + "?" + a() + ":" + b() + ")";
        case X::Cat: return "{" + a() + "," + b() + "}";
        case X::Eq: return "(" + a() + "==" + b() + ")";
        case X::Lt: return "(" + a() + "<" + b() + ")";
        case X::Bit: return vn(m, x.v) + "[" + std::to_string(x.n) + "]";
        case X::Rdc: return "|" + vn(m, x.v);
    }
    return "";
}
std::string show(const Mod &m, const St &s) {
    if (s.from >= 0) return vn(m, s.v) + " = " + vn(m, s.from);
    return vn(m, s.v) + " = " + (s.c ? show(m, *s.c) + " then " + show(m, *s.x) + " else " + show(m, *s.y) : show(m, *s.x));
}
std::string show(const D &d) {
    std::string o = std::string(d.flow ? "" : "plain flow, ") + (d.packed ? "" : "unpacked, ") + (d.late ? "values set late, " : "") + std::to_string(d.kw) + " bits, top";
    for (size_t i = 0; i < d.top.size(); i++) o += " " + d.m[0].p[i].name + "=" + std::to_string(d.top[i]);
    o += "\n";
    for (auto const &m : d.m) {
        o += "module " + m.name;
        for (auto const &p : m.p) o += " " + p.name + (p.init ? "=" + std::to_string(p.init) : "");
        o += "\n";
        for (auto const &v : m.v) {
            if (v.k == Vr::Inst) continue;
            static const char *kn[] = {"input", "output", "wire", "reg"};
            o += std::string("  ") + kn[v.k] + " " + v.name + " [" + show(m, v.w) + "]";
            for (auto const &q : v.dims) o += " x " + show(m, q);
            o += "\n";
        }
        for (int q : m.order) {
            if (q >= 0) {
                static const char *hn[] = {"  assign ", "  comb ", "  ff "};
                o += hn[m.st[q].how] + show(m, m.st[q]) + "\n";
            } else {
                auto const &s = m.sub[~q];
                o += "  u" + std::to_string(~q) + " = " + d.m[s.mod].name;
                for (size_t i = 0; i < s.bind.size(); i++) o += " ." + d.m[s.mod].p[i].name + "(" + (s.bind[i].up >= 0 ? m.p[s.bind[i].up].name : std::to_string(s.bind[i].v)) + ")";
                o += "\n";
                for (auto const &i : s.in) o += "    " + show(m, i) + "\n";
            }
        }
    }
    return o;
}

struct G {
    pbt::Case &c;
    pbt::Src &s;
    D d;
    Mod *m = nullptr;
    std::vector<int> rd;
    explicit G(pbt::Case &c) : c(c), s(c.src) {}
    L num(int64_t n) {
        L l;
        l.c = n;
        l.k.assign(m->p.size(), 0);
        return l;
    }
    L lin(int64_t maxc) {
        L l = num(0);
        std::vector<int> ok;
        for (size_t i = 0; i < m->p.size(); i++)
            if (m->p[i].size) ok.push_back(i);
        if (ok.empty() || s.chance(1, 4)) return num(1 + s.draw(maxc));
        l.k[s.pick(ok)] = s.chance(1, 4) ? 2 : 1;
        if (s.chance(1, 3)) l.c = 1 + s.draw(2);
        if (s.chance(1, 6)) l.k[s.pick(ok)] += 1;
        return l;
    }
    L subst(const L &l, const Sub &u) {
        L r = num(l.c);
        for (size_t i = 0; i < l.k.size(); i++) {
            if (!l.k[i]) continue;
            if (u.bind[i].up >= 0) r.k[u.bind[i].up] += l.k[i];
            else r.c += l.k[i] * u.bind[i].v;
        }
        return r;
    }
    // scalars and elements with this width
    XP leaf(const L &w) {
        std::vector<XP> ok;
        for (int v : rd) {
            auto const &q = m->v[v];
            if (!(q.w == w)) continue;
            if (d.late && !q.dims.empty()) continue;
            auto x = std::make_shared<X>();
            x->w = w, x->v = v;
            if (q.dims.empty()) {
                x->k = X::Var;
            } else {
                x->k = X::Elem;
                for (auto const &dm : q.dims) {
                    int iv = -1;
                    if (x->ix.empty() && dm.min() >= 2 && s.flip())
                        for (int z : rd)
                            if (m->v[z].dims.empty() && m->v[z].w == num(1)) iv = z;
                    x->ix.push_back(iv >= 0 ? -1 - iv : (int)s.draw(std::min<int64_t>(dm.min(), 3)));
                }
            }
            ok.push_back(x);
        }
        if (w.constant() && w.c == d.kw)
            for (size_t i = 0; i < m->p.size(); i++) {
                auto x = std::make_shared<X>();
                x->k = X::Param, x->w = w, x->v = i;
                ok.push_back(x);
            }
        if (w.constant() && (ok.empty() || s.chance(1, 5))) {
            auto x = std::make_shared<X>();
            x->w = w, x->n = s.bits(w.c);
            return x;
        }
        return ok.empty() ? nullptr : s.pick(ok);
    }
    XP bit(int depth = 2) {
        auto x = std::make_shared<X>();
        x->w = num(1);
        std::vector<int> sc;
        for (int v : rd)
            if (m->v[v].dims.empty()) sc.push_back(v);
        switch (s.draw(5)) {
            case 0: {
                auto r = leaf(num(1));
                if (r) return r;
            }
            [[fallthrough]];
            case 1:
                if (!sc.empty()) {
                    x->v = s.pick(sc);
                    if (s.flip() && !(m->v[x->v].w == num(1))) {
                        x->k = X::Bit;
                        x->n = s.draw(m->v[x->v].w.min());
                    } else {
                        x->k = X::Rdc;
                    }
                    return x;
                }
                break;
            case 2:
                if (!m->p.empty()) {
                    x->k = s.flip() ? X::Lt : X::Eq;
                    x->a = leaf(num(d.kw));
                    x->b = std::make_shared<X>();
                    x->b->w = num(d.kw), x->b->n = 1 + s.draw(5);
                    if (s.flip()) std::swap(x->a, x->b);
                    return x;
                }
                break;
            default:
                if (!sc.empty()) {
                    auto w = m->v[s.pick(sc)].w;
                    x->k = s.flip() ? X::Lt : X::Eq;
                    x->a = val(w, depth - 1), x->b = val(w, depth - 1);
                    return x;
                }
        }
        return leaf(num(1));
    }
    XP val(const L &w, int depth = 2) {
        auto lf = leaf(w);
        // the widths of expressions are those at the time they are made
        if (depth <= 0 || (d.late && !w.constant()) || !s.flip()) return lf;
        auto x = std::make_shared<X>();
        x->w = w;
        switch (s.draw(7)) {
            case 0: x->k = X::Add; break;
            case 1: x->k = X::Xor; break;
            case 2: x->k = X::And; break;
            case 3: x->k = X::Not; break;
            case 4: x->k = X::Shr; break;
            case 5:
                x->k = X::Mux;
                x->s = bit(depth - 1);
                break;
            default: {
                // two others that add up
                x->k = X::Cat;
                for (int v : rd) {
                    L r = w;
                    r.c -= m->v[v].w.c;
                    bool good = true;
                    for (size_t i = 0; i < r.k.size(); i++) {
                        r.k[i] -= m->v[v].w.k[i];
                        if (r.k[i] < 0) good = false;
                    }
                    if (r.c < 0 || (r.c == 0 && r.constant())) good = false;
                    if (!good) continue;
                    auto a = leaf(m->v[v].w), b = leaf(r);
                    if (!a || !b) continue;
                    x->a = a, x->b = b;
                    return x;
                }
                return lf;
            }
        }
        if (!lf) return lf;
        x->a = lf;
        if (x->k != X::Not) x->b = val(w, depth - 1);
        return x;
    }
    int add(const std::string &n, const L &w, Vr::K kk, std::vector<L> dims = {}) {
        Vr v;
        v.name = n, v.w = w, v.k = kk, v.dims = std::move(dims);
        m->v.push_back(v);
        return (int)m->v.size() - 1;
    }
    // something to assign to v, if there is
    bool source(int v, St &st) {
        st.v = v;
        auto const &q = m->v[v];
        if (!q.dims.empty()) {
            std::vector<int> ok;
            for (int r : rd)
                if (m->v[r].w == q.w && m->v[r].dims == q.dims && r != v) ok.push_back(r);
            if (ok.empty()) return false;
            st.from = s.pick(ok);
            return true;
        }
        st.x = val(q.w);
        if (!st.x) return false;
        if (st.how && s.flip()) {
            st.c = bit();
            st.y = val(q.w);
            if (!st.y) st.y = st.x;
        }
        return true;
    }
    Mod module(int index, int level) {
        Mod mm;
        mm.name = index ? "child" + std::to_string(index) : "top";
        auto *keep = m;
        auto krd = rd;
        m = &mm;
        rd.clear();
        int np = s.draw(4);
        if (!index && !np) np = 1;
        for (int i = 0; i < np; i++) {
            Pm p;
            p.name = std::string(1, "PQRST"[i]);
            p.size = s.chance(3, 4);
            if (s.flip()) p.init = p.size ? 1 + s.draw(4) : 1 + s.draw(200);
            mm.p.push_back(p);
        }
        int ni = 2 + s.draw(3);
        std::vector<L> cls;
        for (int i = 0; i < ni; i++) {
            std::vector<L> dims;
            if (s.chance(1, 4))
                for (int z = 1 + s.draw(2); z > 0; z--) dims.push_back(lin(3));
            rd.push_back(add("i" + std::to_string(i), s.chance(1, 8) ? num(d.kw) : lin(5), Vr::In, dims));
        }
        std::vector<int> todo;  // statement targets
        std::vector<int> kids;
        if (level < 2)
            for (int n = s.draw(level == 0 ? 4 : 2); n > 0; n--) kids.push_back(child(level));
        int nw = s.draw(3), no = 1 + s.draw(3), nr = s.draw(3);
        auto like = [&](const std::string &n, Vr::K kk) {
            auto const &v = mm.v[s.pick(rd)];
            auto w = v.w;
            auto dims = v.dims;
            if (dims.empty() && s.chance(1, 4)) w = lin(5);
            if (kk == Vr::Reg) dims.clear();
            return add(n, w, kk, dims);
        };
        // registers can be read from the start
        std::vector<int> regs;
        for (int i = 0; i < nr; i++) {
            int v = like("r" + std::to_string(i), Vr::Reg);
            regs.push_back(v);
        }
        for (int v : regs) {
            // written from what is there before it, so that they can be read by all that follows
            St st;
            st.how = 2;
            if (!source(v, st)) {
                mm.v[v].w = num(2), mm.v[v].dims.clear();
                source(v, st);
            }
            mm.order.push_back(mm.st.size());
            mm.st.push_back(st);
        }
        for (int v : regs) rd.push_back(v);
        while (nw || !kids.empty()) {
            if (!kids.empty() && (nw == 0 || s.flip())) {
                Sub u;
                u.mod = kids.back();
                kids.pop_back();
                auto const &cm = d.m[u.mod];
                for (auto const &p : cm.p) {
                    Bind b;
                    std::vector<int> ok;
                    for (size_t i = 0; i < mm.p.size(); i++)
                        if (mm.p[i].size || !p.size) ok.push_back(i);
                    if (!ok.empty() && s.chance(2, 3)) b.up = s.pick(ok);
                    else b.v = p.size ? 1 + s.draw(4) : 1 + s.draw(200);
                    u.bind.push_back(b);
                }
                std::vector<int> outs;
                bool good = true;
                size_t at = mm.v.size();
                for (size_t q = 0; q < cm.v.size() && good; q++) {
                    auto v = cm.v[q];
                    if (v.k != Vr::Out && v.k != Vr::In) continue;
                    bool in = v.k == Vr::In;
                    v.k = Vr::Inst, v.inst = mm.sub.size(), v.port = q;
                    v.w = subst(v.w, u);
                    for (auto &z : v.dims) z = subst(z, u);
                    mm.v.push_back(v);
                    int id = mm.v.size() - 1;
                    if (!in) {
                        outs.push_back(id);
                        continue;
                    }
                    St st;
                    if (!source(id, st)) {
                        // a new input
                        int z = add("x" + std::to_string(mm.v.size()), v.w, Vr::In, v.dims);
                        rd.push_back(z);
                        if (!source(id, st)) good = false;
                    }
                    u.in.push_back(st);
                }
                (void)at;
                if (!good) c.fail("generator", "no source");
                mm.order.push_back(~(int)mm.sub.size());
                mm.sub.push_back(u);
                for (int z : outs) rd.push_back(z);
            } else {
                nw--;
                int v = like("w" + std::to_string(nw), Vr::Wire);
                St st;
                st.how = s.draw(2);
                if (!source(v, st)) {
                    mm.v[v].w = num(1), mm.v[v].dims.clear();
                    source(v, st);
                }
                mm.order.push_back(mm.st.size());
                mm.st.push_back(st);
                rd.push_back(v);
            }
        }
        for (int i = 0; i < no; i++) {
            int v = like("o" + std::to_string(i), Vr::Out);
            St st;
            st.how = mm.v[v].dims.empty() && s.chance(1, 4) ? 2 : s.draw(2);
            if (!source(v, st)) {
                mm.v[v].w = num(1), mm.v[v].dims.clear();
                source(v, st);
            }
            mm.order.push_back(mm.st.size());
            mm.st.push_back(st);
        }
        m = keep;
        rd = krd;
        return mm;
    }
    int child(int level) {
        if (d.m.size() > 1 && s.chance(1, 3)) {
            std::vector<int> ok;
            for (size_t i = 1; i < d.m.size(); i++)
                if (!d.m[i].name.empty() && (level == 0 || d.m[i].sub.empty())) ok.push_back(i);
            if (!ok.empty()) return s.pick(ok);
        }
        int n = d.m.size();
        d.m.emplace_back();
        auto mm = module(n, level + 1);
        d.m[n] = mm;
        return n;
    }
    void make() {
        d.kw = s.chance(1, 3) ? 8 : 32;
        d.packed = !s.chance(1, 3);
        d.flow = !s.chance(1, 4);
        d.dbg = s.chance(1, 6);
        d.late = s.chance(1, 4);
        d.spell = s.draw(4);
        d.m.emplace_back();
        auto t = module(0, 0);
        d.m[0] = t;
        for (auto const &p : d.m[0].p) d.top.push_back(p.size ? 1 + s.draw(4) : 1 + s.draw(200));
    }
};

// ---- reference ------------------------------------------------------------------------------
struct I {
    const Mod *m;
    std::vector<int64_t> env;
    std::vector<std::vector<uint64_t>> v;
    std::vector<std::unique_ptr<I>> sub;
};
struct Ref {
    const D &d;
    std::unique_ptr<I> top;
    Ref(const D &d, const std::vector<int64_t> &env) : d(d) { top = make(0, env); }
    std::unique_ptr<I> make(int mod, const std::vector<int64_t> &env) {
        auto r = std::make_unique<I>();
        r->m = &d.m[mod];
        r->env = env;
        for (auto const &v : r->m->v) {
            size_t n = 1;
            for (auto const &q : v.dims) n *= q.at(env);
            r->v.emplace_back(n, 0);
        }
        for (auto const &s : r->m->sub) {
            std::vector<int64_t> e;
            for (auto const &b : s.bind) e.push_back(b.up >= 0 ? env[b.up] : b.v);
            r->sub.push_back(make(s.mod, e));
        }
        return r;
    }
    uint64_t ev(I &i, const X &x) {
        auto mk = mask(x.w.at(i.env));
        switch (x.k) {
            case X::Var: return i.v[x.v][0];
            case X::Elem: {
                size_t n = 0;
                for (size_t q = 0; q < x.ix.size(); q++) n = n * i.m->v[x.v].dims[q].at(i.env) + (x.ix[q] < 0 ? i.v[-1 - x.ix[q]][0] : x.ix[q]);
                return i.v[x.v][n];
            }
            case X::Const: return x.n;
            case X::Param: return i.env[x.v];
            case X::Add: return (ev(i, *x.a) + ev(i, *x.b)) & mk;
            case X::Xor: return ev(i, *x.a) ^ ev(i, *x.b);
            case X::And: return ev(i, *x.a) & ev(i, *x.b);
            case X::Not: return ~ev(i, *x.a) & mk;
            case X::Shr: {
                auto a = ev(i, *x.a), b = ev(i, *x.b);
                return b >= 64 ? 0 : a >> b;
            }
            case X::Mux: return ev(i, *x.s) ? ev(i, *x.a) : ev(i, *x.b);
            case X::Cat: {
                auto a = ev(i, *x.a), b = ev(i, *x.b);
                return a << x.b->w.at(i.env) | b;
            }
            case X::Eq: return ev(i, *x.a) == ev(i, *x.b);
            case X::Lt: return ev(i, *x.a) < ev(i, *x.b);
            case X::Bit: return i.v[x.v][0] >> x.n & 1;
            case X::Rdc: return i.v[x.v][0] != 0;
        }
        return 0;
    }
    std::vector<uint64_t> rhs(I &i, const St &s) {
        if (s.from >= 0) return i.v[s.from];
        if (s.c && !ev(i, *s.c)) return {ev(i, *s.y)};
        return {ev(i, *s.x)};
    }
    void settle(I &i) {
        for (int q : i.m->order) {
            if (q >= 0) {
                auto const &s = i.m->st[q];
                if (s.how != 2) i.v[s.v] = rhs(i, s);
                continue;
            }
            auto const &s = i.m->sub[~q];
            auto &c = *i.sub[~q];
            for (auto const &st : s.in) c.v[i.m->v[st.v].port] = rhs(i, st);
            settle(c);
            for (size_t z = 0; z < i.m->v.size(); z++) {
                auto const &v = i.m->v[z];
                if (v.k == Vr::Inst && v.inst == ~q && c.m->v[v.port].k == Vr::Out) i.v[z] = c.v[v.port];
            }
        }
    }
    using Next = std::vector<std::tuple<I *, int, std::vector<uint64_t>>>;
    void edge(I &i, Next &n, bool rst) {
        for (auto const &s : i.m->st)
            if (s.how == 2) n.emplace_back(&i, s.v, rst ? std::vector<uint64_t>(i.v[s.v].size(), 0) : rhs(i, s));
        for (auto &c : i.sub) edge(*c, n, rst);
    }
    void clock(bool rst) {
        Next n;
        edge(*top, n, rst);
        for (auto &[i, v, x] : n) i->v[v] = x;
        settle(*top);
    }
};

// ---- building -------------------------------------------------------------------------------
struct M {
    k::Generator *g;
    std::vector<k::Var *> v;
    std::vector<k::Param *> p;
    k::Var *clk, *rst;
    std::vector<std::shared_ptr<k::Var>> keep;
    std::vector<std::unique_ptr<M>> sub;
};
struct B {
    const D &d;
    std::shared_ptr<k::Context> ctx = std::make_shared<k::Context>();
    std::unique_ptr<M> top;
    int n_ = 0;
    explicit B(const D &d) : d(d) {
        top = make(0, d.top);
        if (d.late)
            for (size_t i = 0; i < d.top.size(); i++) top->p[i]->set_value(d.top[i]);
    }
    k::Var *width(M &m, const L &l) {
        k::Var *r = nullptr;
        auto plus = [&](k::Var *x) { r = r ? &(*r + *x) : x; };
        if (l.c && d.spell == 1) plus(&k::constant(l.c, d.kw));
        for (size_t i = 0; i < l.k.size(); i++) {
            if (!l.k[i]) continue;
            if (l.k[i] == 1) plus(m.p[i]);
            else if (d.spell == 2) plus(&(k::constant(l.k[i], d.kw) * *m.p[i]));
            else plus(&(*m.p[i] * k::constant(l.k[i], d.kw)));
        }
        if (l.c && d.spell != 1) plus(&k::constant(l.c, d.kw));
        return r;
    }
    k::Var &x(M &m, const Mod &mm, const X &e) {
        switch (e.k) {
            case X::Var: return *m.v[e.v];
            case X::Elem: {
                k::Var *r = m.v[e.v];
                for (int i : e.ix) r = i < 0 ? &(*r)[m.v[-1 - i]->shared_from_this()] : &(*r)[(uint32_t)i];
                return *r;
            }
            case X::Const: return k::constant((int64_t)e.n, e.w.c);
            case X::Param: return *m.p[e.v];
            case X::Add: return x(m, mm, *e.a) + x(m, mm, *e.b);
            case X::Xor: return x(m, mm, *e.a) ^ x(m, mm, *e.b);
            case X::And: return x(m, mm, *e.a) & x(m, mm, *e.b);
            case X::Not: return ~x(m, mm, *e.a);
            case X::Shr: return x(m, mm, *e.a) >> x(m, mm, *e.b);
            case X::Mux: {
                auto r = k::util::mux(x(m, mm, *e.s), x(m, mm, *e.a), x(m, mm, *e.b));
                m.keep.push_back(r);
                return *r;
            }
            case X::Cat: return x(m, mm, *e.a).concat(x(m, mm, *e.b));
            case X::Eq: return x(m, mm, *e.a).eq(x(m, mm, *e.b));
            case X::Lt: return x(m, mm, *e.a) < x(m, mm, *e.b);
            case X::Bit: return (*m.v[e.v])[(uint32_t)e.n];
            case X::Rdc: return m.v[e.v]->r_or();
        }
        throw std::runtime_error("x");
    }
    std::unique_ptr<M> make(int mod, const std::vector<int64_t> &env) {
        auto r = std::make_unique<M>();
        auto const &m = d.m[mod];
        auto &g = ctx->generator(d.flow || !mod ? m.name : m.name + "_" + std::to_string(n_++));
        g.debug = d.dbg;
        r->g = &g;
        for (size_t i = 0; i < m.p.size(); i++) {
            auto &p = g.parameter(m.p[i].name, d.kw);
            if (m.p[i].init) p.set_initial_value(m.p[i].init);
            // something else first
            p.set_value(d.late ? 1 : env[i]);
            r->p.push_back(&p);
        }
        r->clk = &g.port(k::PortDirection::In, "clk", 1, k::PortType::Clock);
        r->rst = &g.port(k::PortDirection::In, "rst", 1, k::PortType::AsyncReset);
        auto used = d.late ? std::vector<int64_t>(env.size(), 1) : env;
        for (size_t i = 0; i < m.sub.size(); i++) {
            std::vector<int64_t> e;
            for (auto const &b : m.sub[i].bind) e.push_back(b.up >= 0 ? env[b.up] : b.v);
            r->sub.push_back(make(m.sub[i].mod, e));
            auto &u = *r->sub.back();
            g.add_child_generator("u" + std::to_string(i), u.g->shared_from_this());
            for (size_t q = 0; q < m.sub[i].bind.size(); q++) {
                auto const &b = m.sub[i].bind[q];
                if (b.up >= 0) u.p[q]->set_value(r->p[b.up]->as<k::Param>());
                else if (d.late) u.p[q]->set_value(b.v);
            }
        }
        for (auto const &v : m.v) {
            if (v.k == Vr::Inst) {
                r->v.push_back(r->sub[v.inst]->v[v.port]);
                continue;
            }
            std::vector<uint32_t> dims;
            for (auto const &q : v.dims) dims.push_back(q.at(used));
            if (dims.empty()) dims.push_back(1);
            k::Var *kv;
            if (v.k == Vr::In || v.k == Vr::Out)
                kv = &g.port(v.k == Vr::In ? k::PortDirection::In : k::PortDirection::Out, v.name, v.w.at(used), dims, k::PortType::Data, false);
            else
                kv = &g.var(v.name, v.w.at(used), dims, false);
            if (!v.dims.empty()) kv->set_explicit_array(true), kv->set_is_packed(d.packed);
            if (!v.w.constant()) kv->set_width_param(width(*r, v.w));
            for (size_t q = 0; q < v.dims.size(); q++)
                if (!v.dims[q].constant()) kv->set_size_param(q, width(*r, v.dims[q]));
            r->v.push_back(kv);
        }
        auto as = [&](int v, const X *e, int from, bool nb) {
            return r->v[v]->assign(from >= 0 ? *r->v[from] : x(*r, m, *e), nb ? k::AssignmentType::NonBlocking : k::AssignmentType::Blocking);
        };
        for (size_t i = 0; i < m.sub.size(); i++) {
            auto &u = *r->sub[i];
            g.add_stmt(u.clk->assign(*r->clk, k::AssignmentType::Blocking));
            g.add_stmt(u.rst->assign(*r->rst, k::AssignmentType::Blocking));
            for (auto const &s : m.sub[i].in) g.add_stmt(as(s.v, s.x.get(), s.from, false));
        }
        for (auto const &s : m.st) {
            if (!s.how) {
                g.add_stmt(as(s.v, s.x.get(), s.from, false));
                continue;
            }
            std::shared_ptr<k::Stmt> body;
            if (s.c) {
                auto i = std::make_shared<k::IfStmt>(x(*r, m, *s.c));
                i->add_then_stmt(as(s.v, s.x.get(), s.from, s.how == 2));
                i->add_else_stmt(as(s.v, s.y.get(), s.from, s.how == 2));
                body = i;
            } else {
                body = as(s.v, s.x.get(), s.from, s.how == 2);
            }
            if (s.how == 1) {
                auto b = g.combinational();
                b->add_stmt(body);
            } else {
                auto b = g.sequential();
                b->add_condition({k::EventEdgeType::Posedge, r->clk->shared_from_this()});
                b->add_condition({k::EventEdgeType::Posedge, r->rst->shared_from_this()});
                auto i = std::make_shared<k::IfStmt>(*r->rst);
                i->add_then_stmt(clear(*r, m, s.v));
                i->add_else_stmt(body);
                b->add_stmt(i);
            }
        }
        return r;
    }
    std::shared_ptr<k::Stmt> clear(M &r, const Mod &m, int v) {
        (void)m;
        auto &t = *r.v[v];
        return t.assign(k::constant(0, t.width()), k::AssignmentType::NonBlocking);
    }
};

void p19(pbt::Case &c) {
    G g(c);
    g.make();
    auto const &d = g.d;
    c.sample = show(d);
    std::string text;
    Flow f;
    f.optimize_if = c.src.flip();
    f.optimize_fanout = c.src.flip();
    f.optimize_passthrough = c.src.flip();
    try {
        B b(d);
        text = join(d.flow ? default_flow(b.top->g, f) : plain_flow(b.top->g));
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    int follows = 0;
    auto const &tm = d.m[0];
    for (auto const &v : tm.v)
        if (!v.w.constant()) follows++;
    sv::Unit u;
    try {
        sv::parse(text, u);
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + c.sample + text);
    }
    for (int round = 0; round < 3; round++) {
        // as written, then with other values for the top
        std::vector<int64_t> env;
        sv::Options so;
        so.init_seed = c.src.draw(1000);
        std::string log = round ? "with" : "as emitted";
        for (size_t i = 0; i < tm.p.size(); i++) {
            if (!round) {
                env.push_back(tm.p[i].init ? tm.p[i].init : d.top[i]);
            } else {
                env.push_back(1 + c.src.draw(tm.p[i].size ? 5 : 200));
                so.params[tm.p[i].name] = BV(d.kw, env.back());
            }
            log += " " + tm.p[i].name + "=" + std::to_string(env.back());
        }
        try {
            sv::Design sd(u, "top", so);
            // the reset values are written with the width that was known
            for (auto const &l : sd.lint())
                if ((env == d.top && !d.late) || l.find("assignwidth") != 0) c.fail("text", l + " " + log + "\n" + c.sample + text);
            Ref ref(d, env);
            auto &t = *ref.top;
            auto set = [&](size_t z) {
                auto w = tm.v[z].w.at(env);
                BV all(w * t.v[z].size(), 0);
                for (size_t e = 0; e < t.v[z].size(); e++) {
                    t.v[z][e] = c.src.bits(std::min<int64_t>(w, 32)) & mask(w);
                    all.insert(e * w, BV(w, t.v[z][e]));
                }
                sd.poke(tm.v[z].name, all);
                log += " " + tm.v[z].name + "=" + all.str();
            };
            auto compare = [&]() {
                ref.settle(t);
                for (size_t z = 0; z < tm.v.size(); z++) {
                    if (tm.v[z].k != Vr::Out) continue;
                    auto w = tm.v[z].w.at(env);
                    BV all(w * t.v[z].size(), 0);
                    for (size_t e = 0; e < t.v[z].size(); e++) all.insert(e * w, BV(w, t.v[z][e]));
                    auto got = sd.get(tm.v[z].name);
                    if (!(got == all)) c.fail(round ? "override" : "behaviour", tm.v[z].name + " is " + got.str() + " instead of " + all.str() + " " + log + "\n" + c.sample + text);
                }
            };
            sd.poke("clk", BV(1, 0));
            sd.poke("rst", BV(1, 0));
            for (size_t z = 0; z < tm.v.size(); z++)
                if (tm.v[z].k == Vr::In) set(z);
            sd.settle();
            sd.poke("rst", BV(1, 1));
            ref.clock(true);
            sd.poke("rst", BV(1, 0));
            compare();
            for (int q = 0; q < 4; q++) {
                for (size_t z = 0; z < tm.v.size(); z++)
                    if (tm.v[z].k == Vr::In && c.src.flip()) set(z);
                compare();
                log += " clock";
                sd.poke("clk", BV(1, 1));
                ref.settle(t);
                ref.clock(false);
                sd.poke("clk", BV(1, 0));
                compare();
            }
        } catch (const sv::Error &e) {
            if (std::string(e.what()).find("too wide") != std::string::npos) continue;
            c.fail("text", std::string(e.what()) + " " + log + "\n" + c.sample + text);
        }
    }
    c.nontrivial = follows && d.m.size() > 1;
    if (d.late) c.label("values set after use");
    bool chain = false;
    for (auto const &m : d.m)
        for (auto const &s : m.sub)
            for (auto const &b : s.bind) chain |= b.up >= 0;
    if (chain) c.label("values passed on");
}
pbt::Reg r19({"P19", "there is an instance, and something in the top follows a parameter", p19, 30000, 600000, {}, {}});
}  // namespace
