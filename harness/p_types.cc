// P17 packed structures, enumerations and bundles of ports
#include <functional>

#include "context.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "sim.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
struct Fld {
    std::string name;
    uint32_t w;
    bool s;
    int st;
};
struct STy {
    std::string name;
    std::vector<Fld> f;
    uint32_t w = 0;
};
struct ETy {
    std::string name;
    uint32_t w;
    int owner;  // module, or -1
    std::vector<std::pair<std::string, uint64_t>> v;
};
struct Ty {
    int st = -1, en = -1;
    uint32_t w = 1;
    bool s = false;
    std::vector<uint32_t> dims;
    bool operator==(const Ty &o) const { return st == o.st && en == o.en && w == o.w && s == o.s && dims == o.dims; }
};
struct Vr {
    std::string name;
    Ty t;
    enum K { In, Out, Var, Reg, Inst } k = Var;
    int inst = -1, port = -1;      // Inst: port of an instance
    std::string bundle, attr;      // port is part of a bundle
};
struct Step {
    enum K { Idx, Dyn, Mem, Bits } k;
    uint32_t a = 0, b = 0;
};
struct Ref {
    int v;
    std::vector<Step> p;
};
struct R;
using RP = std::shared_ptr<R>;
struct R {
    enum K { Rd, Const, Add, Xor, Ecst, Eq, EEq, ECast } k = Const;
    Ref r{0, {}};
    uint64_t c = 0;
    Ty t;
    RP a, b;
    int e = 0;
};
struct Asg {
    Ref l;
    RP r, cond;  // cond: may be null
};
struct Proc {
    enum K { Assign, Comb, FF, Inst, Case } k;
    std::vector<Asg> a, rst;
    int inst = -1;
    Ref sel{0, {}};  // Case: enum
    std::vector<std::pair<int, std::vector<Asg>>> items;  // item of the enum, -1: default
};
struct Mod {
    std::string name;
    std::vector<Vr> v;
    std::vector<Proc> p;
    std::vector<int> child;  // module of each instance
    bool ff = false;
    std::vector<int> bundle_in, bundle_out;  // ports in a bundle
};
struct D {
    std::vector<STy> st;
    std::vector<ETy> en;
    std::vector<Mod> m;  // 0 is the top
    bool package = false, dflt = true, twice = false, dbg = false;
};

// types and positions: the first member is the most significant one, element 0 the least
uint32_t total(const Ty &t) {
    uint32_t n = t.w;
    for (auto x : t.dims) n *= x;
    return n;
}
Ty member(const D &d, const Ty &t, uint32_t i) {
    auto const &f = d.st[t.st].f[i];
    Ty r;
    r.st = f.st, r.w = f.st >= 0 ? d.st[f.st].w : f.w, r.s = f.st < 0 && f.s;
    return r;
}
Ty step(const D &d, Ty t, const Step &s) {
    switch (s.k) {
        case Step::Idx:
        case Step::Dyn:
            t.dims.erase(t.dims.begin());
            return t;
        case Step::Mem:
            return member(d, t, s.a);
        case Step::Bits: {
            Ty r;
            r.w = s.a - s.b + 1;
            return r;
        }
    }
    return t;
}
Ty type(const D &d, const Mod &m, const Ref &r) {
    Ty t = m.v[r.v].t;
    for (auto const &s : r.p) t = step(d, t, s);
    return t;
}
using State = std::vector<BV>;
uint32_t locate(const D &d, const Mod &m, const Ref &r, const State &v) {
    Ty t = m.v[r.v].t;
    uint32_t off = 0;
    for (auto const &s : r.p) {
        if (s.k == Step::Idx || s.k == Step::Dyn) {
            uint32_t i = s.k == Step::Idx ? s.a : (uint32_t)v[s.a].u64();
            Ty n = step(d, t, s);
            off += i * total(n);
        } else if (s.k == Step::Mem) {
            for (size_t j = s.a + 1; j < d.st[t.st].f.size(); j++) off += member(d, t, j).w;
        } else
            off += s.b;
        t = step(d, t, s);
    }
    return off;
}
BV get(const BV &x, uint32_t off, uint32_t w) {
    BV r(w, 0);
    for (uint32_t i = 0; i < w; i++) r.setbit(i, x.bit(off + i));
    return r;
}
void put(BV &x, uint32_t off, const BV &y) {
    for (uint32_t i = 0; i < y.w; i++) x.setbit(off + i, y.bit(i));
}
BV ev(const D &d, const Mod &m, const R &r, const State &v) {
    uint32_t w = total(r.t);
    switch (r.k) {
        case R::Rd:
        case R::ECast:
            return get(v[r.r.v], locate(d, m, r.r, v), w);
        case R::Const:
            return BV(w, r.c);
        case R::Add:
            return BV::add(ev(d, m, *r.a, v), ev(d, m, *r.b, v));
        case R::Xor: {
            auto a = ev(d, m, *r.a, v), b = ev(d, m, *r.b, v);
            for (uint32_t i = 0; i < w; i++) a.setbit(i, a.bit(i) != b.bit(i));
            return a;
        }
        case R::Ecst:
            return BV(w, d.en[r.t.en].v[r.e].second);
        case R::Eq:
            return BV(1, ev(d, m, *r.a, v).u64() == r.c);
        case R::EEq:
            return BV(1, ev(d, m, *r.a, v).u64() == d.en[r.a->t.en].v[r.e].second);
    }
    return BV(1, 0);
}

std::string show(const D &d, const Mod &m, const Ref &r) {
    std::string s = m.v[r.v].k == Vr::Inst ? "u" + std::to_string(m.v[r.v].inst) + "." + m.v[r.v].name : m.v[r.v].name;
    Ty t = m.v[r.v].t;
    for (auto const &x : r.p) {
        if (x.k == Step::Idx) s += "[" + std::to_string(x.a) + "]";
        if (x.k == Step::Dyn) s += "[" + m.v[x.a].name + "]";
        if (x.k == Step::Mem) s += "." + d.st[t.st].f[x.a].name;
        if (x.k == Step::Bits) s += "[" + std::to_string(x.a) + ":" + std::to_string(x.b) + "]";
        t = step(d, t, x);
    }
    return s;
}
std::string show(const D &d, const Mod &m, const R &r) {
    switch (r.k) {
        case R::Rd: return show(d, m, r.r);
        case R::ECast: return d.en[r.t.en].name + "'(" + show(d, m, r.r) + ")";
        case R::Const: return std::to_string(total(r.t)) + "'d" + std::to_string(r.c);
        case R::Add: return "(" + show(d, m, *r.a) + " + " + show(d, m, *r.b) + ")";
        case R::Xor: return "(" + show(d, m, *r.a) + " ^ " + show(d, m, *r.b) + ")";
        case R::Ecst: return d.en[r.t.en].v[r.e].first;
        case R::Eq: return "(" + show(d, m, *r.a) + " == " + std::to_string(r.c) + ")";
        case R::EEq: return "(" + show(d, m, *r.a) + " == " + d.en[r.a->t.en].v[r.e].first + ")";
    }
    return "";
}
std::string show(const D &d) {
    std::string o;
    for (auto const &s : d.st) {
        o += "struct " + s.name + ":";
        for (auto const &f : s.f) o += " " + f.name + " " + (f.st >= 0 ? d.st[f.st].name : std::to_string(f.w) + (f.s ? "s" : ""));
        o += "\n";
    }
    for (auto const &e : d.en) {
        o += "enum " + e.name + (e.owner >= 0 ? " of module " + std::to_string(e.owner) : std::string()) + " " + std::to_string(e.w) + ":";
        for (auto const &[n, x] : e.v) o += " " + n + "=" + std::to_string(x);
        o += "\n";
    }
    for (size_t i = 0; i < d.m.size(); i++) {
        auto const &m = d.m[i];
        o += "module " + std::to_string(i) + "\n";
        for (auto const &v : m.v) {
            if (v.k == Vr::Inst) continue;
            o += std::string("  ") + (v.k == Vr::In ? "input " : v.k == Vr::Out ? "output " : v.k == Vr::Reg ? "reg " : "var ") + v.name + " " + (v.t.st >= 0 ? d.st[v.t.st].name : v.t.en >= 0 ? d.en[v.t.en].name : std::to_string(v.t.w) + (v.t.s ? "s" : ""));
            for (auto x : v.t.dims) o += "[" + std::to_string(x) + "]";
            if (!v.bundle.empty()) o += " (" + v.attr + " of bundle " + v.bundle + ")";
            o += "\n";
        }
        auto asg = [&](const std::vector<Asg> &a, const char *op) {
            for (auto const &x : a) o += "    " + (x.cond ? "if " + show(d, m, *x.cond) + " " : std::string()) + show(d, m, x.l) + op + show(d, m, *x.r) + "\n";
        };
        for (auto const &p : m.p) {
            if (p.k == Proc::Inst) o += "  instance u" + std::to_string(p.inst) + " of module " + std::to_string(m.child[p.inst]) + "\n", asg(p.a, " = ");
            if (p.k == Proc::Assign) o += "  assign\n", asg(p.a, " = ");
            if (p.k == Proc::Comb) o += "  comb\n", asg(p.a, " = ");
            if (p.k == Proc::FF) o += "  clocked, in reset\n", asg(p.rst, " <= "), o += "   otherwise\n", asg(p.a, " <= ");
            if (p.k == Proc::Case) {
                o += "  comb, case " + show(d, m, p.sel) + "\n";
                for (auto const &[e, a] : p.items) o += "   " + (e < 0 ? "default" : d.en[type(d, m, p.sel).en].v[e].first) + "\n", asg(a, " = ");
            }
        }
    }
    return o;
}

struct G {
    pbt::Case &c;
    pbt::Src &s;
    D d;
    Mod *m = nullptr;
    int mi = 0;
    std::vector<int> rd;  // readable variables of the module
    int cnt = 0;
    explicit G(pbt::Case &c) : c(c), s(c.src) {}

    Ty ty(bool port) {
        Ty t;
        switch (s.draw(6)) {
            case 0:
            case 1:
                t.w = 1 + s.draw(8);
                t.s = s.chance(1, 6);
                break;
            case 5: {
                std::vector<int> ok;
                for (size_t i = 0; i < d.en.size(); i++)
                    if (d.en[i].owner < 0 || (!port && d.en[i].owner == mi)) ok.push_back(i);
                if (!ok.empty()) {
                    t.en = s.pick(ok), t.w = d.en[t.en].w;
                    break;
                }
            }
            default:
                t.st = s.draw(d.st.size()), t.w = d.st[t.st].w;
                if (s.chance(1, 3)) t.dims.push_back(2 + s.draw(2));
                if (!t.dims.empty() && s.chance(1, 4)) t.dims.push_back(2);
        }
        return t;
    }
    int add(const std::string &b, Ty t, Vr::K k) {
        Vr v;
        v.name = b + std::to_string(cnt++), v.t = t, v.k = k;
        m->v.push_back(v);
        return m->v.size() - 1;
    }
    // all parts of readable variables with exactly this type
    void parts(const Ref &r, const Ty &t, const Ty &want, bool exact, std::vector<Ref> &out, int depth) {
        if (exact ? t == want : (total(t) == total(want) && t.dims.empty() && t.s == want.s)) out.push_back(r);
        if (depth == 0) return;
        if (!t.dims.empty()) {
            Ref q = r;
            q.p.push_back({Step::Idx, (uint32_t)s.draw(t.dims[0]), 0});
            parts(q, step(d, t, q.p.back()), want, exact, out, depth - 1);
            if ((t.dims[0] & (t.dims[0] - 1)) == 0 && s.chance(1, 2)) {  // an index of that many bits
                uint32_t need = t.dims[0] == 2 ? 1 : 2;
                for (int x : rd)
                    if (m->v[x].t.st < 0 && m->v[x].t.en < 0 && !m->v[x].t.s && m->v[x].t.dims.empty() && m->v[x].t.w == need && m->v[x].k != Vr::Inst) {
                        q.p.back() = {Step::Dyn, (uint32_t)x, 0};
                        parts(q, step(d, t, q.p.back()), want, exact, out, depth - 1);
                        break;
                    }
            }
        } else if (t.st >= 0) {
            for (size_t i = 0; i < d.st[t.st].f.size(); i++) {
                Ref q = r;
                q.p.push_back({Step::Mem, (uint32_t)i, 0});
                parts(q, step(d, t, q.p.back()), want, exact, out, depth - 1);
            }
        }
        if (t.dims.empty() && (t.st < 0 || s.chance(1, 3)) && t.en < 0 && want.st < 0 && want.en < 0 && !want.s && t.w > want.w && want.dims.empty() && (r.p.empty() || r.p.back().k != Step::Bits)) {
            Ref q = r;
            uint32_t lo = s.draw(t.w - want.w + 1);
            q.p.push_back({Step::Bits, lo + want.w - 1, lo});
            out.push_back(q);
        }
    }
    RP konst(const Ty &t) {
        auto r = std::make_shared<R>();
        r->t = t;
        if (t.en >= 0)
            r->k = R::Ecst, r->e = s.draw(d.en[t.en].v.size());
        else {
            r->k = R::Const;
            r->c = s.bits(total(t) > 62 ? 62 : total(t));
            if (t.s) r->c &= (1ull << (t.w - 1)) - 1;
        }
        return r;
    }
    RP value(const Ty &t, int depth = 1) {
        auto r = std::make_shared<R>();
        r->t = t;
        bool vec = t.st < 0 && t.en < 0 && t.dims.empty();
        if (vec && !t.s && t.w == 1 && s.chance(1, 3)) {
            // comparisons
            auto x = s.pick(rd);
            auto const &xt = m->v[x].t;
            if (xt.en >= 0) {
                r->k = R::EEq;
                r->a = std::make_shared<R>();
                r->a->k = R::Rd, r->a->r = {x, {}}, r->a->t = xt, r->e = s.draw(d.en[xt.en].v.size());
                return r;
            }
            Ty q;
            q.w = 1 + s.draw(4);
            r->k = R::Eq, r->a = value(q, 0), r->c = s.draw(1ull << q.w);
            if (r->a->k == R::Rd) return r;
            *r = R();
            r->t = t;
        }
        if (vec && depth && s.chance(1, 5)) {
            r->k = s.flip() ? R::Add : R::Xor;
            r->a = value(t, depth - 1), r->b = value(t, depth - 1);
            return r;
        }
        if (t.en >= 0 && s.chance(1, 8)) {
            Ty q;
            q.w = t.w;
            auto a = value(q, 0);
            if (a->k == R::Rd) {
                r->k = R::ECast, r->r = a->r;
                return r;
            }
        }
        std::vector<Ref> all;
        // vectors can be assigned to structs and the other way around
        bool exact = !t.dims.empty() || t.en >= 0 || s.chance(3, 4);
        for (int x : rd) parts({x, {}}, m->v[x].t, t, exact, all, 4);
        if (all.empty() || s.chance(1, 8)) {
            if (!t.dims.empty() && all.empty()) return nullptr;
            if (t.dims.empty()) return konst(t);
        }
        r->k = R::Rd;
        r->r = s.pick(all);
        return r;
    }
    // assignments that cover all of the reference
    void cover(const Ref &r, std::vector<Asg> &out, bool k = false) {
        Ty t = type(d, *m, r);
        if (!t.dims.empty()) {
            RP x = !k && s.chance(1, 2) ? value(t) : nullptr;
            if (x) {
                out.push_back({r, x, nullptr});
                return;
            }
            for (uint32_t i = 0; i < t.dims[0]; i++) {
                Ref q = r;
                q.p.push_back({Step::Idx, i, 0});
                cover(q, out, k);
            }
            return;
        }
        if (t.st >= 0 && s.chance(2, 3)) {
            for (size_t i = 0; i < d.st[t.st].f.size(); i++) {
                Ref q = r;
                q.p.push_back({Step::Mem, (uint32_t)i, 0});
                cover(q, out, k);
            }
            return;
        }
        if (t.en < 0 && t.w > 1 && s.chance(1, 5) && (r.p.empty() || r.p.back().k != Step::Bits)) {
            uint32_t at = 1 + s.draw(t.w - 1);
            for (int i = 0; i < 2; i++) {
                Ref q = r;
                q.p.push_back(i ? Step{Step::Bits, t.w - 1, at} : Step{Step::Bits, at - 1, 0});
                out.push_back({q, k ? konst(type(d, *m, q)) : value(type(d, *m, q)), nullptr});
            }
            return;
        }
        out.push_back({r, k ? konst(t) : value(t), nullptr});
    }
    // a random part of a variable
    Ref part(int v) {
        Ref r{v, {}};
        Ty t = m->v[v].t;
        while (s.chance(3, 4)) {
            Step st{Step::Idx, 0, 0};
            if (!t.dims.empty())
                st = {Step::Idx, (uint32_t)s.draw(t.dims[0]), 0};
            else if (t.st >= 0)
                st = {Step::Mem, (uint32_t)s.draw(d.st[t.st].f.size()), 0};
            else if (t.en < 0 && t.w > 1 && (r.p.empty() || r.p.back().k != Step::Bits)) {
                uint32_t lo = s.draw(t.w), hi = lo + s.draw(t.w - lo);
                st = {Step::Bits, hi, lo};
            } else
                break;
            r.p.push_back(st);
            t = step(d, t, st);
        }
        return r;
    }
    void extra(int v, std::vector<Asg> &out) {
        int n = s.draw(3);
        for (int i = 0; i < n; i++) {
            Ref r = part(v);
            Ty b1;
            auto x = value(type(d, *m, r));
            if (!x) continue;
            out.push_back({r, x, s.chance(1, 2) ? value(b1, 0) : nullptr});
        }
    }
    void drive(int v) {
        Proc p;
        auto k = m->v[v].k;
        if (k == Vr::Reg) {
            p.k = Proc::FF;
            m->ff = true;
            cover({v, {}}, p.rst, true);
            rd.push_back(v);
            // a default and overrides of registers are refused
            if (s.flip()) cover({v, {}}, p.a);
            else { extra(v, p.a); if (p.a.size() > 1) p.a.resize(1); }
            
            if (p.a.empty()) cover({v, {}}, p.a);
        } else {
            std::vector<int> es;
            for (int x : rd)
                if (m->v[x].t.en >= 0) es.push_back(x);
            // ports of one bundle become one struct, which has to be driven in one way
            if (m->v[v].bundle.empty() && !es.empty() && s.chance(1, 3)) {
                p.k = Proc::Case;
                p.sel = {s.pick(es), {}};
                auto const &e = d.en[m->v[p.sel.v].t.en];
                cover({v, {}}, p.a);
                for (size_t i = 0; i < e.v.size(); i++)
                    if (s.chance(2, 3)) {
                        std::vector<Asg> a;
                        extra(v, a);
                        if (!a.empty()) p.items.push_back({(int)i, a});
                    }
                std::vector<Asg> a;
                if (s.flip()) extra(v, a);
                if (!a.empty()) p.items.push_back({-1, a});
                if (p.items.empty()) p.k = Proc::Comb;
            } else if (m->v[v].bundle.empty() && s.flip()) {
                p.k = Proc::Comb;
                cover({v, {}}, p.a);
                extra(v, p.a);
            } else {
                p.k = Proc::Assign;
                cover({v, {}}, p.a);
            }
            rd.push_back(v);
        }
        m->p.push_back(p);
    }
    void instance(int mod) {
        Proc p;
        p.k = Proc::Inst;
        p.inst = m->child.size();
        m->child.push_back(mod);
        std::vector<int> outs;
        auto const &cm = d.m[mod];
        for (size_t i = 0; i < cm.v.size(); i++) {
            if (cm.v[i].k != Vr::In && cm.v[i].k != Vr::Out) continue;
            Vr v = cm.v[i];
            v.k = Vr::Inst;
            v.inst = p.inst, v.port = i;
            m->v.push_back(v);
            int x = m->v.size() - 1;
            if (cm.v[i].k == Vr::In)
                cover({x, {}}, p.a);
            else
                outs.push_back(x);
        }
        m->p.push_back(p);
        for (int x : outs) rd.push_back(x);
        if (cm.ff) m->ff = true;
    }
    void module(bool top) {
        mi = top ? 0 : d.m.size();
        Mod mm;
        mm.name = top ? "top" : "child" + std::to_string(mi);
        m = &mm;
        rd.clear();
        cnt = 0;
        if (s.chance(1, 2)) enumeration(mi);
        int ni = 1 + s.draw(3);
        bool bundle = !top && s.chance(1, 3);
        if (bundle) {
            // a bundle of ports, all of them in one direction
            int nb = 1 + s.draw(3);
            bool in = true;
            for (int i = 0; i < nb; i++) {
                Ty t;
                t.w = 1 + s.draw(6), t.s = s.chance(1, 5);
                int x = add("b", t, Vr::In);
                m->v[x].bundle = "bun" + std::to_string(mi), m->v[x].attr = std::string(1, "zayq"[i]);
                m->v[x].name = m->v[x].bundle + "_" + m->v[x].attr;
                rd.push_back(x);
            }
            (void)in;
        }
        for (int i = 0; i < ni; i++) rd.push_back(add("i", ty(true), Vr::In));
        Ty one;
        one.w = 1 + s.draw(2);
        rd.push_back(add("i", one, Vr::In));
        int nv = s.draw(4);
        std::vector<int> children;
        if (top)
            for (size_t i = 1; i < d.m.size(); i++) {
                children.push_back(i);
                if (s.chance(1, 4)) children.push_back(i);
            }
        for (int i = 0; i < nv; i++) {
            if (!children.empty() && s.flip()) instance(children.back()), children.pop_back();
            drive(add("v", ty(false), s.chance(1, 3) ? Vr::Reg : Vr::Var));
        }
        while (!children.empty()) instance(children.back()), children.pop_back();
        int no = 1 + s.draw(3);
        for (int i = 0; i < no; i++) drive(add("o", ty(true), Vr::Out));
        if (bundle && s.flip()) {
            int nb = 1 + s.draw(2);
            for (int i = 0; i < nb; i++) {
                Ty t;
                t.w = 1 + s.draw(6);
                int x = add("c", t, Vr::Out);
                m->v[x].bundle = "cun" + std::to_string(mi), m->v[x].attr = std::string(1, "zayq"[i]);
                m->v[x].name = m->v[x].bundle + "_" + m->v[x].attr;
                drive(x);
            }
        }
        if (top)
            d.m[0] = mm;
        else
            d.m.push_back(mm);
    }
    void enumeration(int owner) {
        ETy e;
        e.owner = owner;
        auto n = d.en.size();
        e.name = "E" + std::to_string(n);
        e.w = 1 + s.draw(3);
        int cnt = 1 + s.draw(std::min<uint32_t>(1u << e.w, 5));
        std::vector<uint64_t> vals;
        for (uint64_t i = 0; i < 1ull << e.w; i++) vals.push_back(i);
        if (s.flip()) s.shuffle(vals);
        for (int i = 0; i < cnt; i++) e.v.push_back({std::string(1, "ZAMB"[s.draw(4)]) + std::to_string(n) + "_" + std::to_string(i), vals[i]});
        d.en.push_back(e);
    }
    void make() {
        int ns = 1 + s.draw(3);
        for (int i = 0; i < ns; i++) {
            STy t;
            t.name = std::string(1, "SAT"[s.draw(3)]) + "_t" + std::to_string(i);
            int nf = 1 + s.draw(4);
            for (int j = 0; j < nf; j++) {
                Fld f{std::string(1, "xmab"[s.draw(4)]) + std::to_string(j), (uint32_t)(1 + s.draw(8)), s.chance(1, 5), -1};
                if (i && s.chance(1, 3)) f.st = s.draw(i), f.w = d.st[f.st].w, f.s = false;
                t.w += f.w;
                t.f.push_back(f);
            }
            d.st.push_back(t);
        }
        if (s.flip()) enumeration(-1);
        if (s.chance(1, 4)) enumeration(-1);
        d.m.emplace_back();
        int nm = s.draw(3);
        for (int i = 0; i < nm; i++) module(false);
        mi = 0;
        // the top comes last, as number 0
        {
            auto keep = d.m;
            module_top();
        }
        d.package = s.chance(1, 3);
        d.dflt = s.chance(4, 5);
        d.dbg = s.chance(1, 5);
    }
    void module_top() { module(true); }
};

// ---- reference ------------------------------------------------------------------------------
struct I {
    const Mod *m;
    State v;
    std::vector<std::unique_ptr<I>> sub;
};
struct Ref_ {
    const D &d;
    std::unique_ptr<I> top;
    explicit Ref_(const D &d) : d(d) { top = make(0); }
    std::unique_ptr<I> make(int mod) {
        auto r = std::make_unique<I>();
        r->m = &d.m[mod];
        for (auto const &v : r->m->v) r->v.push_back(BV(total(v.t), 0));
        for (int x : r->m->child) r->sub.push_back(make(x));
        return r;
    }
    void run(I &i, const std::vector<Asg> &a, State &to) {
        for (auto const &x : a) {
            if (x.cond && !ev(d, *i.m, *x.cond, i.v).any()) continue;
            put(to[x.l.v], locate(d, *i.m, x.l, i.v), ev(d, *i.m, *x.r, i.v));
        }
    }
    void settle(I &i) {
        for (auto const &p : i.m->p) {
            if (p.k == Proc::FF) continue;
            run(i, p.a, i.v);
            if (p.k == Proc::Case) {
                auto x = ev(d, *i.m, R{R::Rd, p.sel, 0, type(d, *i.m, p.sel)}, i.v).u64();
                auto const &e = d.en[type(d, *i.m, p.sel).en];
                const std::vector<Asg> *hit = nullptr;
                for (auto const &[n, a] : p.items)
                    if (n < 0 ? !hit : e.v[n].second == x) hit = &a;
                if (hit) run(i, *hit, i.v);
            }
            if (p.k == Proc::Inst) {
                auto &c = *i.sub[p.inst];
                for (size_t q = 0; q < i.m->v.size(); q++) {
                    auto const &v = i.m->v[q];
                    if (v.k == Vr::Inst && v.inst == p.inst && c.m->v[v.port].k == Vr::In) c.v[v.port] = i.v[q];
                }
                settle(c);
                for (size_t q = 0; q < i.m->v.size(); q++) {
                    auto const &v = i.m->v[q];
                    if (v.k == Vr::Inst && v.inst == p.inst && c.m->v[v.port].k == Vr::Out) i.v[q] = c.v[v.port];
                }
            }
        }
    }
    void edge(I &i, bool reset, std::vector<std::pair<I *, State>> &next) {
        State n = i.v;
        for (auto const &p : i.m->p)
            if (p.k == Proc::FF) run(i, reset ? p.rst : p.a, n);
        next.push_back({&i, n});
        for (auto &x : i.sub) edge(*x, reset, next);
    }
    void clock(bool reset) {
        std::vector<std::pair<I *, State>> next;
        edge(*top, reset, next);
        for (auto &[i, n] : next)
            for (size_t q = 0; q < n.size(); q++)
                if (i->m->v[q].k == Vr::Reg) i->v[q] = n[q];
        settle(*top);
    }
};

// ---- building -------------------------------------------------------------------------------
struct B {
    const D &d;
    std::shared_ptr<k::Context> ctx = std::make_shared<k::Context>();
    std::vector<std::shared_ptr<k::PackedStruct>> st;
    std::vector<std::shared_ptr<k::Enum>> ge;
    struct M {
        const Mod *m;
        k::Generator *g;
        std::vector<k::Var *> v;
        std::vector<k::Enum *> en;
        k::Port *clk = nullptr, *rst = nullptr;
        std::vector<std::unique_ptr<M>> sub;
    };
    std::unique_ptr<M> top;
    explicit B(const D &d) : d(d) {
        for (auto const &s : d.st) {
            auto p = std::make_shared<k::PackedStruct>(s.name);
            for (auto const &f : s.f) {
                auto a = k::PackedStructFieldDef();
                a.name = f.name, a.width = f.w, a.signed_ = f.s;
                if (f.st >= 0) a.struct_ = st[f.st].get();
                p->attributes.push_back(a);
            }
            st.push_back(p);
        }
        top = make(0);
    }
    static k::Var &member(k::Var &v, const std::string &n) {
        if (auto *p = dynamic_cast<k::VarPackedStruct *>(&v)) return (*p)[n];
        if (auto *p = dynamic_cast<k::PortPackedStruct *>(&v)) return (*p)[n];
        auto *p = dynamic_cast<k::VarSlice *>(&v);
        if (!p) throw std::runtime_error("no member " + n + " of " + v.to_string());
        return (*p)[n];
    }
    k::Var &ref(M &m, const Ref &r) {
        k::Var *x = m.v[r.v];
        Ty t = m.m->v[r.v].t;
        for (auto const &s : r.p) {
            switch (s.k) {
                case Step::Idx:
                    x = &(*x)[s.a];
                    break;
                case Step::Dyn:
                    x = &(*x)[m.v[s.a]->shared_from_this()];
                    break;
                case Step::Mem:
                    x = &member(*x, d.st[t.st].f[s.a].name);
                    break;
                case Step::Bits:
                    x = s.a == s.b ? &(*x)[s.a] : &(*x)[std::make_pair(s.a, s.b)];
                    break;
            }
            t = step(d, t, s);
        }
        return *x;
    }
    k::Var &val(M &m, const R &r) {
        switch (r.k) {
            case R::Rd:
                return ref(m, r.r);
            case R::ECast: {
                auto x = ref(m, r.r).cast(k::VarCastType::Enum);
                x->as<k::VarCasted>()->set_enum_type(m.en[r.t.en]);
                return *x;
            }
            case R::Const:
                return k::constant((int64_t)r.c, total(r.t), r.t.s);
            case R::Add:
                return val(m, *r.a) + val(m, *r.b);
            case R::Xor:
                return val(m, *r.a) ^ val(m, *r.b);
            case R::Ecst:
                return *m.en[r.t.en]->get_enum(d.en[r.t.en].v[r.e].first);
            case R::Eq:
                return val(m, *r.a).eq(k::constant((int64_t)r.c, total(r.a->t)));
            case R::EEq:
                return val(m, *r.a).eq(*m.en[r.a->t.en]->get_enum(d.en[r.a->t.en].v[r.e].first));
        }
        throw std::runtime_error("value");
    }
    std::shared_ptr<k::Stmt> asg(M &m, const Asg &a, k::AssignmentType t) {
        auto s = ref(m, a.l).assign(val(m, *a.r), t);
        if (!a.cond) return s;
        auto i = std::make_shared<k::IfStmt>(val(m, *a.cond));
        i->add_then_stmt(s);
        return i;
    }
    std::unique_ptr<M> make(int mod) {
        auto r = std::make_unique<M>();
        auto const &m = d.m[mod];
        r->m = &m;
        auto &g = ctx->generator(m.name);
        g.debug = d.dbg;
        r->g = &g;
        for (size_t i = 0; i < d.en.size(); i++) {
            std::map<std::string, uint64_t> def(d.en[i].v.begin(), d.en[i].v.end());
            auto const &e = d.en[i];
            if (e.owner < 0)
                r->en.push_back(ctx->has_enum(e.name) ? ctx->enum_defs().at(e.name).get() : &ctx->enum_(e.name, def, e.w));
            else if (e.owner == mod)
                r->en.push_back(&g.enum_(e.name, def, e.w));
            else
                r->en.push_back(nullptr);
        }
        if (m.ff) {
            r->clk = &g.port(k::PortDirection::In, "clk", 1, 1, k::PortType::Clock, false);
            r->rst = &g.port(k::PortDirection::In, "rst", 1, 1, k::PortType::Data, false);
        }
        std::map<std::string, std::shared_ptr<k::PortBundleDefinition>> bd;
        for (auto const &v : m.v)
            if (!v.bundle.empty() && v.k != Vr::Inst) {
                auto &x = bd[v.bundle];
                if (!x) x = std::make_shared<k::PortBundleDefinition>(v.bundle + "_t");
                x->add_definition(v.attr, v.t.w, 1, v.t.s, v.k == Vr::In ? k::PortDirection::In : k::PortDirection::Out, k::PortType::Data);
            }
        for (auto const &[n, x] : bd) g.add_bundle_port_def(n, *x);
        std::map<int, int> clkdone;
        for (size_t i = 0; i < m.child.size(); i++) {
            r->sub.push_back(make(m.child[i]));
            auto &c = *r->sub.back();
            g.add_child_generator("u" + std::to_string(i), c.g->shared_from_this());
            if (c.clk) {
                g.add_stmt(c.clk->assign(*r->clk, k::AssignmentType::Blocking));
                g.add_stmt(c.rst->assign(*r->rst, k::AssignmentType::Blocking));
            }
        }
        for (auto const &v : m.v) {
            k::Var *x = nullptr;
            bool port = v.k == Vr::In || v.k == Vr::Out;
            auto dir = v.k == Vr::In ? k::PortDirection::In : k::PortDirection::Out;
            if (v.k == Vr::Inst)
                x = r->sub[v.inst]->v[v.port];
            else if (!v.bundle.empty())
                x = &g.get_bundle_ref(v.bundle)->get_port(v.attr);
            else if (v.t.st >= 0) {
                auto const &s = st[v.t.st];
                if (v.t.dims.empty())
                    x = port ? (k::Var *)&g.port_packed(dir, v.name, s) : &g.var_packed(v.name, s);
                else
                    x = port ? (k::Var *)&g.port_packed(dir, v.name, s, v.t.dims) : &g.var_packed(v.name, s, v.t.dims);
            } else if (v.t.en >= 0) {
                auto e = r->en[v.t.en]->shared_from_this();
                x = port ? (k::Var *)&g.port(dir, v.name, e) : &g.enum_var(v.name, e);
            } else
                x = port ? (k::Var *)&g.port(dir, v.name, v.t.w, 1, k::PortType::Data, v.t.s) : &g.var(v.name, v.t.w, 1, v.t.s);
            r->v.push_back(x);
        }
        auto bl = k::AssignmentType::Blocking;
        for (auto const &p : m.p) {
            switch (p.k) {
                case Proc::Assign:
                case Proc::Inst:
                    for (auto const &a : p.a) g.add_stmt(asg(*r, a, bl));
                    break;
                case Proc::Comb:
                case Proc::Case: {
                    auto c = g.combinational();
                    for (auto const &a : p.a) c->add_stmt(asg(*r, a, bl));
                    if (p.k == Proc::Case) {
                        auto sw = std::make_shared<k::SwitchStmt>(ref(*r, p.sel));
                        for (auto const &[e, as] : p.items) {
                            std::vector<std::shared_ptr<k::Stmt>> ss;
                            for (auto const &a : as) ss.push_back(asg(*r, a, bl));
                            auto const &et = type(d, m, p.sel);
                            std::shared_ptr<k::Const> cs = e < 0 ? nullptr : r->en[et.en]->get_enum(d.en[et.en].v[e].first);
                            for (auto const &q : ss) sw->add_switch_case(cs, q);
                        }
                        c->add_stmt(sw);
                    }
                    break;
                }
                case Proc::FF: {
                    auto c = g.sequential();
                    c->add_condition({k::EventEdgeType::Posedge, r->clk->shared_from_this()});
                    auto i = std::make_shared<k::IfStmt>(r->rst->shared_from_this());
                    for (auto const &a : p.rst) i->add_then_stmt(asg(*r, a, k::AssignmentType::NonBlocking));
                    for (auto const &a : p.a) i->add_else_stmt(asg(*r, a, k::AssignmentType::NonBlocking));
                    c->add_stmt(i);
                    break;
                }
            }
        }
        return r;
    }
};

void p17(pbt::Case &c) {
    G g(c);
    g.make();
    auto const &d = g.d;
    c.sample = show(d);
    int uses = 0;
    for (auto const &m : d.m)
        for (auto const &v : m.v) {
            if (v.t.st >= 0) c.label(v.t.dims.empty() ? "struct" : "array of structs"), uses++;
            if (v.t.en >= 0) c.label(d.en[v.t.en].owner < 0 ? "global enum" : "local enum"), uses++;
            if (!v.bundle.empty()) c.label("bundle"), uses++;
        }
    for (auto const &s : d.st)
        for (auto const &f : s.f)
            if (f.st >= 0) c.label("struct in a struct");
    std::string text;
    std::unique_ptr<B> bp;
    try {
        bp = std::make_unique<B>(d);
        auto &b = *bp;
        k::SystemVerilogCodeGenOptions o;
        std::map<std::string, std::string> src;
        Flow f;
        f.optimize_passthrough = c.src.flip();
        f.optimize_fanout = c.src.flip();
        f.optimize_if = c.src.flip();
        src = d.dflt ? default_flow(b.top->g, f) : plain_flow(b.top->g);
        // the definitions go in front
        if (d.package) {
            bool guard = c.src.flip();
            auto [h, lines] = k::generate_sv_package_header(b.top->g, "pkg_of_types", guard);
            std::string pre = std::string(guard ? "`ifndef KRATOS_PKG_OF_TYPES\n`define KRATOS_PKG_OF_TYPES\n" : "") + "package pkg_of_types;\n", post = std::string("endpackage\n") + (guard ? "`endif\n" : "");
            if (h.size() < pre.size() + post.size() || h.substr(0, pre.size()) != pre || h.substr(h.size() - post.size()) != post) c.fail("package", h);
            if (lines != 1 + std::count(h.begin(), h.end(), '\n')) c.fail("package", "number of lines " + std::to_string(lines) + "\n" + h);
            text = h.substr(pre.size(), h.size() - pre.size() - post.size());
        } else {
            for (auto const &[n, t] : k::extract_struct_info(b.top->g)) text += t;
            for (auto const &[n, t] : k::extract_enum_info(b.top->g)) text += t;
        }
        text += join(src);
    } catch (const pbt::Failure &) {
        throw;
    } catch (const std::exception &e) {
        c.fail("exception", std::string(e.what()) + "\n" + c.sample);
    }
    try {
        sv::Unit u;
        sv::parse(text, u);
        if (!u.dups.empty()) c.fail("text", "declared twice: " + u.dups[0] + "\n" + c.sample + text);
        sv::Options so;
        so.init_seed = c.src.draw(1000);
        sv::Design sd(u, "top", so);
        if (!sd.lint().empty()) c.fail("text", sd.lint()[0] + "\n" + c.sample + text);
        Ref_ ref(d);
        auto const &t = d.m[0];
        std::string log;
        // the simulator gets the same history
        std::unique_ptr<k::Simulator> sim;
        bool fits = c.src.flip();
        for (auto const &m : d.m)
            for (auto const &v : m.v)
                if (v.t.w > 64) fits = false;
        if (fits) sim = std::make_unique<k::Simulator>(bp->top->g), c.label("simulator");
        auto &bt = *bp->top;
        auto words = [&](const BV &x, const Ty &t) {
            std::vector<uint64_t> r;
            for (uint32_t q = 0; q < x.w; q += t.w) r.push_back(get(x, q, t.w).u64());
            return r;
        };
        auto poke = [&](size_t i, const BV &x) {
            if (sim) sim->set(bt.g->get_var(t.v[i].name).get(), std::optional<std::vector<uint64_t>>(words(x, t.v[i].t)), false);
            log += " " + t.v[i].name + "=" + x.str();
            ref.top->v[i] = x;
            sd.set(t.v[i].name, x);
        };
        auto rnd = [&](size_t i) {
            uint32_t w = total(t.v[i].t);
            BV x(w, 0);
            if (t.v[i].t.en >= 0 && c.src.chance(3, 4)) return BV(w, c.src.pick(d.en[t.v[i].t.en].v).second);
            for (uint32_t q = 0; q < w; q += 8)
                for (uint32_t z = 0, y = c.src.draw(256); z < 8; z++) x.setbit(q + z, y >> z & 1);
            return x;
        };
        auto compare = [&]() {
            for (size_t i = 0; i < t.v.size(); i++)
                if (t.v[i].k == Vr::Out) {
                    auto got = sd.get(t.v[i].name);
                    if (sim) {
                        auto sg = sim->get_array(bt.g->get_var(t.v[i].name).get());
                        auto want = words(ref.top->v[i], t.v[i].t);
                        if (!sg || *sg != want) c.fail("simulator", t.v[i].name + (sg ? " is wrong: " + std::to_string((*sg)[0]) : " is unknown") + " instead of " + ref.top->v[i].str() + " after" + log + "\n" + c.sample + text);
                    }
                    if (!(got.str() == ref.top->v[i].str())) c.fail("behaviour", t.v[i].name + " is " + got.str() + " instead of " + ref.top->v[i].str() + " after" + log + "\n" + c.sample + text);
                }
        };
        auto clk = [&](bool rst) {
            log += rst ? " reset" : " clock";
            sd.poke("rst", BV(1, rst));
            sd.poke("clk", BV(1, 1));
            sd.poke("clk", BV(1, 0));
            if (sim) {
                sim->set(bt.rst, (uint64_t)rst, true);
                sim->set(bt.clk, (uint64_t)1, true);
                sim->set(bt.clk, (uint64_t)0, true);
            }
            ref.clock(rst);
        };
        for (size_t i = 0; i < t.v.size(); i++)
            if (t.v[i].k == Vr::In) poke(i, rnd(i));
        if (t.ff) {
            sd.set("clk", BV(1, 0)), sd.set("rst", BV(1, 0));
            if (sim) sim->set(bt.clk, (uint64_t)0, false), sim->set(bt.rst, (uint64_t)0, false);
        }
        if (sim) sim->eval();
        sd.settle();
        ref.settle(*ref.top);
        if (t.ff) clk(true);
        compare();
        for (int q = 0; q < 8; q++) {
            for (size_t i = 0; i < t.v.size(); i++)
                if (t.v[i].k == Vr::In && c.src.flip()) poke(i, rnd(i));
            if (sim) sim->eval();
            sd.settle();
            ref.settle(*ref.top);
            compare();
            if (t.ff) {
                clk(c.src.chance(1, 8));
                compare();
            }
        }
    } catch (const sv::Error &e) {
        c.fail("text", std::string(e.what()) + "\n" + c.sample + text);
    }
    c.nontrivial = uses >= 4;
}
pbt::Reg r17({"P17", "at least four variables are structs, enums or members of bundles", p17, 20000, 400000, {}, {}});
}  // namespace
