#include "rdl.hh"

#include <algorithm>
#include <stdexcept>

namespace rdl {

// ---------------------------------------------------------------- evaluation
static BV b1(bool v) { return BV(1, v ? 1 : 0); }

std::pair<uint32_t, uint32_t> locate(const EP &e, const Env &env) {
    const V &v = env.m->vars[e->v];
    uint32_t off = 0;
    std::vector<uint32_t> dims = v.t.dims;
    uint32_t w = v.t.w;
    auto total = [&] {
        uint32_t n = w;
        for (auto x : dims) n *= x;
        return n;
    };
    for (auto const &s : e->sel) {
        if (!dims.empty()) {
            uint32_t n = dims.front();
            uint32_t ew = total() / n;
            if (s.k == Sel::Range) {
                off += s.lo * ew;
                dims = {s.hi - s.lo + 1};
                w = ew;
                continue;
            }
            uint64_t i = s.k == Sel::Idx ? s.lo : eval(s.dyn, env).u64();
            if (i >= n) throw std::logic_error("rdl: index out of range in " + show(*env.m, e));
            off += (uint32_t)i * ew;
            dims.erase(dims.begin());
        } else {
            if (s.k == Sel::Range) {
                off += s.lo;
                w = s.hi - s.lo + 1;
            } else {
                uint64_t i = s.k == Sel::Idx ? s.lo : eval(s.dyn, env).u64();
                if (i >= w) throw std::logic_error("rdl: bit out of range in " + show(*env.m, e));
                off += (uint32_t)i;
                w = 1;
            }
        }
    }
    return {off, total()};
}

BV eval(const EP &e, const Env &env) {
    switch (e->k) {
        case E::Ref: {
            auto [off, w] = locate(e, env);
            return (*env.val)[e->v].slice(off, w);
        }
        case E::Const:
            return e->c;
        case E::Arg:
            return (*env.args)[e->id];
        case E::Iter:
            return BV::sval(e->w, env.it.at(e->id));
        case E::CastS:
        case E::CastU:
            return eval(e->a[0], env);
        case E::Ext:
            return eval(e->a[0], env).resize(e->w, e->a[0]->s);
        case E::Part: {
            BV x = eval(e->a[0], env);
            auto const &p = e->sel[0];
            uint64_t lo = p.k == Sel::Dyn ? eval(p.dyn, env).u64() : p.lo;
            return x.slice((uint32_t)lo, e->w);
        }
        case E::Dup: {
            BV x = eval(e->a[0], env);
            BV r(e->w, 0);
            for (uint32_t o = 0; o < e->w; o += x.w) r.insert(o, x);
            return r;
        }
        case E::Cat: {
            BV r(e->w, 0);
            uint32_t o = e->w;
            for (auto const &k : e->a) {
                BV x = eval(k, env);
                o -= x.w;
                r.insert(o, x);
            }
            return r;
        }
        case E::Mux:
            return eval(e->a[0], env).any() ? eval(e->a[1], env) : eval(e->a[2], env);
        case E::Call: {
            const Func *f = nullptr;
            for (auto const &x : env.m->funcs)
                if (x.name == e->fn) f = &x;
            std::vector<BV> args;
            for (auto const &k : e->a) args.push_back(eval(k, env));
            Env ne{env.m, env.val, {}, &args};
            if (f->cond && eval(f->cond, ne).any()) return eval(f->r1, ne);
            return eval(f->r2, ne);
        }
        case E::Un: {
            BV x = eval(e->a[0], env);
            switch (e->op) {
                case ExprOp::UInvert:
                    return ~x;
                case ExprOp::UMinus:
                    return BV::neg(x);
                case ExprOp::UPlus:
                    return x;
                case ExprOp::UOr:
                    return b1(x.any());
                case ExprOp::UNot:
                    return b1(!x.any());
                case ExprOp::UAnd:
                    return b1(x.all());
                case ExprOp::UXor: {
                    bool p = false;
                    for (uint32_t i = 0; i < x.w; i++) p ^= x.bit(i);
                    return b1(p);
                }
                default:
                    throw std::logic_error("rdl: unary");
            }
        }
        case E::Bin: {
            BV x = eval(e->a[0], env), y = eval(e->a[1], env);
            bool s = e->a[0]->s && e->a[1]->s;
            auto cmp = [&] { return s ? BV::scmp(x, y) : BV::ucmp(x, y); };
            switch (e->op) {
                case ExprOp::Add:
                    return BV::add(x, y);
                case ExprOp::Minus:
                    return BV::sub(x, y);
                case ExprOp::Multiply:
                    return BV::mul(x, y);
                case ExprOp::Divide:
                    return BV::div(x, y, s, false);
                case ExprOp::Mod:
                    return BV::div(x, y, s, true);
                case ExprOp::LogicalShiftRight:
                    return x.shr(y.shamt(), false);
                case ExprOp::SignedShiftRight:
                    return x.shr(y.shamt(), s);
                case ExprOp::ShiftLeft:
                    return x.shl(y.shamt());
                case ExprOp::Or:
                case ExprOp::And:
                case ExprOp::Xor: {
                    BV r(x.w, 0);
                    for (uint32_t i = 0; i < r.nw(); i++)
                        r.d[i] = e->op == ExprOp::Or    ? x.d[i] | y.d[i]
                                 : e->op == ExprOp::And ? x.d[i] & y.d[i]
                                                        : x.d[i] ^ y.d[i];
                    return r;
                }
                case ExprOp::Power:
                    return BV::pow(x, y, s);
                case ExprOp::LAnd:
                    return b1(x.any() && y.any());
                case ExprOp::LOr:
                    return b1(x.any() || y.any());
                case ExprOp::LessThan:
                    return b1(cmp() < 0);
                case ExprOp::GreaterThan:
                    return b1(cmp() > 0);
                case ExprOp::LessEqThan:
                    return b1(cmp() <= 0);
                case ExprOp::GreaterEqThan:
                    return b1(cmp() >= 0);
                case ExprOp::Eq:
                    return b1(x == y);
                case ExprOp::Neq:
                    return b1(x != y);
                default:
                    throw std::logic_error("rdl: binary");
            }
        }
    }
    throw std::logic_error("rdl: eval");
}

static void store(const EP &l, const BV &x, Env &env, std::vector<BV> &val,
                  std::vector<std::pair<int, std::pair<uint32_t, BV>>> *nba) {
    if (l->k == E::Cat) {
        uint32_t o = l->w;
        for (auto const &p : l->a) {
            o -= p->w;
            store(p, x.slice(o, p->w), env, val, nba);
        }
        return;
    }
    auto [off, w] = locate(l, env);
    if (nba)
        nba->push_back({l->v, {off, x}});
    else
        val[l->v].insert(off, x);
}

void exec(const std::vector<SP> &ss, Env &env, std::vector<BV> &val,
          std::vector<std::pair<int, std::pair<uint32_t, BV>>> *nba) {
    for (auto const &s : ss) switch (s->k) {
            case S::Assign: {
                BV x = eval(s->r, env);
                store(s->l, x, env, val, nba);
                break;
            }
            case S::If:
                exec(eval(s->c, env).any() ? s->then_ : s->else_, env, val, nba);
                break;
            case S::Switch: {
                BV t = eval(s->c, env);
                const std::vector<SP> *hit = nullptr, *def = nullptr;
                for (auto const &[k, b] : s->cases) {
                    if (!k)
                        def = &b;
                    else if (t == BV(t.w, *k))
                        hit = &b;
                }
                if (!hit) hit = def;
                if (hit) exec(*hit, env, val, nba);
                break;
            }
            case S::For:
                for (int64_t i = s->start; s->end > s->start ? i < s->end : i > s->end; i += s->step) {
                    env.it[s->iter_id] = i;
                    exec(s->then_, env, val, nba);
                }
                env.it.erase(s->iter_id);
                break;
        }
}

static std::unique_ptr<Sim::I> inst_of(const Design &d, int mi) {
    auto i = std::make_unique<Sim::I>();
    i->m = &d.mods[mi];
    for (auto const &v : i->m->vars) i->val.push_back(BV(v.t.total(), 0));
    for (auto const &k : i->m->insts) i->sub.push_back(inst_of(d, k.mod));
    return i;
}
Sim::Sim(const Design &dd) : d(dd) {
    root = inst_of(d, (int)d.mods.size() - 1);
    snap(*root, prev);
}

void Sim::comb(I &i, bool &changed, bool latch) {
    Env env{i.m, &i.val, {}, nullptr};
    for (auto const &b : i.m->blks) {
        if (b.k == Blk::Seq || (b.k == Blk::Latch) != latch) continue;
        // a block is evaluated on a copy so that only its net effect counts as a change
        std::vector<BV> tmp = i.val;
        Env e2{i.m, &tmp, {}, nullptr};
        exec(b.stmts, e2, tmp, nullptr);
        for (size_t k = 0; k < tmp.size(); k++)
            if (tmp[k] != i.val[k]) {
                i.val[k] = tmp[k];
                changed = true;
            }
    }
    for (size_t n = 0; n < i.sub.size(); n++) {
        auto &ci = *i.sub[n];
        auto const &in = i.m->insts[n];
        for (size_t v = 0; v < in.vars.size(); v++) {
            int pv = in.vars[v];
            if (pv < 0 || i.m->vars[pv].k != VK::InstIn) continue;
            if (ci.val[v] != i.val[pv]) {
                ci.val[v] = i.val[pv];
                changed = true;
            }
        }
        comb(ci, changed, latch);
        for (size_t v = 0; v < in.vars.size(); v++) {
            int pv = in.vars[v];
            if (pv < 0 || i.m->vars[pv].k != VK::InstOut) continue;
            if (ci.val[v] != i.val[pv]) {
                i.val[pv] = ci.val[v];
                changed = true;
            }
        }
    }
    (void)env;
}
void Sim::fix() {
    for (int n = 0; n < 2000; n++) {
        bool ch = false;
        comb(*root, ch, false);
        // latches look at settled values only
        if (!ch) comb(*root, ch, true);
        if (!ch) return;
    }
    throw std::logic_error("rdl: reference does not settle");
}
void Sim::snap(I &i, std::map<const I *, std::vector<BV>> &m) {
    m[&i] = i.val;
    for (auto &s : i.sub) snap(*s, m);
}
void Sim::edges(I &i, const std::map<const I *, std::vector<BV>> &old,
                std::vector<std::function<void()>> &nbas) {
    auto const &o = old.at(&i);
    for (auto const &b : i.m->blks) {
        if (b.k != Blk::Seq) continue;
        bool hit = false;
        for (auto const &[pos, v] : b.sens) {
            bool a = o[v].bit(0), n = i.val[v].bit(0);
            if (a != n && n == pos) hit = true;
        }
        if (!hit) continue;
        std::vector<std::pair<int, std::pair<uint32_t, BV>>> nba;
        Env env{i.m, &i.val, {}, nullptr};
        exec(b.stmts, env, i.val, &nba);
        I *ip = &i;
        nbas.push_back([ip, nba] {
            for (auto const &[v, x] : nba) ip->val[v].insert(x.first, x.second);
        });
    }
    for (auto &s : i.sub) edges(*s, old, nbas);
}
void Sim::settle() {
    fix();
    for (int n = 0; n < 100; n++) {
        std::vector<std::function<void()>> nba;
        edges(*root, prev, nba);
        prev.clear();
        snap(*root, prev);
        if (nba.empty()) return;
        for (auto &f : nba) f();
        fix();
    }
    throw std::logic_error("rdl: clock loop");
}
static int norst_of(const Design &d, int mi, bool count_inst) {
    int n = count_inst ? 1 : d.mods[mi].norst;
    for (auto const &i : d.mods[mi].insts) n += norst_of(d, i.mod, count_inst);
    return n;
}
int Sim::total_norst() const { return norst_of(d, (int)d.mods.size() - 1, false); }
int Sim::instances() const { return norst_of(d, (int)d.mods.size() - 1, true); }

// ---------------------------------------------------------------- rendering
std::string show(const Module &m, const EP &e) {
    auto L = [&](int i) { return show(m, e->a[i]); };
    switch (e->k) {
        case E::Ref: {
            std::string r = m.vars[e->v].name;
            for (auto const &s : e->sel)
                r += s.k == Sel::Dyn     ? "[" + show(m, s.dyn) + "]"
                     : s.k == Sel::Range ? "[" + std::to_string(s.hi) + ":" + std::to_string(s.lo) + "]"
                                         : "[" + std::to_string(s.lo) + "]";
            return r;
        }
        case E::Const:
            return e->c.str() + (e->s ? "s" : "");
        case E::Arg:
            return "arg" + std::to_string(e->id);
        case E::Iter:
            return "it" + std::to_string(e->id);
        case E::CastS:
            return "S(" + L(0) + ")";
        case E::CastU:
            return "U(" + L(0) + ")";
        case E::Ext:
            return "ext" + std::to_string(e->w) + "(" + L(0) + ")";
        case E::Part: {
            auto const &p = e->sel[0];
            return L(0) + (p.k == Sel::Dyn     ? "[" + show(m, p.dyn) + "]"
                           : p.k == Sel::Range ? "[" + std::to_string(p.hi) + ":" + std::to_string(p.lo) + "]"
                                               : "[" + std::to_string(p.lo) + "]");
        }
        case E::Dup:
            return "dup" + std::to_string(e->w) + "(" + L(0) + ")";
        case E::Cat: {
            std::string r = "{";
            for (size_t i = 0; i < e->a.size(); i++) r += (i ? "," : "") + L((int)i);
            return r + "}";
        }
        case E::Mux:
            return "(" + L(0) + "?" + L(1) + ":" + L(2) + ")";
        case E::Call: {
            std::string r = e->fn + "(";
            for (size_t i = 0; i < e->a.size(); i++) r += (i ? "," : "") + L((int)i);
            return r + ")";
        }
        case E::Un:
            return "u" + std::to_string((int)e->op) + "(" + L(0) + ")";
        case E::Bin:
            return "(" + L(0) + " op" + std::to_string((int)e->op) + " " + L(1) + ")";
    }
    return "?";
}
static void show_stmts(const Module &m, const std::vector<SP> &ss, std::string ind, std::string &o) {
    for (auto const &s : ss) switch (s->k) {
            case S::Assign:
                o += ind + show(m, s->l) + " = " + show(m, s->r) + "\n";
                break;
            case S::If:
                o += ind + "if " + show(m, s->c) + "\n";
                show_stmts(m, s->then_, ind + "  ", o);
                if (!s->else_.empty()) o += ind + "else\n";
                show_stmts(m, s->else_, ind + "  ", o);
                break;
            case S::Switch:
                o += ind + "switch " + show(m, s->c) + "\n";
                for (auto const &[k, b] : s->cases) {
                    o += ind + " " + (k ? std::to_string(*k) : "default") + ":\n";
                    show_stmts(m, b, ind + "  ", o);
                }
                break;
            case S::For:
                o += ind + "for it" + std::to_string(s->iter_id) + "=" + std::to_string(s->start) + ".." +
                     std::to_string(s->end) + " step " + std::to_string(s->step) + "\n";
                show_stmts(m, s->then_, ind + "  ", o);
                break;
        }
}
std::string show(const Design &d) {
    std::string o;
    for (auto const &m : d.mods) {
        o += "module " + m.name + "\n";
        for (auto const &v : m.vars) {
            static const char *kn[] = {"in", "out", "wire", "reg", "clk", "rst", "inst_in", "inst_out"};
            o += "  " + std::string(kn[(int)v.k]) + " " + v.name + (v.t.s ? " s" : " u") + std::to_string(v.t.w);
            for (auto x : v.t.dims) o += "[" + std::to_string(x) + "]";
            if (v.t.arr() && !v.t.packed) o += " unpacked";
            o += "\n";
        }
        for (auto const &f : m.funcs)
            o += "  func " + f.name + ": " + (f.cond ? "if " + show(m, f.cond) + " return " + show(m, f.r1) + " " : "") +
                 "return " + show(m, f.r2) + "\n";
        for (auto const &i : m.insts) o += "  inst " + i.name + " of " + d.mods[i.mod].name + "\n";
        for (auto const &b : m.blks) {
            static const char *bn[] = {"cont", "comb", "seq", "latch"};
            o += std::string("  ") + bn[(int)b.k];
            for (auto const &[p, v] : b.sens) o += (p ? " pos " : " neg ") + m.vars[v].name;
            o += "\n";
            show_stmts(m, b.stmts, "    ", o);
        }
    }
    return o;
}

// ---------------------------------------------------------------- generation
static EP mk(E e) { return std::make_shared<E>(std::move(e)); }

uint32_t Gen::width() {
    static const std::vector<uint32_t> pool = {4, 1, 1, 2, 3, 4, 5, 7, 8, 8, 12, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128};
    for (int i = 0; i < 4; i++) {
        uint32_t w = pool[s.draw(cfg.wide ? pool.size() : 13)];
        if (w <= cfg.max_w) return w;
    }
    return 4;
}
std::string Gen::fresh(const std::string &base) {
    std::string n = base;
    for (int i = 0; names.count(n); i++) n = base + "_" + std::to_string(i);
    names.insert(n);
    return n;
}
EP Gen::ref(int v) {
    E e;
    e.k = E::Ref;
    e.v = v;
    auto const &t = m->vars[v].t;
    e.w = t.total();
    e.s = t.s;
    return mk(e);
}
EP Gen::konst(uint32_t w, uint64_t v) {
    E e;
    e.k = E::Const;
    e.w = w;
    e.c = BV(w, v);
    return mk(e);
}
static EP castu(EP x) {
    E e;
    e.k = E::CastU;
    e.w = x->w;
    e.a = {x};
    return mk(e);
}
static EP casts(EP x) {
    E e;
    e.k = E::CastS;
    e.w = x->w;
    e.s = true;
    e.a = {x};
    return mk(e);
}
// makes any expression fit (w, sg)
EP Gen::conv(EP e, uint32_t w, bool sg) {
    if (e->w > w) {
        if (e->k == E::Ref && e->sel.empty() && !m->vars[e->v].t.arr()) {
            uint32_t lo = (uint32_t)s.draw(e->w - w + 1);
            E r = *e;
            if (w == 1 && s.flip())
                r.sel.push_back({Sel::Idx, lo, lo, nullptr});
            else
                r.sel.push_back({Sel::Range, lo + w - 1, lo, nullptr});
            if (w == 1) r.sel.back() = {Sel::Idx, lo, lo, nullptr};
            r.w = w;
            r.s = false;
            e = mk(r);
        } else {
            return sg ? skonst(w, s.bits(w > 64 ? 64 : w)) : konst(w, s.bits(w > 64 ? 64 : w));
        }
    } else if (e->w < w) {
        E r;
        r.k = E::Ext;
        r.w = w;
        r.s = e->s;
        r.a = {e};
        e = mk(r);
    }
    if (e->s != sg) e = sg ? casts(e) : castu(e);
    return e;
}
// a random element of an array variable (full index chain)
EP Gen::elem(int v, bool allow_dyn) {
    auto const &t = m->vars[v].t;
    E r;
    r.k = E::Ref;
    r.v = v;
    for (auto n : t.dims) {
        // an iterator that stays in range
        std::vector<It> ok;
        for (auto const &i : iters)
            if (i.lo >= 0 && i.hi < (int64_t)n) ok.push_back(i);
        if (allow_dyn && !ok.empty() && s.chance(2, 3)) {
            auto const &i = ok[s.draw(ok.size())];
            E it;
            it.k = E::Iter;
            it.w = 32;
            it.id = i.id;
            it.fn = i.name;
            r.sel.push_back({Sel::Dyn, 0, 0, mk(it)});
            continue;
        }
        if (allow_dyn && cfg.dyn && n > 1 && (n & (n - 1)) == 0 && s.chance(1, 3)) {
            uint32_t need = 0;
            while ((1u << need) < n) need++;
            // a variable (or slice of one) of that width
            std::vector<int> c;
            for (int x : readable)
                if (!m->vars[x].t.arr() && !m->vars[x].t.s && m->vars[x].t.w >= need) c.push_back(x);
            if (!c.empty()) {
                EP ix = ref(s.pick(c));
                if (ix->w != need) ix = conv(ix, need, false);
                if (ix->k == E::Ref) {
                    r.sel.push_back({Sel::Dyn, 0, 0, ix});
                    continue;
                }
            }
        }
        uint32_t i = (uint32_t)s.draw(n);
        r.sel.push_back({Sel::Idx, i, i, nullptr});
    }
    r.w = t.w;
    r.s = t.s;
    return mk(r);
}
// a signed constant, or a cast of an unsigned one
EP Gen::skonst(uint32_t w, uint64_t v) {
    EP k = konst(w, v);
    if (w > 64 || s.flip()) return casts(k);
    E e = *k;
    e.s = true;
    return mk(e);
}
EP Gen::leaf(uint32_t w, bool sg) {
    if (fn) {
        if (s.chance(1, 6)) return sg ? skonst(w, s.bits(w > 64 ? 64 : w)) : konst(w, s.bits(w > 64 ? 64 : w));
        int i = (int)s.draw(fn->args.size());
        E a;
        a.k = E::Arg;
        a.id = i;
        a.fn = fn->args[i].first;
        a.w = fn->args[i].second;
        EP e = mk(a);
        if (e->w > w) {
            E r;
            r.k = E::Ref;  // cannot slice generically: fall back to a constant
            return sg ? skonst(w, s.bits(w > 64 ? 64 : w)) : konst(w, s.bits(w > 64 ? 64 : w));
        }
        return conv(e, w, sg);
    }
    uint64_t r = s.draw(8);
    if (r == 7 || readable.empty()) {
        EP k = konst(w, s.bits(w > 64 ? 64 : w));
        return sg ? (k->w <= 64 ? skonst(w, k->c.u64()) : casts(k)) : k;
    }
    // prefer an exact match
    std::vector<int> exact, arrs;
    for (int v : readable) {
        auto const &t = m->vars[v].t;
        if (t.arr())
            arrs.push_back(v);
        else if (t.w == w && t.s == sg)
            exact.push_back(v);
    }
    if (!exact.empty() && r < 4) return ref(s.pick(exact));
    if (!arrs.empty() && r == 6) {
        EP e = elem(s.pick(arrs), true);
        if (e->w > w) {
            E x = *e;
            uint32_t lo = (uint32_t)s.draw(e->w - w + 1);
            if (w == 1)
                x.sel.push_back({Sel::Idx, lo, lo, nullptr});
            else
                x.sel.push_back({Sel::Range, lo + w - 1, lo, nullptr});
            x.w = w;
            x.s = false;
            e = mk(x);
        }
        return conv(e, w, sg);
    }
    int v = s.pick(readable);
    auto const &t = m->vars[v].t;
    if (t.arr()) {
        EP e = elem(v, true);
        if (e->w > w) {
            E x = *e;
            uint32_t lo = (uint32_t)s.draw(e->w - w + 1);
            if (w == 1)
                x.sel.push_back({Sel::Idx, lo, lo, nullptr});
            else
                x.sel.push_back({Sel::Range, lo + w - 1, lo, nullptr});
            x.w = w;
            x.s = false;
            e = mk(x);
        }
        return conv(e, w, sg);
    }
    if (w == 1 && t.w > 1 && cfg.dyn && s.chance(1, 4) && (t.w & (t.w - 1)) == 0) {
        uint32_t need = 0;
        while ((1u << need) < t.w) need++;
        std::vector<int> c;
        for (int x : readable)
            if (!m->vars[x].t.arr() && !m->vars[x].t.s && m->vars[x].t.w == need) c.push_back(x);
        if (!c.empty()) {
            E x;
            x.k = E::Ref;
            x.v = v;
            x.w = 1;
            x.sel.push_back({Sel::Dyn, 0, 0, ref(s.pick(c))});
            return conv(mk(x), w, sg);
        }
    }
    return conv(ref(v), w, sg);
}
EP Gen::cond(int depth) {
    if (depth <= 0) return leaf(1, false);
    uint64_t r = s.draw(12);
    E e;
    e.w = 1;
    if (r < 2) return leaf(1, false);
    if (r >= 10) return expr(1, false, depth);
    bool sg = cfg.signed_ && s.chance(1, 4);
    uint32_t w = width();
    if (r < 4) {
        static const std::vector<ExprOp> ops = {ExprOp::UOr, ExprOp::UAnd, ExprOp::UXor, ExprOp::UNot};
        e.k = E::Un;
        e.op = s.pick(ops);
        EP x = expr(w, sg, depth - 1);
        e.a = {x};
        return mk(e);
    }
    if (r < 5) {
        e.k = E::Bin;
        e.op = s.flip() ? ExprOp::LAnd : ExprOp::LOr;
        if (s.chance(1, 3)) {
            uint32_t lw = width();
            bool ls = cfg.signed_ && s.chance(1, 4);
            e.a = {expr(lw, ls, depth - 1), expr(lw, ls, depth - 1)};
        } else
            e.a = {cond(depth - 1), cond(depth - 1)};
        return mk(e);
    }
    static const std::vector<ExprOp> rel = {ExprOp::Eq, ExprOp::LessThan, ExprOp::GreaterThan, ExprOp::LessEqThan, ExprOp::GreaterEqThan, ExprOp::Neq};
    e.k = E::Bin;
    e.op = s.pick(rel);
    e.a = {expr(w, sg, depth - 1), expr(w, sg, depth - 1)};
    return mk(e);
}
// bits of an expression
EP Gen::part(uint32_t w, bool sg, int depth) {
    uint32_t iw = w + (uint32_t)s.draw(w > 40 ? 3 : 9);
    bool is = cfg.signed_ && s.chance(1, 3);
    E e;
    e.k = E::Part;
    e.w = w;
    e.s = false;
    EP dyn;
    if (w == 1 && cfg.dyn && s.chance(1, 3)) {
        uint32_t need = 1 + (uint32_t)s.draw(3);
        std::vector<int> c;
        for (int x : readable)
            if (!fn && !m->vars[x].t.arr() && !m->vars[x].t.s && m->vars[x].t.w >= need) c.push_back(x);
        if (!c.empty()) {
            EP ix = ref(s.pick(c));
            if (ix->w != need) ix = conv(ix, need, false);
            if (ix->k == E::Ref) {
                dyn = ix;
                iw = 1u << need;
            }
        }
    }
    EP x = expr(iw, is, depth);
    // calls and loop variables are not sliced
    if (x->k == E::Call || x->k == E::Iter) return conv(x->w == w ? x : castu(x), w, sg);
    e.a = {x};
    uint32_t lo = (uint32_t)s.draw(iw - w + 1);
    if (dyn)
        e.sel = {{Sel::Dyn, 0, 0, dyn}};
    else if (w == 1)
        e.sel = {{Sel::Idx, lo, lo, nullptr}};
    else
        e.sel = {{Sel::Range, lo + w - 1, lo, nullptr}};
    return conv(mk(e), w, sg);
}
EP Gen::expr(uint32_t w, bool sg, int depth) {
    if (depth <= 0) return leaf(w, sg);
    uint64_t r = s.draw(20);
    E e;
    e.w = w;
    e.s = sg;
    if (r < 3) return leaf(w, sg);
    if (cfg.parts && r < 19 && s.chance(1, 12)) return part(w, sg, depth - 1);
    if (r < 5) {
        static const std::vector<ExprOp> ops = {ExprOp::UInvert, ExprOp::UMinus, ExprOp::UPlus};
        e.k = E::Un;
        e.op = s.pick(ops);
        e.a = {expr(w, sg, depth - 1)};
        return mk(e);
    }
    if (r < 9) {
        static const std::vector<ExprOp> ops = {ExprOp::Add, ExprOp::Minus, ExprOp::And, ExprOp::Or, ExprOp::Xor, ExprOp::Multiply};
        e.k = E::Bin;
        e.op = s.pick(ops);
        e.a = {expr(w, sg, depth - 1), expr(w, sg, depth - 1)};
        return mk(e);
    }
    if (r < 10) {
        e.k = E::Bin;
        e.op = s.flip() ? ExprOp::Divide : ExprOp::Mod;
        EP dv;
        if (s.flip()) {
            uint64_t k = s.bits(w > 64 ? 64 : w);
            if (!k) k = 1;
            dv = konst(w, k);
            if (sg) dv = skonst(w, k);
        } else {
            E o;
            o.k = E::Bin;
            o.op = ExprOp::Or;
            o.w = w;
            o.s = sg;
            EP one = konst(w, 1);
            o.a = {expr(w, sg, depth - 1), sg ? skonst(w, 1) : one};
            dv = mk(o);
        }
        e.a = {expr(w, sg, depth - 1), dv};
        return mk(e);
    }
    if (r < 12) {
        static const std::vector<ExprOp> ops = {ExprOp::ShiftLeft, ExprOp::LogicalShiftRight, ExprOp::SignedShiftRight};
        e.k = E::Bin;
        e.op = s.pick(ops);
        EP amt;
        if (s.flip()) {
            amt = konst(w, s.draw(w > 62 || (w + 2) < (1ull << w) ? w + 2 : (1ull << w)));
            if (sg) amt = skonst(w, amt->c.u64());
        } else
            amt = expr(w, sg, depth - 1);
        e.a = {expr(w, sg, depth - 1), amt};
        return mk(e);
    }
    if (r < 14) {
        e.k = E::Mux;
        e.a = {cond(depth - 1), expr(w, sg, depth - 1), expr(w, sg, depth - 1)};
        // a constant condition has no generator in kratos
        if (e.a[0]->k == E::Const || e.a[0]->k == E::CastS || e.a[0]->k == E::CastU) {
            if (readable.empty()) return leaf(w, sg);
            E red;
            red.k = E::Un;
            red.op = ExprOp::UOr;
            red.w = 1;
            EP x = fn ? leaf(1, false) : nullptr;
            if (!x) {
                std::vector<int> sc;
                for (int v : readable)
                    if (!m->vars[v].t.arr() && !m->vars[v].t.s) sc.push_back(v);
                if (sc.empty()) return leaf(w, sg);
                x = ref(s.pick(sc));
            }
            red.a = {x};
            e.a[0] = mk(red);
        }
        return mk(e);
    }
    if (r < 16 && w >= 2) {
        // concatenation
        e.k = E::Cat;
        e.s = false;
        uint32_t left = w;
        int parts = 2 + (int)s.draw(2);
        for (int i = 0; i < parts && left > 0; i++) {
            uint32_t pw = (i == parts - 1) ? left : 1 + (uint32_t)s.draw(left - (i == 0 ? 1 : 0));
            if (pw > left) pw = left;
            e.a.push_back(expr(pw, false, depth - 1));
            left -= pw;
        }
        if (left) e.a.push_back(expr(left, false, depth - 1));
        return conv(mk(e), w, sg);
    }
    if (r < 17) {
        // extension of something narrower
        uint32_t iw = 1 + (uint32_t)s.draw(w);
        bool is = sg;
        e.k = E::Ext;
        e.a = {expr(iw, is, depth - 1)};
        return mk(e);
    }
    if (r < 18 && w >= 2) {
        std::vector<uint32_t> div;
        for (uint32_t k = 1; k < w; k++)
            if (w % k == 0) div.push_back(k);
        uint32_t iw = s.pick(div);
        e.k = E::Dup;
        e.s = false;
        e.a = {expr(iw, false, depth - 1)};
        return conv(mk(e), w, sg);
    }
    if (r < 19 && w == 1) {
        EP x = cond(depth);
        if (x->s != sg) x = sg ? casts(x) : castu(x);
        return x;
    }
    if (r < 19 && cfg.signed_) {
        EP x = expr(w, !sg, depth - 1);
        return sg ? casts(x) : castu(x);
    }
    if (m && !m->funcs.empty() && !fn && r == 19 && !sg) {
        std::vector<Func *> ok;
        for (auto &f : m->funcs)
            if (f.w == w) ok.push_back(&f);
        if (ok.empty()) {
            Func *f = &m->funcs[s.draw(m->funcs.size())];
            E k;
            k.k = E::Call;
            k.w = f->w;
            k.fn = f->name;
            for (auto &a : f->args) k.a.push_back(expr(a.second, false, depth - 1));
            if (k.w > w) return leaf(w, sg);
            return conv(mk(k), w, sg);
        }
        Func *f = s.pick(ok);
        e.k = E::Call;
        e.fn = f->name;
        for (auto &a : f->args) e.a.push_back(expr(a.second, false, depth - 1));
        return mk(e);
    }
    return leaf(w, sg);
}

Ty Gen::type(bool port) {
    Ty t;
    t.w = width();
    if (cfg.arrays && (!port || cfg.arr_ports) && s.chance(1, 5)) {
        static const std::vector<uint32_t> dims = {2, 4, 3, 2, 5, 8};
        std::vector<int> old;
        for (size_t i = 0; m && i < m->vars.size(); i++)
            if (m->vars[i].t.arr() && (cfg.unpacked || m->vars[i].t.packed)) old.push_back((int)i);
        if (!old.empty() && s.flip()) return m->vars[s.pick(old)].t;
        t.dims.push_back(s.pick(dims));
        if (s.chance(1, 4)) t.dims.push_back(2 + (uint32_t)s.draw(2));
        if (cfg.one_dims && t.dims.size() == 1 && s.chance(1, 3)) t.dims.insert(t.dims.begin(), 1);
        while (t.total() > 400) t.w = t.w > 1 ? t.w / 2 : (t.dims.pop_back(), t.w);
        t.packed = !(cfg.unpacked && s.chance(1, 3));
        if (t.dims.empty()) t.packed = true;
    } else if (cfg.signed_ && s.chance(1, 5))
        t.s = true;
    return t;
}
int Gen::add_var(const std::string &n, Ty t, VK k) {
    V v;
    v.name = fresh(n);
    v.t = t;
    v.k = k;
    m->vars.push_back(v);
    return (int)m->vars.size() - 1;
}
SP Gen::assign(EP l, EP r) {
    auto p = std::make_shared<S>();
    p->k = S::Assign;
    p->l = l;
    p->r = r;
    return p;
}
// statements that (possibly) assign the targets
std::vector<SP> Gen::body(const std::vector<EP> &targets, int depth, bool seq) {
    std::vector<SP> r;
    int n = 1 + (int)s.draw(2);
    for (int i = 0; i < n; i++) {
        uint64_t k = depth > 0 ? s.draw(6) : 0;
        auto p = std::make_shared<S>();
        if (k == 2 && cfg.ifchain && s.flip()) {
            if (SP q = if_chain(targets, depth, seq, false)) {
                r.push_back(q);
                continue;
            }
        }
        if (k == 3 || k == 4) {
            p->k = S::If;
            p->c = cond(cfg.depth - 1);
            if (p->c->k == E::Const || p->c->k == E::CastU) {
                k = 0;
            } else {
                p->then_ = body(targets, depth - 1, seq);
                if (s.flip()) p->else_ = body(targets, depth - 1, seq);
                r.push_back(p);
                continue;
            }
        }
        if (k == 5 && cfg.switches) {
            uint32_t w = 1 + (uint32_t)s.draw(4);
            EP t = expr(w, false, s.flip() ? 0 : 1);
            if (t->k != E::Const) {
                p->k = S::Switch;
                p->c = t;
                std::set<uint64_t> used;
                int nc = 1 + (int)s.draw(3);
                for (int j = 0; j < nc; j++) {
                    uint64_t v = s.draw(1ull << w);
                    if (!used.insert(v).second) continue;
                    p->cases.push_back({v, body(targets, depth - 1, seq)});
                }
                if (s.flip()) p->cases.push_back({std::nullopt, body(targets, depth - 1, seq)});
                r.push_back(p);
                continue;
            }
        }
        EP t = s.pick(targets);
        // whole, or a slice of the target
        if (cfg.slices_lhs && t->k == E::Ref && t->sel.empty() && t->w > 1 && !t->s && !m->vars[t->v].t.arr() && s.chance(1, 4)) {
            E x = *t;
            uint32_t a = (uint32_t)s.draw(t->w), b = (uint32_t)s.draw(t->w);
            if (a < b) std::swap(a, b);
            if (a == b)
                x.sel.push_back({Sel::Idx, a, a, nullptr});
            else
                x.sel.push_back({Sel::Range, a, b, nullptr});
            x.w = a - b + 1;
            x.s = false;
            t = mk(x);
        }
        r.push_back(assign(t, expr(t->w, t->s, cfg.depth - 1)));
    }
    return r;
}
// statements that assign every target on every path
std::vector<SP> Gen::full(const std::vector<EP> &targets, int depth, bool seq) {
    std::vector<SP> r;
    uint64_t k = depth > 0 ? s.draw(4) : 0;
    auto p = std::make_shared<S>();
    if (k == 1 && cfg.ifchain && s.flip()) {
        if (SP q = if_chain(targets, depth, seq, true)) return {q};
    }
    if (k == 2) {
        p->k = S::If;
        p->c = cond(cfg.depth - 1);
        if (p->c->k != E::Const && p->c->k != E::CastU) {
            p->then_ = full(targets, depth - 1, seq);
            p->else_ = full(targets, depth - 1, seq);
            return {p};
        }
    } else if (k == 3 && cfg.switches) {
        uint32_t w = 1 + (uint32_t)s.draw(4);
        EP t = expr(w, false, s.flip() ? 0 : 1);
        if (t->k != E::Const) {
            p->k = S::Switch;
            p->c = t;
            std::set<uint64_t> used;
            int nc = 1 + (int)s.draw(3);
            for (int j = 0; j < nc; j++) {
                uint64_t v = s.draw(1ull << w);
                if (!used.insert(v).second) continue;
                p->cases.push_back({v, full(targets, depth - 1, seq)});
            }
            p->cases.push_back({std::nullopt, full(targets, depth - 1, seq)});
            return {p};
        }
    }
    for (auto const &t : targets) r.push_back(assign(t, expr(t->w, t->s, cfg.depth - 1)));
    if (!seq && r.size() > 1) s.shuffle(r);
    return r;
}
// if (x == c0) .. else if (x == c1) ..; `complete`: every path assigns every target
SP Gen::if_chain(const std::vector<EP> &targets, int depth, bool seq, bool complete) {
    std::vector<EP> xs;
    for (int v : readable) {
        auto const &t = m->vars[v].t;
        if (t.arr() || t.s) continue;
        if (t.w <= 3 || (t.w <= 70 && s.chance(1, 4))) xs.push_back(ref(v));
        if (t.w > 3 && s.chance(1, 3)) {
            E x = *ref(v);
            uint32_t lo = (uint32_t)s.draw(t.w - 2), n = 1 + (uint32_t)s.draw(2);
            if (n == 1)
                x.sel.push_back({Sel::Idx, lo, lo, nullptr});
            else
                x.sel.push_back({Sel::Range, lo + 1, lo, nullptr});
            x.w = n;
            xs.push_back(mk(x));
        }
    }
    if (xs.empty()) return nullptr;
    EP x = s.pick(xs);
    uint64_t span = x->w >= 8 ? 256 : 1ull << x->w;
    std::vector<uint64_t> ks;
    uint64_t mode = s.draw(4);
    if (mode == 0 && span <= 8) {  // every value, in some order
        for (uint64_t i = 0; i < span; i++) ks.push_back(i);
        s.shuffle(ks);
    } else {
        int n = 2 + (int)s.draw(3);
        for (int i = 0; i < n; i++) {
            uint64_t k = s.draw(span);
            if (mode != 1 && std::find(ks.begin(), ks.end(), k) != ks.end()) continue;  // mode 1: duplicates allowed
            ks.push_back(k);
        }
    }
    bool has_else = complete || s.flip();
    auto arm = [&]() { return complete ? full(targets, depth - 1, seq) : body(targets, depth - 1, seq); };
    SP top, at;
    for (auto k : ks) {
        auto p = std::make_shared<S>();
        p->k = S::If;
        E e;
        e.k = E::Bin;
        e.op = ExprOp::Eq;
        e.w = 1;
        e.a = {x, konst(x->w, k)};
        p->c = mk(e);
        p->then_ = arm();
        if (!top)
            top = p;
        else
            at->else_ = {p};
        at = p;
    }
    if (has_else) at->else_ = arm();
    // statements after a nested chain element
    if (s.chance(1, 5)) {
        SP q = top;
        int hop = (int)s.draw(ks.size());
        while (hop-- > 0 && q->else_.size() == 1 && q->else_[0]->k == S::If) q = q->else_[0];
        if (!q->else_.empty()) {
            auto more = body(targets, 0, seq);
            q->else_.insert(q->else_.end(), more.begin(), more.end());
        }
    }
    c.label("if-chain");
    return top;
}
// drives every element of array v
void Gen::drive_array(int v, std::vector<SP> &out, bool seq, bool reset) {
    auto const t = m->vars[v].t;
    bool loops = cfg.loops && s.flip();
    if (loops) {
        auto p = std::make_shared<S>();
        p->k = S::For;
        p->iter_id = iter_cnt++;
        p->iter = fresh(std::string(1, "ijk"[s.draw(3)]) + (s.flip() ? "" : "t"));
        bool down = s.chance(1, 4);
        p->start = down ? (int64_t)t.dims[0] - 1 : 0;
        p->end = down ? -1 : (int64_t)t.dims[0];
        p->step = down ? -1 : 1;
        if (down) {  // a descending loop has a signed iterator; indices need a resize kratos cannot always do
            p->start = 0;
            p->end = t.dims[0];
            p->step = 1;
        }
        iters.push_back({p->iter_id, p->iter, 0, (int64_t)t.dims[0] - 1});
        E it;
        it.k = E::Iter;
        it.w = 32;
        it.id = p->iter_id;
        it.fn = p->iter;
        E l;
        l.k = E::Ref;
        l.v = v;
        l.sel.push_back({Sel::Dyn, 0, 0, mk(it)});
        std::vector<E> ls = {l};
        if (t.dims.size() == 2) {
            ls.clear();
            for (uint32_t j = 0; j < t.dims[1]; j++) {
                E l2 = l;
                l2.sel.push_back({Sel::Idx, j, j, nullptr});
                ls.push_back(l2);
            }
        }
        for (auto &x : ls) {
            x.w = t.w;
            p->then_.push_back(assign(mk(x), reset ? konst(t.w, s.bits(t.w > 64 ? 64 : t.w)) : expr(t.w, false, cfg.depth - 2)));
        }
        iters.pop_back();
        out.push_back(p);
        return;
    }
    // some rows at once
    uint32_t done_lo = 1, done_hi = 0, row = t.elems() / t.dims[0];
    std::vector<int> same;
    for (int o : readable)
        if (o != v && m->vars[o].t == t) same.push_back(o);
    if (!reset && cfg.array_ranges && t.dims[0] > 1 && !same.empty() && s.flip()) {
        uint32_t n = 2 + (uint32_t)s.draw(t.dims[0] - 1), lo = (uint32_t)s.draw(t.dims[0] - n + 1), lo2 = (uint32_t)s.draw(t.dims[0] - n + 1);
        E l, r;
        l.k = r.k = E::Ref;
        l.v = v;
        r.v = s.pick(same);
        l.w = r.w = n * row * t.w;
        l.sel.push_back({Sel::Range, lo + n - 1, lo, nullptr});
        r.sel.push_back({Sel::Range, lo2 + n - 1, lo2, nullptr});
        out.push_back(assign(mk(l), mk(r)));
        done_lo = lo, done_hi = lo + n - 1;
    }
    for (uint32_t i = 0; i < t.elems(); i++) {
        if (i / row >= done_lo && i / row <= done_hi) continue;
        E l;
        l.k = E::Ref;
        l.v = v;
        l.w = t.w;
        uint32_t x = i;
        std::vector<uint32_t> idx(t.dims.size());
        for (int k = (int)t.dims.size() - 1; k >= 0; k--) {
            idx[k] = x % t.dims[k];
            x /= t.dims[k];
        }
        for (auto k : idx) l.sel.push_back({Sel::Idx, k, k, nullptr});
        out.push_back(assign(mk(l), reset ? konst(t.w, s.bits(t.w > 64 ? 64 : t.w)) : expr(t.w, false, cfg.depth - 2)));
    }
    (void)seq;
}
// runs of `if (x == k)` statements, the shape merge_if_block is meant for
void Gen::merge_ifs(const std::vector<EP> &targets, std::vector<SP> &out) {
    std::vector<EP> xs;
    for (int v : readable)
        if (!m->vars[v].t.arr() && !m->vars[v].t.s && m->vars[v].t.w <= 40) xs.push_back(ref(v));
    if (xs.empty()) return;
    EP x = s.pick(xs), y = s.pick(xs);
    int n = 2 + (int)s.draw(4);
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 6)) {
            auto more = body(targets, 1, false);
            out.insert(out.end(), more.begin(), more.end());
            continue;
        }
        EP z = s.chance(1, 4) ? y : x;
        auto p = std::make_shared<S>();
        p->k = S::If;
        E e;
        e.k = E::Bin;
        e.op = ExprOp::Eq;
        e.w = 1;
        e.a = {z, konst(z->w, s.draw(z->w > 2 ? 4 : 1ull << z->w))};
        p->c = mk(e);
        p->then_ = body(targets, s.chance(1, 4) ? 1 : 0, false);
        if (s.chance(1, 6)) p->else_ = body(targets, 0, false);
        out.push_back(p);
    }
    c.label("merge-if");
}
void Gen::comb_block(const std::vector<int> &vs) {
    Blk b;
    b.k = Blk::Comb;
    std::vector<EP> scal;
    for (int v : vs) {
        if (m->vars[v].t.arr())
            drive_array(v, b.stmts, false, false);
        else
            scal.push_back(ref(v));
    }
    if (!scal.empty()) {
        if (cfg.merge_if && s.flip()) {
            b.attr = "merge_if_block";
            for (auto &t : scal) b.stmts.push_back(assign(t, expr(t->w, t->s, s.flip() ? 0 : 1)));
            merge_ifs(scal, b.stmts);
        } else if (s.flip() && cfg.if_no_else) {
            for (auto &t : scal) b.stmts.push_back(assign(t, expr(t->w, t->s, s.flip() ? 0 : 1)));
            if (cfg.chain_read)
                for (auto &t : scal) readable.push_back(t->v);
            auto more = body(scal, cfg.block_depth, false);
            b.stmts.insert(b.stmts.end(), more.begin(), more.end());
            if (cfg.chain_read) {
                for (size_t i = 0; i < scal.size(); i++) readable.pop_back();
                c.label("chain-read");
            }
        } else {
            auto f = full(scal, cfg.block_depth, false);
            b.stmts.insert(b.stmts.end(), f.begin(), f.end());
        }
    }
    // a dynamically indexed overwrite of an array
    if (cfg.dyn)
        for (int v : vs)
            if (m->vars[v].t.arr() && s.flip()) {
                EP l = elem(v, true);
                SP a = assign(l, expr(l->w, false, 1));
                if (s.flip()) {
                    auto p = std::make_shared<S>();
                    p->k = S::If;
                    p->c = cond(1);
                    if (p->c->k != E::Const && p->c->k != E::CastU) {
                        p->then_ = {a};
                        b.stmts.push_back(p);
                        continue;
                    }
                }
                b.stmts.push_back(a);
            }
    m->blks.push_back(b);
}

// a module that connects inputs to outputs, or nearly so
int Gen::pass_module() {
    Module mod;
    int self = (int)d->mods.size();
    mod.name = "mod" + std::to_string(self);
    Module *sm = m;
    auto sr = readable;
    auto sn = names;
    m = &mod;
    names.clear();
    readable.clear();
    int n = 1 + (int)s.draw(3);
    uint64_t kind = s.draw(8);  // 0-4: pure; otherwise one thing differs
    std::vector<int> in, out;
    for (int i = 0; i < n; i++) in.push_back(add_var(s.flip() ? "in" : "x", type(true), VK::In));
    readable = in;
    for (int i = 0; i < n; i++) out.push_back(add_var(s.flip() ? "out" : "y", m->vars[in[i]].t, VK::Out));
    std::vector<SP> st;
    for (int i = 0; i < n; i++) st.push_back(assign(ref(out[i]), ref(in[i])));
    if (kind == 5) {  // one output computes something
        auto &t = m->vars[out[0]].t;
        if (!t.arr()) st[0]->r = expr(t.w, t.s, 2);
    } else if (kind == 6 && n > 1 && m->vars[in[0]].t == m->vars[in[1]].t) {
        st[0]->r = ref(in[1]);  // one input twice, one unused
    } else if (kind == 7) {
        int v = add_var("extra", m->vars[in[0]].t, VK::Out);
        st.push_back(assign(ref(v), ref(in[0])));
        out.push_back(v);
    }
    s.shuffle(st);
    bool blk = s.chance(1, 5);
    for (auto &x : st) {
        Blk b;
        b.k = blk ? Blk::Comb : Blk::Cont;
        b.stmts = {x};
        m->blks.push_back(b);
    }
    c.label("pass-through");
    m = sm;
    readable = sr;
    names = sn;
    d->mods.push_back(mod);
    return self;
}
// special shapes of wiring; false: none produced
bool Gen::shape() {
    std::vector<int> ks;
    if (cfg.chains) ks.push_back(0);
    if (cfg.bitcopy) ks.push_back(1), ks.push_back(2);
    if (cfg.constwire) ks.push_back(3);
    if (cfg.out_chain) ks.push_back(4);
    if (ks.empty()) return false;
    auto cont = [&](EP l, EP r) {
        Blk b;
        b.k = Blk::Cont;
        b.stmts = {assign(l, r)};
        return b;
    };
    auto bit = [&](int v, uint32_t i, uint32_t n) {
        E x = *ref(v);
        if (n == 1)
            x.sel.push_back({Sel::Idx, i, i, nullptr});
        else
            x.sel.push_back({Sel::Range, i + n - 1, i, nullptr});
        x.w = n;
        x.s = false;
        return mk(x);
    };
    switch (s.pick(ks)) {
        case 0:
        case 4: {
            if (readable.empty()) return false;
            int x = s.pick(readable);
            int n = 2 + (int)s.draw(4);
            std::vector<Blk> bs;
            for (int i = 0; i < n; i++) {
                bool port = cfg.out_chain && s.chance(1, 5);
                int w = add_var(port ? "oc" : "w", m->vars[x].t, port ? VK::Out : VK::Wire);
                bs.push_back(cont(ref(w), ref(x)));
                if (i == n - 1 || s.chance(1, 3)) {
                    if (!port || cfg.out_read) readable.push_back(w);
                }
                x = w;
                if (port && !cfg.out_read) break;
            }
            if (s.chance(1, 3)) s.shuffle(bs);
            for (auto &b : bs) m->blks.push_back(b);
            c.label("wire-chain");
            return true;
        }
        case 1:
        case 2: {
            std::vector<int> xs;
            for (int v : readable)
                if (!m->vars[v].t.arr() && !m->vars[v].t.s && m->vars[v].t.w >= 2 && m->vars[v].t.w <= 10) xs.push_back(v);
            if (xs.empty()) return false;
            int x = s.pick(xs), x2 = s.pick(xs);
            uint32_t w = m->vars[x].t.w;
            Ty t;
            t.w = w;
            if (s.chance(1, 6)) t.w = 1 + (uint32_t)s.draw(w + 2);
            if (t.w < 2) t.w = 2;
            int v = add_var("w", t, VK::Wire);
            std::vector<SP> st;
            uint64_t mode = s.draw(5);
            uint32_t chunk = s.chance(1, 4) ? 2 : 1;
            for (uint32_t i = 0; i < t.w; i += chunk) {
                uint32_t n = std::min(chunk, t.w - i);
                uint32_t from = mode == 1 ? w - n - std::min(i, w - n) : mode == 2 ? (i + 1) % w : i;
                if (from + n > w) from = w - n;
                EP r = bit(x, from, n);
                if (mode == 3 && s.chance(1, 3)) r = expr(n, false, 1);
                if (mode == 4 && s.chance(1, 3) && m->vars[x2].t.w >= from + n) r = bit(x2, from, n);
                st.push_back(assign(bit(v, i, n), r));
            }
            if (s.chance(1, 3)) s.shuffle(st);
            Blk b;
            b.k = s.chance(1, 3) ? Blk::Comb : Blk::Cont;
            b.stmts = st;
            if (b.k == Blk::Comb && s.flip()) {
                // rewritten afterwards, or in between
                size_t at = s.draw(st.size() + 1);
                uint32_t i = (uint32_t)s.draw(t.w);
                b.stmts.insert(b.stmts.begin() + at, assign(bit(v, i, 1), expr(1, false, 1)));
                if (at == 0 || s.flip()) b.stmts.insert(b.stmts.begin(), assign(ref(v), expr(t.w, false, 1)));
            }
            m->blks.push_back(b);
            readable.push_back(v);
            c.label("bit-copy");
            return true;
        }
        default: {
            Ty t;
            t.w = width();
            int v = add_var("k", t, VK::Wire);
            m->blks.push_back(cont(ref(v), konst(t.w, s.bits(t.w > 64 ? 64 : t.w))));
            readable.push_back(v);
            c.label("const-wire");
            return true;
        }
    }
}

int Gen::module(int level, bool top) {
    // children first
    std::vector<int> kids;
    if (level > 0) {
        int n = 1 + (int)s.draw(2);
        for (int i = 0; i < n; i++) {
            Module *sm = m;
            auto sr = readable;
            auto sn = names;
            kids.push_back(module(level - 1, false));
            m = sm;
            readable = sr;
            names = sn;
        }
        if (cfg.pass_through && s.flip()) kids.push_back(pass_module());
    }
    Module mod;
    int self = (int)d->mods.size();
    mod.name = top ? "top" : "mod" + std::to_string(self);
    m = &mod;
    readable.clear();
    names.clear();
    static const std::vector<std::string> nm = {"a", "b", "c", "d", "x", "y", "data", "v"};
    auto pname = [&](const char *pre) {
        if (cfg.awkward_names && s.chance(1, 3)) {
            static const std::vector<std::string> odd = {"inst0_a", "inst0_out", "top", "mod0", "a_0", "a_1", "out_0", "u_inst", "inst1_b", "clk_en", "i", "j", "in_0", "x_x", "A", "_t"};
            return s.pick(odd);
        }
        return s.flip() ? s.pick(nm) : std::string(pre);
    };
    int clk = -1, rst = -1;
    bool has_seq = false;
    for (int k : kids)
        for (auto const &v : d->mods[k].vars)
            if (v.k == VK::Clk) has_seq = true;
    if (cfg.seq && s.chance(2, 3)) has_seq = true;
    if (has_seq) {
        clk = add_var("clk", Ty{}, VK::Clk);
        rst = add_var("rst_n", Ty{}, VK::Rst);
        m->vars[rst].rst_high = s.flip();
        // one polarity for the whole design
        for (auto const &dm : d->mods)
            for (auto const &v : dm.vars)
                if (v.k == VK::Rst) m->vars[rst].rst_high = v.rst_high;
    }
    int n_in = 1 + (int)s.draw(cfg.max_in);
    for (int i = 0; i < n_in; i++) readable.push_back(add_var(pname("in"), type(true), VK::In));
    // functions
    if (cfg.functions && s.chance(1, 3)) {
        int n = 1 + (int)s.draw(2);
        for (int i = 0; i < n; i++) {
            Func f;
            f.name = fresh("fn" + std::to_string(i));
            f.w = width();
            int na = 1 + (int)s.draw(3);
            static const std::vector<std::string> an = {"p", "q", "r", "aa", "z"};
            std::set<std::string> used;
            for (int j = 0; j < na; j++) {
                std::string x = s.pick(an);
                while (!used.insert(x).second) x += "x";
                f.args.push_back({x, s.chance(1, 3) ? f.w : width()});
            }
            // ports are kept sorted by name
            std::sort(f.args.begin(), f.args.end());
            fn = &f;
            auto sr = readable;
            f.r2 = expr(f.w, false, cfg.depth - 1);
            if (s.flip()) {
                f.cond = cond(cfg.depth - 1);
                f.r1 = expr(f.w, false, cfg.depth - 1);
                if (f.cond->k == E::Const || f.cond->k == E::CastU) f.cond = nullptr;
            }
            fn = nullptr;
            readable = sr;
            m->funcs.push_back(f);
        }
    }
    // registers exist before the logic that reads them
    struct RegI {
        int v;
        bool rst;
        BV rv;
    };
    std::vector<RegI> regs, norst;
    std::vector<int> outs_pending;
    if (has_seq) {
        int n = (int)s.draw(cfg.max_reg + 1);
        for (int i = 0; i < n; i++) {
            Ty t = type(false);
            bool out = s.chance(1, 4);
            if (out) {
                if (!cfg.arr_ports) t.dims.clear(), t.packed = true;
                int v = add_var(pname("q"), t, VK::Out);
                regs.push_back({v, true, BV(1, 0)});
                if (cfg.out_read) readable.push_back(v);
            } else {
                int v = add_var(pname("q"), t, VK::Reg);
                regs.push_back({v, true, BV(1, 0)});
                readable.push_back(v);
            }
        }
    }
    // logic
    int n_wire = 1 + (int)s.draw(cfg.max_wire);
    size_t kid_at = 0;
    int inst_n = 0;
    // which instances
    std::vector<int> todo;
    for (int k : kids) {
        todo.push_back(k);
        if (cfg.many_inst ? s.chance(3, 4) : s.chance(1, 3)) todo.push_back(k);
        if (cfg.many_inst && s.chance(1, 3)) todo.push_back(k);
    }
    s.shuffle(todo);
    auto place_inst = [&](int k) {
        auto const &cm = d->mods[k];
        Inst in;
        in.mod = k;
        in.name = fresh("inst" + std::to_string(inst_n++));
        in.vars.assign(cm.vars.size(), -1);
        std::vector<int> newly;
        for (size_t v = 0; v < cm.vars.size(); v++) {
            auto const &cv = cm.vars[v];
            bool isin = cv.k == VK::In || cv.k == VK::Clk || cv.k == VK::Rst;
            bool isout = cv.k == VK::Out;
            if (!isin && !isout) continue;
            V pv;
            pv.name = in.name + "." + cv.name;
            pv.t = cv.t;
            pv.k = isin ? VK::InstIn : VK::InstOut;
            pv.inst = (int)m->insts.size();
            pv.port = (int)v;
            m->vars.push_back(pv);
            int id = (int)m->vars.size() - 1;
            in.vars[v] = id;
            if (isout) newly.push_back(id);
            if (isin) {
                Blk b;
                b.k = Blk::Cont;
                if (cv.k == VK::Clk)
                    b.stmts.push_back(assign(ref(id), ref(clk)));
                else if (cv.k == VK::Rst)
                    b.stmts.push_back(assign(ref(id), ref(rst)));
                else if (cv.t.arr()) {
                    // whole array from a same-typed variable, or element by element
                    std::vector<int> same;
                    for (int x : readable)
                        if (m->vars[x].t == cv.t) same.push_back(x);
                    if (!same.empty() && s.flip())
                        b.stmts.push_back(assign(ref(id), ref(s.pick(same))));
                    else if (cfg.partial_child_in && s.chance(1, 3)) {  // the elements of the port
                        bool sl = cfg.loops;
                        cfg.loops = false;
                        drive_array(id, b.stmts, false, false);
                        cfg.loops = sl;
                        c.label("array port by elements");
                    } else {
                        // through a local array
                        int lv = add_var(pname("w"), cv.t, VK::Wire);
                        Blk lb;
                        lb.k = Blk::Cont;
                        bool sl = cfg.loops;
                        cfg.loops = false;
                        drive_array(lv, lb.stmts, false, false);
                        cfg.loops = sl;
                        m->blks.push_back(lb);
                        readable.push_back(lv);
                        b.stmts.push_back(assign(ref(id), ref(lv)));
                    }
                } else if (cfg.unconnected_in && s.chance(1, 6)) {
                    continue;
                } else if (cfg.partial_child_in && !cv.t.s && cv.t.w > 1 && s.chance(1, 6)) {
                    uint32_t cut = 1 + (uint32_t)s.draw(cv.t.w - 1);
                    for (int h = 0; h < 2; h++) {
                        E x = *ref(id);
                        uint32_t lo = h ? cut : 0, hi = h ? cv.t.w - 1 : cut - 1;
                        if (lo == hi)
                            x.sel.push_back({Sel::Idx, lo, lo, nullptr});
                        else
                            x.sel.push_back({Sel::Range, hi, lo, nullptr});
                        x.w = hi - lo + 1;
                        b.stmts.push_back(assign(mk(x), expr(x.w, false, s.flip() ? 0 : 1)));
                    }
                } else {
                    bool k0 = cfg.const_child_in && !cv.t.s && s.chance(1, 8);
                    EP e = k0 ? konst(cv.t.w, s.bits(cv.t.w > 64 ? 64 : cv.t.w))
                              : expr(cv.t.w, cv.t.s, cfg.child_in_expr && s.flip() ? cfg.depth - 1 : 0);
                    b.stmts.push_back(assign(ref(id), e));
                }
                m->blks.push_back(b);
            }
        }
        m->insts.push_back(in);
        for (int id : newly) {
            // read through a wire, or straight from the port
            if (cfg.direct_child_ports && s.chance(1, 3)) {
                readable.push_back(id);
            } else {
                int w = add_var(pname("w"), m->vars[id].t, VK::Wire);
                Blk b;
                b.k = Blk::Cont;
                b.stmts.push_back(assign(ref(w), ref(id)));
                m->blks.push_back(b);
                readable.push_back(w);
            }
        }
    };
    // condition that is true while the reset is on. Using an asynchronous reset as a synchronous
    // one is rejected when it is written as (rst) or (~rst)
    auto rst_is_on = [&](bool sync) -> EP {
        EP rr = ref(rst);
        bool high = m->vars[rst].rst_high;
        if (!sync && high) return rr;
        E n;
        n.w = 1;
        if (sync) {
            n.k = E::Bin;
            n.op = ExprOp::Eq;
            n.a = {rr, konst(1, high)};
        } else {
            n.k = E::Un;
            n.op = ExprOp::UInvert;
            n.a = {rr};
        }
        return mk(n);
    };
    bool have_latch = false;
    for (int i = 0; i < n_wire || kid_at < todo.size(); i++) {
        if (kid_at < todo.size() && (i >= n_wire || s.flip())) {
            place_inst(todo[kid_at++]);
            continue;
        }
        if ((cfg.chains || cfg.bitcopy || cfg.constwire) && s.chance(1, 3) && shape()) continue;
        uint64_t k = s.draw(6);
        if (cfg.latch && top && !have_latch && has_seq && s.chance(1, 6)) {
            have_latch = true;
            Ty t = type(false);
            t.dims.clear();
            t.packed = true;
            int v = add_var(pname("lat"), t, VK::Wire);
            Blk b;
            b.k = Blk::Latch;
            auto p = std::make_shared<S>();
            p->k = S::If;
            p->c = rst_is_on(true);
            EP kk = konst(t.w, s.bits(t.w > 64 ? 64 : t.w));
            p->then_ = {assign(ref(v), t.s ? casts(kk) : kk)};
            auto q = std::make_shared<S>();
            q->k = S::If;
            q->c = cond(1);
            q->then_ = {assign(ref(v), expr(t.w, t.s, 1))};
            p->else_ = {q};
            b.stmts = {p};
            m->blks.push_back(b);
            readable.push_back(v);
            c.label("latch");
            continue;
        }
        if (k < 2 || !cfg.comb) {
            // continuous assignment
            Ty t = type(false);
            int v = add_var(pname("w"), t, VK::Wire);
            Blk b;
            b.k = Blk::Cont;
            if (t.arr()) {
                std::vector<int> same;
                for (int x : readable)
                    if (m->vars[x].t == t) same.push_back(x);
                if (!same.empty() && s.flip()) {
                    b.stmts.push_back(assign(ref(v), ref(s.pick(same))));
                } else {
                    bool sl = cfg.loops;
                    cfg.loops = false;
                    drive_array(v, b.stmts, false, false);
                    cfg.loops = sl;
                }
            } else if (cfg.slices_lhs && t.w > 1 && !t.s && s.chance(1, 4)) {
                uint32_t lo = 0;
                while (lo < t.w) {
                    uint32_t hi = lo + (uint32_t)s.draw(t.w - lo);
                    E x = *ref(v);
                    if (lo == hi)
                        x.sel.push_back({Sel::Idx, lo, lo, nullptr});
                    else
                        x.sel.push_back({Sel::Range, hi, lo, nullptr});
                    x.w = hi - lo + 1;
                    b.stmts.push_back(assign(mk(x), expr(x.w, false, cfg.depth - 1)));
                    lo = hi + 1;
                    if (b.stmts.size() > 5 && lo < t.w) {
                        E y = *ref(v);
                        if (lo == t.w - 1)
                            y.sel.push_back({Sel::Idx, lo, lo, nullptr});
                        else
                            y.sel.push_back({Sel::Range, t.w - 1, lo, nullptr});
                        y.w = t.w - lo;
                        b.stmts.push_back(assign(mk(y), expr(y.w, false, 1)));
                        break;
                    }
                }
                c.label("split-driver");
            } else {
                b.stmts.push_back(assign(ref(v), expr(t.w, t.s, cfg.depth)));
            }
            m->blks.push_back(b);
            readable.push_back(v);
        } else {
            int n = 1 + (int)s.draw(2);
            std::vector<int> vs;
            for (int j = 0; j < n; j++) vs.push_back(add_var(pname("w"), type(false), VK::Wire));
            comb_block(vs);
            for (int v : vs) readable.push_back(v);
            c.label("comb-block");
        }
    }
    // sequential logic
    if (!regs.empty()) {
        std::vector<std::vector<RegI>> groups;
        for (auto const &r : regs) {
            if (groups.empty() || s.flip()) groups.push_back({});
            groups.back().push_back(r);
        }
        for (auto const &g : groups) {
            Blk b;
            b.k = Blk::Seq;
            bool pos = !(cfg.mixed_edge && s.chance(1, 6));
            b.sens.push_back({pos, clk});
            bool async = !cfg.sync_rst || s.flip();
            if (async) b.sens.push_back({m->vars[rst].rst_high, rst});
            auto p = std::make_shared<S>();
            p->k = S::If;
            p->c = rst_is_on(!async);
            std::vector<EP> scal;
            for (auto const &r : g) {
                auto const &t = m->vars[r.v].t;
                if (t.arr()) {
                    drive_array(r.v, p->then_, true, true);
                    if (s.flip()) {
                        EP l = elem(r.v, true);
                        p->else_.push_back(assign(l, expr(l->w, false, cfg.depth - 2)));
                    } else
                        drive_array(r.v, p->else_, true, false);
                } else {
                    EP kk = konst(t.w, s.bits(t.w > 64 ? 64 : t.w));
                    p->then_.push_back(assign(ref(r.v), t.s ? casts(kk) : kk));
                    scal.push_back(ref(r.v));
                }
            }
            if (!scal.empty()) {
                auto x = body(scal, cfg.block_depth, true);
                p->else_.insert(p->else_.end(), x.begin(), x.end());
            }
            b.stmts = {p};
            m->blks.push_back(b);
            c.label(async ? "async-reset" : "sync-reset");
        }
    }
    // pipeline registers without a reset: flushed by clocking
    if (has_seq && cfg.norst && s.chance(1, 3)) {
        int n = 1 + (int)s.draw(2);
        for (int i = 0; i < n; i++) {
            Ty t = type(false);
            t.dims.clear();
            t.packed = true;
            Blk b;
            b.k = Blk::Seq;
            b.sens.push_back({true, clk});
            EP e = expr(t.w, t.s, cfg.depth - 1);
            int v = add_var(pname("p"), t, VK::Reg);
            b.stmts = {assign(ref(v), e)};
            m->blks.push_back(b);
            readable.push_back(v);
            m->norst++;
        }
    }
    // outputs
    int n_out = 1 + (int)s.draw(cfg.max_out);
    for (int i = 0; i < n_out; i++) {
        Ty t = type(true);
        if (cfg.comb && s.chance(1, 4)) {
            int v = add_var(pname("out"), t, VK::Out);
            comb_block({v});
            continue;
        }
        // often expose something that exists
        if (s.flip()) {
            std::vector<int> c2;
            for (int x : readable)
                if (m->vars[x].k != VK::In && (cfg.arr_ports || !m->vars[x].t.arr())) c2.push_back(x);
            if (!c2.empty()) {
                int x = s.pick(c2);
                int v = add_var(pname("out"), m->vars[x].t, VK::Out);
                Blk b;
                b.k = Blk::Cont;
                b.stmts = {assign(ref(v), ref(x))};
                m->blks.push_back(b);
                continue;
            }
        }
        int v;
        Blk b;
        b.k = Blk::Cont;
        if (t.arr()) {
            std::vector<SP> st;
            v = add_var(pname("out"), t, VK::Out);
            bool sl = cfg.loops;
            cfg.loops = false;
            drive_array(v, st, false, false);
            cfg.loops = sl;
            b.stmts = st;
        } else {
            EP e = expr(t.w, t.s, cfg.depth);
            v = add_var(pname("out"), t, VK::Out);
            b.stmts = {assign(ref(v), e)};
        }
        m->blks.push_back(b);
    }
    if (cfg.inline_attr && !top && s.chance(1, 3)) mod.attr = "inline", c.label("inline");
    d->mods.push_back(mod);
    m = nullptr;
    return self;
}
Design Gen::design() {
    Design r;
    d = &r;
    module(cfg.hier, true);
    if (c.verbose) c.sample = show(r);
    return r;
}
}  // namespace rdl
