// P14 the built-in simulator, P27 evaluation of operators and legality of constants
#include "eval.hh"
#include "except.hh"
#include "rdl.hh"
#include "sim.hh"
#include "util.hh"
using namespace rdl;

namespace {
std::string str(const std::optional<std::vector<uint64_t>> &v) {
    if (!v) return "unknown";
    std::string r;
    for (auto x : *v) r = std::to_string(x) + (r.empty() ? "" : " ") + r;
    return "{" + r + "}";
}
std::vector<uint64_t> words(const BV &x, uint32_t w) {
    std::vector<uint64_t> r;
    for (uint32_t o = 0; o < x.w; o += w) r.push_back(x.slice(o, w).u64());
    return r;
}

void p14(pbt::Case &c) {
    Cfg cfg;
    cfg.hier = (int)c.src.draw(3);
    cfg.depth = 2;
    cfg.max_w = 64;
    cfg.wide = false;
    cfg.loops = false;
    cfg.chains = c.src.flip();
    cfg.bitcopy = c.src.flip();
    cfg.constwire = c.src.flip();
    cfg.ifchain = c.src.flip();
    cfg.many_inst = c.src.chance(1, 3);
    cfg.pass_through = c.src.flip();
    Gen g(c, cfg);
    Design d = g.design();
    Built b = build(d);
    auto const &t = d.top();
    std::string log, extra;
    if (c.src.chance(1, 3)) {
        kratos::PassManager pm;
        kratos::decouple_generator_ports(b.top);
        kratos::fix_assignment_type(b.top);
        kratos::create_module_instantiation(b.top);
        extra = "with decoupled ports\n";
    }
    c.sample = extra + show(d);
    bool one = c.src.flip();  // one input after the other
    try {
        kratos::Simulator sim(b.top);
        Sim ref(d);
        Hist h = history(c, d, 5, ref.total_norst() + 2);
        std::vector<const Sim::I *> is;
        std::function<void(const Sim::I &)> coll;
        // the same order as the instances that have been built
        std::function<void(const Sim::I &, int)> walk;
        std::map<int, const Sim::I *> inst;
        walk = [&](const Sim::I &i, int n) {
            inst[n] = &i;
            for (size_t k = 0; k < i.sub.size(); k++) walk(*i.sub[k], b.insts[n].sub[k]);
        };
        int top = -1;
        for (size_t n = 0; n < b.insts.size(); n++)
            if (b.insts[n].g == b.top) top = (int)n;
        walk(*ref.root, top);
        uint64_t compared = 0, total = 0;
        for (auto const &[cmp, st] : h.g) {
            for (auto const &s : st) {
                auto &v = t.vars[s.v];
                auto *kv = b.insts[top].v[s.v];
                ref.set(s.v, s.x);
                log += " " + v.name + "=" + s.x.str();
                bool ev = one;
                uint32_t w = v.t.w;
                auto vals = words(s.x, w);
                switch (v.t.arr() ? c.src.draw(2) + 1 : c.src.draw(4)) {
                    case 0:
                        sim.set(kv, s.x.u64(), ev);
                        break;
                    case 1:
                        sim.set(kv, std::optional<std::vector<uint64_t>>(vals), ev);
                        break;
                    case 2:
                        if (!v.t.arr()) {
                            sim.set_i(kv, s.x.s64(), ev);
                        } else {
                            std::vector<int64_t> sv;
                            for (auto x : vals) sv.push_back(BV(w, x).s64());
                            sim.set_i(kv, std::optional<std::vector<int64_t>>(sv), ev);
                        }
                        break;
                    default: {  // in two parts
                        if (w == 1) {
                            sim.set(kv, s.x.u64(), ev);
                            break;
                        }
                        auto cut = 1 + (uint32_t)c.src.draw(w - 1);
                        sim.set(&(*kv)[std::make_pair(cut - 1, 0u)], s.x.slice(0, cut).u64(), false);
                        sim.set(&(*kv)[std::make_pair(w - 1, cut)], s.x.slice(cut, w - cut).u64(), ev);
                    }
                }
                if (one) ref.settle();
            }
            if (!one) {
                sim.eval();
                ref.settle();
            }
            if (!cmp) continue;
            for (auto const &[n, i] : inst) {
                auto const &gi = b.insts[n];
                for (size_t k = 0; k < i->m->vars.size(); k++) {
                    auto const &v = i->m->vars[k];
                    if (!gi.v[k]) continue;
                    auto got = sim.get_array(gi.v[k]);
                    total++;
                    if (got) compared++;
                    auto want = words(i->val[k], v.t.w);
                    if (got && *got != want) c.fail("value", gi.g->instance_name + "." + v.name + " is " + str(got) + " instead of " + str(want) + "\nhistory:" + log + "\n" + extra + show(d));
                    if (!got && v.k == VK::Out && n == top) c.fail("unknown", v.name + " is not known\nhistory:" + log + "\n" + extra + show(d));
                    if (!v.t.arr()) {
                        auto one_ = sim.get(gi.v[k]);
                        if (one_.has_value() != got.has_value() || (got && *one_ != (*got)[0])) c.fail("get", v.name + "\n" + extra + show(d));
                    }
                }
            }
            // expressions
            if (c.src.chance(1, 2)) {
                g.m = const_cast<Module *>(&d.top());
                auto w = g.width();
                auto e = g.expr(w, c.src.flip(), 2);
                auto &kx = bexpr(b, top, e, nullptr);
                auto got = sim.eval_expr(&kx);
                Env env{&t, &ref.root->val, {}, nullptr};
                auto want = eval(e, env);
                if (got && (got->size() != 1 || (*got)[0] != want.u64())) c.fail("expression", kx.to_string() + " is " + str(got) + " instead of " + want.str() + "\nhistory:" + log + "\n" + extra + show(d));
            }
        }
        c.nontrivial = compared > total / 2 && total > 20;
    } catch (const kratos::InternalException &e) {
        if (std::string(e.what()).find("Big number") == std::string::npos) c.fail("exception", std::string(e.what()) + "\n" + log + "\n" + extra + show(d));
        c.label("wide");
    } catch (const std::runtime_error &e) {
        c.fail("exception", std::string(e.what()) + "\nhistory:" + log + "\n" + extra + show(d));
    }
}
pbt::Reg r14({"P14", "more than half of the values compared are known, and more than 20 are compared", p14, 20000, 400000, {}, {}});

// ---- P27 ----------------------------------------------------------------------------------
uint64_t value(pbt::Case &c, uint32_t w) {
    BV x(w, 0);
    switch (c.src.draw(6)) {
        case 0:
            x = BV(w, c.src.draw(4));
            break;
        case 1:
            x = ~BV(w, c.src.draw(4));
            break;
        case 2:
            x = BV(w, 0);
            x.setbit(w - 1, true);
            x = c.src.flip() ? BV::sub(x, BV(w, c.src.draw(3))) : BV::add(x, BV(w, c.src.draw(3)));
            break;
        case 3:
            x.setbit((uint32_t)c.src.draw(w), true);
            break;
        default:
            x = BV(w, c.src.draw(1ull << 32) | c.src.draw(1ull << 32) << 32);
    }
    return x.u64();
}
void p27(pbt::Case &c) {
    static const std::vector<std::pair<ExprOp, const char *>> un = {{ExprOp::UInvert, "~"}, {ExprOp::UMinus, "-"}, {ExprOp::UPlus, "+"}, {ExprOp::UOr, "|"}, {ExprOp::UNot, "!"}, {ExprOp::UAnd, "&"}, {ExprOp::UXor, "^"}};
    static const std::vector<std::pair<ExprOp, const char *>> bin = {
        {ExprOp::Add, "+"}, {ExprOp::Minus, "-"}, {ExprOp::Divide, "/"}, {ExprOp::Multiply, "*"}, {ExprOp::Mod, "%"}, {ExprOp::LogicalShiftRight, ">>"}, {ExprOp::SignedShiftRight, ">>>"}, {ExprOp::ShiftLeft, "<<"},
        {ExprOp::Or, "|"}, {ExprOp::And, "&"}, {ExprOp::Xor, "^"}, {ExprOp::Power, "**"}, {ExprOp::LAnd, "&&"}, {ExprOp::LOr, "||"}, {ExprOp::LessThan, "<"}, {ExprOp::GreaterThan, ">"}, {ExprOp::LessEqThan, "<="},
        {ExprOp::GreaterEqThan, ">="}, {ExprOp::Eq, "=="}, {ExprOp::Neq, "!="}};
    uint32_t w = c.src.chance(1, 3) ? 64 - (uint32_t)c.src.draw(3) : 1 + (uint32_t)c.src.draw(64);
    auto konst = [&](uint64_t v) {
        auto e = std::make_shared<E>();
        e->k = E::Const;
        e->w = w;
        e->c = BV(w, v);
        return e;
    };
    Env env{nullptr, nullptr, {}, nullptr};
    E e;
    auto x = value(c, w), y = value(c, w);
    switch (c.src.draw(6)) {
        case 0: {
            auto [op, n] = c.src.pick(un);
            e.k = E::Un;
            e.op = op;
            e.a = {konst(x)};
            auto want = eval(std::make_shared<E>(e), env).u64(), got = kratos::eval_unary_op(x, op, w);
            c.sample = std::string(n) + std::to_string(x) + " in " + std::to_string(w) + " bits";
            c.nontrivial = x != 0;
            c.check(got == want, "unary", c.sample + " is " + std::to_string(got) + " instead of " + std::to_string(want));
            break;
        }
        case 1:
        case 2:
        case 3: {
            auto [op, n] = c.src.pick(bin);
            bool s = c.src.flip();
            if (op == ExprOp::LogicalShiftRight || op == ExprOp::SignedShiftRight || op == ExprOp::ShiftLeft) {
                if (c.src.flip()) y = BV(w, c.src.draw(70)).u64();
            }
            c.sample = std::to_string(x) + " " + n + " " + std::to_string(y) + (s ? ", signed," : "") + " in " + std::to_string(w) + " bits";
            if ((op == ExprOp::Divide || op == ExprOp::Mod) && !y) {
                bool threw = false;
                try {
                    kratos::eval_bin_op(x, y, op, w, s);
                } catch (const kratos::UserException &) {
                    threw = true;
                }
                c.check(threw, "zero", c.sample);
                break;
            }
            if (op == ExprOp::Power && !x && s && BV(w, y).msb()) break;
            e.k = E::Bin;
            e.op = op;
            e.a = {konst(x), konst(y)};
            e.a[0]->s = e.a[1]->s = s;
            auto want = eval(std::make_shared<E>(e), env).u64(), got = kratos::eval_bin_op(x, y, op, w, s);
            c.nontrivial = x != 0 && y != 0;
            c.check(got == want, "binary", c.sample + " is " + std::to_string(got) + " instead of " + std::to_string(want));
            break;
        }
        case 4: {  // constants that fit are accepted, others are refused
            bool s = c.src.flip(), neg = BV(64, value(c, 64)).msb();
            auto v = (int64_t)value(c, 64);
            if (c.src.flip()) v = BV(w, (uint64_t)v).s64() + (int64_t)c.src.draw(3) - 1;
            (void)neg;
            bool fit = s ? BV(w, (uint64_t)v).s64() == v : w == 64 || (v >= 0 && (uint64_t)v >> w == 0);
            c.sample = std::to_string(v) + (s ? ", signed," : "") + " in " + std::to_string(w) + " bits";
            c.nontrivial = true;
            bool ok = true;
            try {
                auto &k = kratos::constant(v, w, s);
                c.check(k.value() == v && k.width() == w && k.is_signed() == s, "constant", c.sample + " has value " + std::to_string(k.value()));
            } catch (const std::exception &) {
                ok = false;
            }
            c.check(ok == fit, fit ? "constant-refused" : "constant-accepted", c.sample);
            break;
        }
        default: {
            // rounding of logarithms
            uint64_t n = value(c, 1 + (uint32_t)c.src.draw(32));
            if (n < 2) n = 2;  // an index takes at least one bit
            uint64_t want = 0;
            while (want < 64 && (1ull << want) < n) want++;
            c.sample = "clog2 of " + std::to_string(n);
            c.nontrivial = n > 2;
            c.check(kratos::clog2(n) == want, "clog2", c.sample + " is " + std::to_string(kratos::clog2(n)) + " instead of " + std::to_string(want));
        }
    }
}
pbt::Reg r27({"P27", "the operands are not zero", p27, 600000, 30000000, {}, {}});
}  // namespace
