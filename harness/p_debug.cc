// P22 debug information: the table of break points and the lines of the emitted text
#include <algorithm>
#include <fstream>
#include <functional>
#include <sstream>

#include "debug.hh"
#include "expr.hh"
#include "generator.hh"
#include "pass.hh"
#include "port.hh"
#include "rdl.hh"
#include "stmt.hh"
#include "sv.hh"
using namespace rdl;
namespace k = kratos;

namespace {
// ---- a reader of JSON -------------------------------------------------------
struct J {
    enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
    std::string s;
    bool b = false;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J *at(const std::string &n) const {
        for (auto const &x : o)
            if (x.first == n) return &x.second;
        return nullptr;
    }
    std::string str(const std::string &n) const {
        auto p = at(n);
        return p ? p->s : "";
    }
};
struct JP {
    const std::string &t;
    size_t i = 0;
    explicit JP(const std::string &t) : t(t) {}
    [[noreturn]] void bad(const std::string &m) { throw std::runtime_error("not JSON: " + m + " at " + std::to_string(i)); }
    void ws() {
        while (i < t.size() && isspace((unsigned char)t[i])) i++;
    }
    std::string string() {
        std::string r;
        if (t[i] != '"') bad("string expected");
        for (i++;; i++) {
            if (i >= t.size()) bad("string not closed");
            if (t[i] == '"') break;
            if (t[i] == '\\') i++;
            r += t[i];
        }
        i++;
        return r;
    }
    J value() {
        ws();
        J j;
        if (i >= t.size()) bad("end");
        if (t[i] == '{' || t[i] == '[') {
            bool obj = t[i] == '{';
            char e = obj ? '}' : ']';
            j.k = obj ? J::Obj : J::Arr;
            i++, ws();
            if (i < t.size() && t[i] == e) {
                i++;
                return j;
            }
            for (;;) {
                ws();
                std::string n;
                if (obj) {
                    n = string(), ws();
                    if (t[i] != ':') bad("colon expected");
                    i++;
                }
                J v = value();
                if (obj) j.o.emplace_back(n, v);
                else j.a.push_back(v);
                ws();
                if (i < t.size() && t[i] == ',') {
                    i++;
                    continue;
                }
                if (i >= t.size() || t[i] != e) bad("end of list expected");
                i++;
                return j;
            }
        }
        if (t[i] == '"') {
            j.k = J::Str, j.s = string();
        } else if (t.compare(i, 4, "true") == 0 || t.compare(i, 5, "false") == 0) {
            j.k = J::Bool, j.b = t[i] == 't', i += j.b ? 4 : 5;
        } else if (isdigit((unsigned char)t[i]) || t[i] == '-') {
            j.k = J::Num;
            while (i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '-')) j.s += t[i++];
        } else {
            bad("value");
        }
        return j;
    }
    J all() {
        J j = value();
        ws();
        if (i != t.size()) bad("text after the end");
        return j;
    }
};

// ---- the design -------------------------------------------------------------
struct Rec {
    std::string kind, mod, inst;  // inst: hierarchical prefix
    std::vector<std::pair<std::string, uint32_t>> loc;
    std::vector<std::string> text;  // what the line has to contain
    std::string probe;              // net that tells whether it was executed ("" - always is)
    bool clocked = false, element = false, ignored = false;
    std::string var, sel;  // assigned variable; index
    uint32_t py = 0;
    std::string file, scope, scope_value;
    bool scope_rtl = false;
    bool table = true;
};
using Loc = std::vector<std::pair<std::string, uint32_t>>;

struct B {
    pbt::Src &s;
    k::Context ctx;
    std::vector<Rec> rec;
    struct M {
        k::Generator *g;
        std::string inst;
        bool debug;
        std::vector<std::pair<std::string, int>> kids;
        std::map<std::string, std::string> mapped, statics;
        std::vector<uint32_t> dims;
    };
    std::vector<M> mods;
    std::vector<std::shared_ptr<k::Var>> keep;
    std::vector<std::shared_ptr<k::PackedStruct>> structs;
    uint32_t line = 10;
    int n = 0;
    M *m = nullptr;
    std::string file;
    bool clocked = false;
    explicit B(pbt::Src &s) : s(s) {}

    Loc loc() {
        line += 1 + s.draw(3);
        Loc l;
        if (s.chance(1, 5)) l.emplace_back("/lib/frame" + std::to_string(s.draw(2)) + ".cc", 9000 + line);
        l.emplace_back(file, line);
        if (s.chance(1, 5)) l.emplace_back("outer.py", 5000 + line);
        return l;
    }
    Rec &note(const std::string &kind, k::IRNode *node, std::vector<std::string> text, const std::string &probe) {
        Rec r;
        r.kind = kind, r.mod = m->g->name, r.inst = m->inst, r.text = std::move(text), r.probe = probe, r.clocked = clocked;
        if (!s.chance(1, 8)) {
            r.loc = loc(), r.file = file, r.py = line;
            node->fn_name_ln = r.loc;
        }
        if (s.chance(1, 5)) node->comment = s.flip() ? "two\nlines" : "a comment";
        rec.push_back(r);
        return rec.back();
    }
    k::Var &in(const std::string &n) { return *m->g->get_var(n); }
    // something to test
    k::Var &pred(int d) {
        switch (s.draw(d ? 12 : 9)) {
            case 0: return in("a");
            case 1: return in("b");
            case 2: return ~in("a");
            case 3: return in("t")[s.draw(3)];
            case 4: return in("t").eq(k::constant(s.draw(8), 3));
            case 5: return in("s") < k::constant(s.draw(4), 2);
            case 6: return in("u")[std::make_pair(2u, 1u)].eq(k::constant(s.draw(4), 2));
            case 7: return in("cnt") != k::constant(s.draw(4), 2);
            case 8: return s.flip() ? in("t") : in("t").r_not();
            case 9: return pred(d - 1) && pred(d - 1);
            case 10: return pred(d - 1) || pred(d - 1);
            default: {
                auto &c = in("a").concat(in("b"));
                return c.eq(k::constant(s.draw(4), 2));
            }
        }
    }
    std::shared_ptr<k::StmtBlock> top_block;
    std::vector<std::shared_ptr<k::Stmt>> defaults;
    std::shared_ptr<k::Stmt> leaf(std::string *probe) {
        int id = n++;
        auto nm = std::to_string(id);
        int kd = probe && probe->empty() ? s.draw(2) : s.draw(3);
        auto op = clocked ? " <= " : " = ";
        if (kd == 2) {  // element of an array, by a variable
            auto &v = m->g->var("arr_" + nm, 1, 4);
            for (int i = 0; i < 4; i++) defaults.push_back(v[i].assign(k::constant(0, 1)));
            auto st = v[in("s").shared_from_this()].assign(k::constant(1, 1));
            auto &r = note("assign", st.get(), {"arr_" + nm + "[s]" + op + "1'h1;"}, *probe);
            r.element = true, r.var = "arr_" + nm, r.sel = "s";
            return st;
        }
        std::string v = "o_" + nm, tgt = v;
        std::shared_ptr<k::Stmt> st;
        if (kd == 1) {
            auto &x = m->g->var(v, 3);
            tgt = v + "[1]";
            defaults.push_back(x.assign(k::constant(0, 3)));
            st = x[1].assign(k::constant(1, 1));
        } else {
            auto &x = m->g->var(v, 1);
            auto d = x.assign(k::constant(0, 1));
            if (top_block && s.chance(1, 4)) note("assign", d.get(), {v + op + "1'h0;"}, "").var = v;
            defaults.push_back(d);
            st = x.assign(k::constant(1, 1));
        }
        if (probe->empty()) *probe = v;
        auto &r = note("assign", st.get(), {tgt + op + "1'h1;"}, *probe);
        r.var = tgt;
        if (s.chance(1, 10)) {
            auto at = std::make_shared<k::Attribute>();
            at->value_str = "debug-ignore";
            st->add_attribute(at);
            r.ignored = true;
        }
        if (s.chance(1, 5)) {
            r.scope = "front_" + nm, r.scope_value = s.flip() ? "a" : "7", r.scope_rtl = r.scope_value == "a";
            st->add_scope_variable(r.scope, r.scope_value, r.scope_rtl, false);
        }
        return st;
    }
    std::vector<std::shared_ptr<k::Stmt>> body(int d, bool alone = false) {
        std::vector<std::shared_ptr<k::Stmt>> r;
        std::string probe;
        // `alone`: a single statement below the else, so that it becomes an else if
        r.push_back(leaf(&probe));
        int k = s.draw(3);
        for (int i = 0; i < k; i++) {
            if (d > 0 && s.chance(2, 3)) r.push_back(branch(d - 1, probe));
            else r.push_back(leaf(&probe));
        }
        s.shuffle(r);
        return r;
    }
    std::shared_ptr<k::Stmt> branch(int d, const std::string &probe) {
        if (s.chance(2, 5)) {
            static const char *tn[] = {"s", "t", "a", "cnt"};
            auto tname = tn[s.draw(4)];
            auto &t = in(tname);
            auto sw = std::make_shared<k::SwitchStmt>(t);
            note("switch", sw.get(), {"case (" + std::string(tname) + ")"}, probe);
            uint32_t n = 1u << t.width();
            std::vector<uint32_t> v;
            for (uint32_t i = 0; i < n; i++)
                if (s.chance(2, 5)) v.push_back(i);
            if (v.empty()) v.push_back(s.draw(n));
            s.shuffle(v);
            for (auto x : v) {
                auto c = k::constant(x, t.width()).as<k::Const>();
                for (auto &st : body(d)) sw->add_switch_case(c, st);
            }
            if (v.size() < n && s.chance(3, 4))
                for (auto &st : body(d)) sw->add_switch_case(nullptr, st);
            return sw;
        }
        auto &p = pred(1);
        keep.push_back(p.shared_from_this());
        auto f = std::make_shared<k::IfStmt>(p);
        note("if", f.get(), {"if ("}, probe);
        for (auto &st : body(d)) f->add_then_stmt(st);
        if (s.chance(1, 4)) {
            // else if: the probe of the else is that of the inner if's own tests; only its body is compared
            auto &q = pred(1);
            keep.push_back(q.shared_from_this());
            auto g = std::make_shared<k::IfStmt>(q);
            auto &r = note("if", g.get(), {"if ("}, "");
            r.table = false;
            for (auto &st : body(d)) g->add_then_stmt(st);
            if (s.flip())
                for (auto &st : body(d)) g->add_else_stmt(st);
            f->add_else_stmt(g);
        } else if (s.chance(1, 2)) {
            for (auto &st : body(d)) f->add_else_stmt(st);
        }
        return f;
    }
    void block() {
        auto &g = *m->g;
        clocked = s.chance(1, 3);
        std::shared_ptr<k::StmtBlock> b;
        if (clocked) {
            auto q = g.sequential();
            q->add_condition({k::EventEdgeType::Posedge, g.get_port("clk")});
            note("block", q.get(), {"always_ff @(posedge clk) begin"}, "").table = false;
            b = q;
        } else {
            b = g.combinational();
            note("block", b.get(), {"always_comb begin"}, "").table = false;
        }
        top_block = b, defaults.clear();
        std::vector<std::shared_ptr<k::Stmt>> r;
        int k = 1 + s.draw(2);
        for (int i = 0; i < k; i++) r.push_back(branch(2, ""));
        for (auto &st : defaults) b->add_stmt(st);
        for (auto &st : r) b->add_stmt(st);
        top_block = nullptr, clocked = false;
    }
    int module(int depth, const std::string &inst) {
        int me = mods.size();
        auto &g = ctx.generator(me ? "mod" + std::to_string(me) : "top");
        mods.push_back({&g, inst, !s.chance(1, 8), {}, {}, {}});
        m = &mods.back();
        g.debug = m->debug;
        file = "src" + std::to_string(s.draw(2)) + ".py";
        if (s.flip()) g.fn_name_ln = {{file, ++line}};
        else g.fn_name_ln = {{"gen.py", ++line}};
        auto port = [&](const std::string &n, uint32_t w, k::PortType t = k::PortType::Data) {
            auto &p = g.port(k::PortDirection::In, n, w, 1, t, false);
            note("port", &p, {"input logic", " " + n}, "").table = false;
        };
        port("clk", 1, k::PortType::Clock);
        port("a", 1), port("b", 1), port("s", 2), port("t", 3), port("u", 4);
        auto &cnt = g.var("cnt", 2);
        note("var", &cnt, {"logic [1:0] cnt;"}, "").table = false;
        {
            auto q = g.sequential();
            q->add_condition({k::EventEdgeType::Posedge, g.get_port("clk")});
            clocked = true;
            auto st = cnt.assign(cnt + k::constant(1, 2));
            auto &r = note("assign", st.get(), {"cnt <= cnt + 2'h1;"}, "");
            r.var = "cnt";
            clocked = false;
            q->add_stmt(st);
        }
        if (s.chance(1, 3)) {
            auto &w = g.var("wire_", 3);
            auto st = w.assign(in("t") ^ k::constant(5, 3));
            note("assign", st.get(), {"assign wire_ = t ^ 3'h5;"}, "").var = "wire_";
            g.add_stmt(st);
        }
        if (s.chance(1, 3)) {
            // functions: with ports, or none
            auto f = g.function("fn" + std::to_string(me));
            bool args = s.flip();
            note("function", f.get(), {"function "}, "").table = false;
            std::shared_ptr<k::Stmt> ret;
            if (args) {
                auto x = f->input("x", 3, false);
                if (s.flip()) {
                    auto fi = std::make_shared<k::IfStmt>(x->eq(k::constant(s.draw(8), 3)));
                    note("if", fi.get(), {"if (x =="}, "").table = false;
                    auto r1 = f->return_stmt(k::constant(2, 3).shared_from_this());
                    note("return", r1.get(), {"return 3'h2;"}, "").table = false;
                    fi->add_then_stmt(r1);
                    f->add_stmt(fi);
                }
                ret = f->return_stmt(x);
                note("return", ret.get(), {"return x;"}, "").table = false;
            } else {
                ret = f->return_stmt(k::constant(3, 3).shared_from_this());
                note("return", ret.get(), {"return 3'h3;"}, "").table = false;
            }
            f->add_stmt(ret);
            auto &w = g.var("fv", 3);
            auto &call = args ? g.call("fn" + std::to_string(me), std::map<std::string, std::shared_ptr<k::Var>>{{"x", in("t").shared_from_this()}}) : g.call("fn" + std::to_string(me), std::map<std::string, std::shared_ptr<k::Var>>{});
            g.add_stmt(w.assign(call));
        }
        if (s.chance(1, 4)) {
            // a loop
            auto &w = g.var("lv", 1, 3);
            auto q = g.combinational();
            auto fs = std::make_shared<k::ForStmt>("i", 0, 3, 1);
            q->add_stmt(fs);
            note("for", fs.get(), {"for (int", "i = 0; i < 3"}, "").table = false;
            auto st = w[fs->get_iter_var()].assign(in("a"));
            note("assign", st.get(), {"lv[", "] = a;"}, "").table = false;
            fs->add_stmt(st);
        }
        int nb = 1 + s.draw(3);
        for (int i = 0; i < nb; i++) block();
        static const char *sv[] = {"a", "t", "cnt", "u"};
        for (int i = 0; i < 3; i++)
            if (s.flip()) {
                if (s.flip()) m->mapped["self.v" + std::to_string(i)] = sv[s.draw(4)];
                else m->statics["self.c" + std::to_string(i)] = std::to_string(s.draw(100));
            }
        if (s.chance(1, 4)) {
            std::vector<uint32_t> dim;
            int nd = 1 + s.draw(2);
            for (int i = 0; i < nd; i++) dim.push_back(2 + s.draw(2));
            g.var("tab", 2, dim);
            m->mapped["self.tab"] = "tab";
            m->dims = dim;
        }
        if (s.chance(1, 4)) {
            auto st = std::make_shared<k::PackedStruct>("pair_t");
            for (auto x : {"first", "second"}) {
                auto a = k::PackedStructFieldDef();
                a.name = x, a.width = 2, a.signed_ = false;
                st->attributes.push_back(a);
            }
            structs.push_back(st);
            if (s.flip()) g.var_packed("pv", st);
            else g.port_packed(k::PortDirection::In, "pv", st);
            m->mapped["self.pair"] = "pv";
        }
        if (depth > 0) {
            int k = s.draw(3);
            for (int i = 0; i < k && mods.size() < 5; i++) {
                auto nm = "u" + std::to_string(mods.size());
                auto f = file;
                int c = module(depth - 1, inst.empty() ? nm : inst + "." + nm);
                m = &mods[me], file = f;
                m->kids.emplace_back(nm, c);
                auto &h = *mods[c].g;
                m->g->add_child_generator(nm, h);
                for (auto p : {"clk", "a", "b", "s", "u"}) m->g->add_stmt(h.get_port(p)->assign(*m->g->get_var(p)));
                if (s.flip()) m->g->add_stmt(h.get_port("t")->assign(in("t") + k::constant(s.draw(8), 3)));
                else m->g->add_stmt(h.get_port("t")->assign(in("t")));
            }
        }
        return me;
    }
};

std::vector<std::string> lines_of(const std::string &t) {
    std::vector<std::string> r{""};
    std::istringstream ss(t);
    for (std::string l; std::getline(ss, l);) r.push_back(l);
    return r;
}
std::string numbered(const std::string &t) {
    auto l = lines_of(t);
    std::string o;
    for (size_t i = 1; i < l.size(); i++) o += std::to_string(i) + "\t" + l[i] + "\n";
    return o;
}
std::string words(const std::vector<std::string> &v) {
    std::string o;
    for (auto const &x : v) o += (o.empty() ? "" : " .. ") + x;
    return o;
}
std::string slurp(const std::string &f) {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

struct Entry {
    std::string file, cond, type, name, value;
    uint32_t line = 0;
    bool rtl = false;
};
void flatten(const J &j, std::string file, const std::map<std::string, const J *> &vars, std::vector<Entry> &out) {
    if (auto f = j.at("filename")) file = f->s;
    Entry e;
    e.file = file, e.cond = j.str("condition"), e.type = j.str("type");
    if (auto l = j.at("line")) e.line = std::stoul(l->s);
    if (auto v = j.at("variable")) {
        if (v->k == J::Str) {
            if (!vars.count(v->s)) throw std::runtime_error("no variable " + v->s);
            v = vars.at(v->s);
        }
        e.name = v->str("name"), e.value = v->str("value");
        if (auto r = v->at("rtl")) e.rtl = r->b;
    }
    out.push_back(e);
    if (auto s = j.at("scope"))
        for (auto const &x : s->a) flatten(x, file, vars, out);
}

void p22(pbt::Case &c) {
    B b(c.src);
    b.mods.reserve(8);
    b.module(2, "");
    auto &top = *b.mods[0].g;
    bool package = c.src.chance(1, 3);
    k::fix_assignment_type(&top);
    k::decouple_generator_ports(&top);
    k::create_module_instantiation(&top);

    std::map<std::string, std::string> src;
    std::string d = pbt::scratch_dir();
    if (package) {
        k::SystemVerilogCodeGenOptions o;
        o.package_name = "defs", o.output_dir = d, o.extract_debug_info = true;
        k::generate_verilog(&top, o);
        for (auto const &m : b.mods) src[m.g->name] = slurp(d + "/" + m.g->name + ".sv");
    } else {
        src = k::generate_verilog(&top);
    }
    std::string text;
    for (auto const &x : src) text += numbered(x.second);
    c.sample = text;
    // ---- lines
    auto info = k::extract_debug_info(&top);
    int located = 0;
    for (auto const &m : b.mods) {
        if (!m.debug) continue;
        auto const &mi = info[m.g->name];
        auto ln = lines_of(src.at(m.g->name));
        std::map<Loc, std::vector<uint32_t>> at;
        for (auto const &x : mi) at[x.second].push_back(x.first);
        auto has = [&](uint32_t l, const std::vector<std::string> &t) {
            return l < ln.size() && std::all_of(t.begin(), t.end(), [&](const std::string &z) { return ln[l].find(z) != std::string::npos; });
        };
        for (auto const &r : b.rec) {
            if (r.mod != m.g->name || r.loc.empty()) continue;
            located++;
            if (!at.count(r.loc)) c.fail("line", r.kind + " of line " + std::to_string(r.py) + " in " + r.mod + " (" + words(r.text) + ") has no line in the text\n" + text);
            for (auto l : at.at(r.loc))
                if (!has(l, r.text)) c.fail("line", r.kind + " of line " + std::to_string(r.py) + " in " + r.mod + " (" + words(r.text) + ") should be at line " + std::to_string(l) + "\n" + text);
        }
        // the module itself
        auto const &gl = m.g->fn_name_ln;
        if (!at.count(gl) || at.at(gl).size() != 1 || !has(at.at(gl)[0], {"module " + m.g->name})) c.fail("line", "module " + m.g->name + " is not at line " + (at.count(gl) ? std::to_string(at.at(gl)[0]) : "") + "\n" + text);
        if (package) {
            auto dbg = slurp(d + "/" + m.g->name + ".sv.debug");
            auto js = JP(dbg).all();
            std::map<uint32_t, Loc> got;
            for (auto const &x : js.o)
                for (auto const &p : x.second.a) got[std::stoul(x.first)].emplace_back(p.a.at(0).s, std::stoul(p.a.at(1).s));
            if (got != mi) c.fail("file", "the debug file of " + m.g->name + " differs from extract_debug_info\n" + text);
        }
    }
    // ---- table of break points
    k::DebugDatabase db;
    db.set_break_points(&top, ".py");
    std::map<k::Generator *, std::map<std::string, k::Var *>> vm;
    std::map<k::Generator *, std::map<std::string, std::string>> sm;
    for (auto const &m : b.mods) {
        for (auto const &x : m.mapped) vm[m.g][x.first] = m.g->get_var(x.second).get();
        for (auto const &x : m.statics) sm[m.g][x.first] = x.second;
    }
    db.set_variable_mapping(vm);
    db.set_variable_mapping(sm);
    db.save_database(d + "/t.json", true);
    auto json = slurp(d + "/t.json");
    J j;
    try {
        j = JP(json).all();
    } catch (const std::exception &e) {
        c.fail("json", std::string(e.what()) + "\n" + json);
        return;
    }
    text += json;
    std::map<std::string, const J *> vars, tab;
    if (auto v = j.at("variables"))
        for (auto const &x : v->a) vars[x.str("id")] = &x;
    if (j.str("top") != "top") c.fail("table", "the top is " + j.str("top") + "\n" + text);
    for (auto const &x : j.at("table")->a) tab[x.str("name")] = &x;
    std::vector<std::pair<const Rec *, std::string>> cond;  // condition of an executed statement
    std::vector<std::string> elem;
    std::map<std::string, std::string> extra;
    auto condition = [&](const Rec &r, const std::string &cd, const std::string &el) {
        cond.emplace_back(&r, cd), elem.push_back(el);
        auto nm = "cond_" + std::to_string(cond.size() - 1);
        extra[r.mod] += "logic " + nm + ";\nassign " + nm + " = " + (cd.empty() ? "1'b1" : "(" + cd + ") ? 1'b1 : 1'b0") + ";\n";
    };
    for (auto const &m : b.mods) {
        if (!tab.count(m.g->name)) c.fail("table", "no module " + m.g->name + "\n" + text);
        auto const &t = *tab.at(m.g->name);
        std::set<std::pair<std::string, std::string>> want, got;
        for (auto const &x : m.kids) want.emplace(x.first, b.mods[x.second].g->name);
        for (auto const &x : t.at("instances")->a) got.emplace(x.str("name"), x.str("module"));
        if (want != got) c.fail("table", "instances of " + m.g->name + "\n" + text);
        std::vector<Entry> es;
        try {
            flatten(t, "", vars, es);
        } catch (const std::exception &e) {
            c.fail("table", std::string(e.what()) + "\n" + text);
        }
        // the variables of the front end
        std::map<std::string, std::pair<std::string, bool>> gv;
        for (auto x : t.at("variables")->a) {
            if (x.k == J::Str) x = *vars.at(x.s);
            gv[x.str("name")] = {x.str("value"), x.at("rtl")->b};
        }
        auto var = [&](const std::string &n, const std::string &v, bool rtl) {
            if (!gv.count(n) || gv.at(n) != std::make_pair(v, rtl)) c.fail("variable", n + " of " + m.g->name + " should be " + v + "\n" + text);
        };
        for (auto const &x : m.mapped) {
            if (x.second == "tab") {
                for (uint32_t i = 0; i < m.dims[0]; i++) {
                    auto is = std::to_string(i);
                    if (m.dims.size() == 1) {
                        var(x.first + "." + is, "tab[" + is + "]", true);
                        continue;
                    }
                    for (uint32_t z = 0; z < m.dims[1]; z++) var(x.first + "." + is + "." + std::to_string(z), "tab[" + is + "][" + std::to_string(z) + "]", true);
                }
            } else if (x.second == "pv") {
                for (std::string f : {"first", "second"}) var(x.first + "." + f, "pv." + f, true);
            } else {
                var(x.first, x.second, true);
            }
        }
        for (auto const &x : m.statics) var(x.first, x.second, false);
        for (auto const &r : b.rec) {
            if (r.mod != m.g->name || r.scope.empty() || !m.debug || es.size() <= 1) continue;
            // the variables of the front end where the statement is
            std::vector<const Entry *> hit;
            for (auto const &e : es)
                if (e.type == "decl" && e.name == r.scope) hit.push_back(&e);
            if (r.ignored) {
                if (!hit.empty()) c.fail("scope", r.scope + " belongs to an ignored statement\n" + text);
                continue;
            }
            if (hit.size() != 1 || hit[0]->value != r.scope_value || hit[0]->rtl != r.scope_rtl) c.fail("scope", r.scope + " should be " + r.scope_value + "\n" + text);
            condition(r, hit[0]->cond, "");
        }
        for (auto const &r : b.rec) {
            if (r.mod != m.g->name || r.loc.empty() || !r.table) continue;
            std::vector<const Entry *> hit;
            for (auto const &e : es)
                if (e.file == r.file && e.line == r.py && e.type != "decl" && (r.kind != "assign" || e.type == "assign")) hit.push_back(&e);
            size_t want = !m.debug || r.ignored ? 0 : r.element ? 4 : 1;
            // a line that stands for something in a module without debug is only expected to be absent from it
            if (hit.size() != want) {
                if (!m.debug && es.size() <= 1) continue;
                c.fail("table", r.kind + " of line " + std::to_string(r.py) + " in " + r.mod + " has " + std::to_string(hit.size()) + " entries instead of " + std::to_string(want) + "\n" + text);
            }
            std::set<std::string> seen;
            for (auto e : hit) {
                if (r.kind == "assign") {
                    std::string el;
                    if (r.element) {
                        for (int i = 0; i < 4; i++)
                            if (e->value == r.var + "[" + std::to_string(i) + "]") el = std::to_string(i);
                        if (el.empty() || !seen.insert(el).second) c.fail("table", "variable " + e->value + " of line " + std::to_string(r.py) + "\n" + text);
                    } else if (e->value != r.var || !e->rtl) {
                        c.fail("table", "variable " + e->value + " of line " + std::to_string(r.py) + " should be " + r.var + "\n" + text);
                    }
                    condition(r, e->cond, el);
                } else {
                    condition(r, e->cond, "");
                }
            }
        }
    }
    // ---- the conditions hold when the statements are executed
    std::string all;
    for (auto const &x : k::extract_struct_info(&top)) all += x.second + "\n";
    for (auto const &x : src) {
        auto t = x.second;
        auto p = t.rfind("endmodule");
        t.insert(p, extra[x.first]);
        all += t;
    }
    if (package) {
        size_t p;
        while ((p = all.find("`include \"defs.svh\"")) != std::string::npos) all.erase(p, 19);
        while ((p = all.find("import defs::*;")) != std::string::npos) all.erase(p, 15);
    }
    int taken = 0, skipped = 0;
    try {
        sv::Unit u;
        sv::parse(all, u);
        sv::Design sd(u, "top");
        std::string log;
        sd.poke("clk", BV(1, 0));
        int rounds = c.thorough ? 24 : 12;
        for (int r = 0; r < rounds; r++) {
            static const std::pair<const char *, int> ins[] = {{"a", 1}, {"b", 1}, {"s", 2}, {"t", 3}, {"u", 4}};
            log += " |";
            for (auto const &x : ins) {
                uint64_t v = c.src.draw(1ull << x.second);
                sd.set(x.first, BV(x.second, v));
                log += std::string(" ") + x.first + "=" + std::to_string(v);
            }
            sd.settle();
            std::vector<bool> cv, pos;
            auto path = [&](const Rec &r, const std::string &n) { return r.inst.empty() ? n : r.inst + "." + n; };
            for (size_t i = 0; i < cond.size(); i++) {
                cv.push_back(sd.get(path(*cond[i].first, "cond_" + std::to_string(i))).any());
                pos.push_back(elem[i].empty() || sd.get(path(*cond[i].first, "s")) == BV(2, std::stoul(elem[i])));
            }
            auto check = [&](bool clocked) {
                for (size_t i = 0; i < cond.size(); i++) {
                    auto const &r = *cond[i].first;
                    if (r.clocked != clocked) continue;
                    bool ex = r.probe.empty() || sd.get(path(r, r.probe)).any();
                    ex = ex && pos[i];
                    (ex ? taken : skipped)++;
                    if (cv[i] != ex)
                        c.fail("condition", r.kind + " of line " + std::to_string(r.py) + " in " + r.mod + " is" + (ex ? "" : " not") + " executed, its condition is \"" + cond[i].second + "\":" + log + "\n" + text);
                }
            };
            check(false);
            sd.poke("clk", BV(1, 1));
            check(true);
            sd.poke("clk", BV(1, 0));
        }
    } catch (const sv::Error &e) {
        c.fail("condition", std::string(e.what()) + "\n" + all + text);
    }
    c.nontrivial = located > 10 && taken > 0 && skipped > 0;
    if (b.mods.size() > 1) c.label("hierarchy");
    if (package) c.label("package");
}
pbt::Reg r22({"P22", "more than ten statements with a location, some executed and some not", p22, 8000, 120000, {}, {}});
}  // namespace
