// P04 declarations and interfaces of the emitted modules, P25 stubs and flat wrappers, P33 options of the code generator
#include <fcntl.h>
#include <sys/stat.h>

#include <filesystem>
#include <fstream>

#include "except.hh"
#include "interface.hh"
#include "rdl.hh"
#include "stmt.hh"
using namespace rdl;

static std::string dims(const std::vector<std::pair<int64_t, int64_t>> &d) {
    std::string r;
    for (auto [h, l] : d) r += "[" + std::to_string(h) + ":" + std::to_string(l) + "]";
    return r;
}
static std::string show(const sv::Type &t) {
    return (t.st ? t.st->name : t.ename.empty() ? "logic" : t.ename) + (t.sgn ? " signed " : " ") + dims(t.packed) + " _ " + dims(t.unpacked);
}
// how the variable has to be declared
static std::string declared(const kratos::Var &v) {
    std::string size, width = v.var_width() > 1 ? "[" + std::to_string(v.var_width() - 1) + ":0]" : "";
    bool arr = v.size().size() > 1 || v.size()[0] > 1 || v.explicit_array();
    if (arr)
        for (auto n : v.size()) size += "[" + std::to_string(n - 1) + ":0]";
    return std::string("logic") + (v.is_signed() ? " signed " : " ") + (v.is_packed() ? size + width + " _ " : width + " _ " + size);
}
static std::string dir(const kratos::Port &p) {
    return p.port_direction() == kratos::PortDirection::In ? "input" : p.port_direction() == kratos::PortDirection::Out ? "output" : "inout";
}

static const sv::Module *find(const sv::Unit &u, const std::string &n) {
    auto it = u.modules.find(n);
    return it == u.modules.end() ? nullptr : it->second.get();
}
// the ports of a module against those of the generator
static void same_ports(pbt::Case &c, const sv::Module &m, const sv::Design &D, const std::string &path, kratos::Generator &g, const std::string &text) {
    std::set<std::string> names;
    for (auto const &p : m.ports) {
        c.check(names.insert(p.d.name).second, "port-twice", p.d.name + " of " + m.name + "\n" + text);
        auto q = g.get_port(p.d.name);
        c.check(q != nullptr, "port-extra", p.d.name + " of " + m.name + "\n" + text);
        c.check(p.dir == dir(*q), "port-direction", m.name + "." + p.d.name + " is " + p.dir + "\n" + text);
        auto got = show(D.type_of(path + p.d.name)), want = declared(*q);
        c.check(got == want, "port-type", m.name + "." + p.d.name + " is " + got + ", built as " + want + "\n" + text);
    }
    for (auto const &n : g.get_port_names()) c.check(names.count(n), "port-missing", n + " of " + m.name + "\n" + text);
}

static void p04(pbt::Case &c) {
    if (c.src.chance(1, 6)) {  // names that cannot be emitted are refused
        static const std::vector<std::string> kws = {"logic", "always_ff", "module", "input", "output", "reg", "wire", "begin", "end", "case", "if", "for", "unique", "assign", "default", "endmodule",
                                                     "signed", "function", "return", "enum", "typedef", "packed", "struct", "interface", "modport", "import", "generate", "genvar", "parameter", "posedge",
                                                     "initial", "int", "bit", "string", "static", "type", "this", "new", "table", "tri", "or", "and", "not", "xor", "local", "ref", "edge", "strong", "weak",
                                                     "do", "var", "use", "unsigned", "void", "integer", "nor", "nand", "buf", "rand", "real", "time", "wait", "with", "within", "virtual", "pure", "global", "checker",
                                                     "let", "null", "super", "cell", "config", "design", "instance", "library", "liblist", "automatic", "byte", "break", "continue", "forever", "fork", "join",
                                                     "expect", "export", "extern", "final", "first_match", "force", "forkjoin", "endfunction", "endtask", "task", "event", "disable", "deassign", "release"};
        auto k = c.src.pick(kws);
        c.check(sv::is_keyword(k), "harness", k);
        kratos::Context ctx;
        auto &g = ctx.generator("g");
        int where = (int)c.src.draw(13);
        static const char *wn[] = {"variable", "port", "module", "parameter", "enum", "enumerator", "instance", "function", "argument", "loop variable", "interface", "struct", "variable and instance"};
        c.sample = k + " as " + wn[where];
        c.label(wn[where]);
        c.nontrivial = true;
        bool threw = false;
        try {
            switch (where) {
                case 0:
                    g.var(k, 2);
                    break;
                case 1:
                    g.port(kratos::PortDirection::In, k, 2);
                    break;
                case 2:
                    ctx.generator(k);
                    break;
                case 3:
                    g.parameter(k, 2);
                    break;
                case 4:
                    g.enum_(k, {{"A", 0}, {"B", 1}}, 1);
                    break;
                case 5:
                    g.enum_("E", {{k, 0}, {"B", 1}}, 1);
                    break;
                case 6:
                    g.add_child_generator(k, ctx.generator("child").shared_from_this());
                    break;
                case 7:
                    g.function(k);
                    break;
                case 8:
                    g.function("f")->input(k, 1, false);
                    break;
                case 9:
                    kratos::ForStmt(k, 0, 2, 1);
                    break;
                case 10:
                    g.interface(std::make_shared<kratos::InterfaceDefinition>("bus"), k, false);
                    break;
                case 11:
                    kratos::PackedStruct(k, {{"a", 1, false}});
                    break;
                default: {  // the same name twice
                    auto &child = ctx.generator("child");
                    auto &o = g.var("o", 1);
                    auto &p = child.port(kratos::PortDirection::In, "p", 1);
                    if (c.src.flip()) {
                        g.add_child_generator("o", child.shared_from_this());
                    } else {
                        g.add_child_generator("x", child.shared_from_this());
                        g.var("x", 1);
                    }
                    g.add_stmt(p.assign(o));
                    plain_flow(&g);
                }
            }
        } catch (const std::exception &) {
            threw = true;
        }
        c.check(threw, "keyword", "a name that is a keyword is accepted: " + c.sample);
        return;
    }
    auto [d, bo, f] = any_setup(c);
    Built b = build(d, bo);
    std::map<std::string, std::string> src = c.src.chance(1, 4) ? plain_flow(b.top) : default_flow(b.top, f);
    std::string text = join(src), nt = numbered(text);
    c.sample = text;
    sv::Unit u;
    std::unique_ptr<sv::Design> D;
    try {
        sv::parse(text, u);
        D = std::make_unique<sv::Design>(u, "top");
    } catch (sv::Error &e) {
        c.fail("unreadable:" + std::string(e.kind), std::string(e.what()) + "\n" + nt);
    }
    c.check(u.dups.empty(), "module-twice", (u.dups.empty() ? "" : u.dups[0]) + "\n" + nt);
    for (auto const &[n, t] : src) {
        sv::Unit q;
        sv::parse(t, q);
        c.check(q.modules.size() == 1 && q.modules.count(n), "file", "the text for " + n + " does not define it\n" + t);
    }
    c.check(D->lint().empty(), "lint:" + (D->lint().empty() ? "" : D->lint()[0].substr(0, D->lint()[0].find(':'))), (D->lint().empty() ? "" : D->lint()[0]) + "\n" + nt);
    std::set<std::string> used;
    auto nets = D->net_names();
    std::function<void(kratos::Generator &, const std::string &)> walk = [&](kratos::Generator &g, const std::string &path) {
        auto *m = find(u, g.name);
        c.check(m != nullptr, "module-missing", g.name + "\n" + nt);
        used.insert(g.name);
        same_ports(c, *m, *D, path, g, nt);
        if (g.is_cloned()) return;  // emitted from its definition
        std::set<std::string> seen;
        for (auto const &n : nets) {
            if (n.rfind(path, 0) || n.find('.', path.size()) != std::string::npos) continue;
            auto nm = n.substr(path.size());
            seen.insert(nm);
            auto v = g.get_var(nm);
            c.check(v != nullptr, "undeclared", n + " is no variable of " + g.name + "\n" + nt);
            auto got = show(D->type_of(n)), want = declared(*v);
            c.check(got == want, "type", n + " is " + got + ", built as " + want + "\n" + nt);
        }
        for (auto const &n : g.get_vars()) {
            auto v = g.get_var(n);
            if (v->type() == kratos::VarType::Base && v->name[0] != '_') c.check(seen.count(n), "undeclared", n + " of " + g.name + " is not declared\n" + nt);
        }
        std::map<std::string, std::string> inst;
        for (auto const &it : m->items)
            if (it->k == sv::Item::Instance) c.check(inst.emplace(it->inst.name, it->inst.mod).second, "instance-twice", it->inst.name + "\n" + nt);
        auto kids = g.get_child_generators();
        c.check(kids.size() == inst.size(), "instances", g.name + " has " + std::to_string(kids.size()) + " children and " + std::to_string(inst.size()) + " instances\n" + nt);
        for (auto const &k : kids) {
            c.check(inst.count(k->instance_name) && inst[k->instance_name] == k->name, "instance", k->instance_name + " of " + k->name + "\n" + nt);
            walk(*k, path + k->instance_name + ".");
        }
    };
    walk(*b.top, "");
    for (auto const &[n, m] : u.modules) c.check(used.count(n), "module-extra", n + " is not used\n" + nt);
    c.nontrivial = u.modules.size() > 1 || nets.size() > 6;
}
static pbt::Reg r04({"P04", "there are several modules, or more than six nets, or a keyword is used as a name", p04, 20000, 400000, {}, {}});

// ---- P25 ----------------------------------------------------------------------------------
static void p25(pbt::Case &c) {
    Cfg cfg;
    cfg.hier = (int)c.src.draw(2);
    cfg.depth = 1;
    cfg.max_wire = 2;
    cfg.functions = false;
    cfg.awkward_names = c.src.chance(1, 3);
    cfg.one_dims = c.src.flip();
    Gen g(c, cfg);
    Design d = g.design();
    Built b = build(d);
    bool arr = false, clash = false;
    std::set<std::string> flat;
    for (auto const &v : d.top().vars) {
        bool port = v.k == VK::In || v.k == VK::Out || v.k == VK::Clk || v.k == VK::Rst;
        if (!port) continue;
        arr |= v.t.arr();
        std::vector<std::string> ns = {v.name};
        for (auto n : v.t.dims) {
            std::vector<std::string> q;
            for (auto const &x : ns)
                for (uint32_t i = 0; i < n; i++) q.push_back(x + "_" + std::to_string(i));
            ns = q;
        }
        for (auto const &x : ns) clash |= !flat.insert(x).second;
    }
    clash |= flat.count("top") > 0;  // the instance takes that name
    c.nontrivial = arr;
    if (c.src.flip()) {
        c.label("stub");
        std::string text = kratos::create_stub(b.top);
        c.sample = text;
        sv::Unit u;
        try {
            sv::parse(text, u);
            sv::Design D(u, "top");
            auto *m = find(u, "top");
            same_ports(c, *m, D, "", *b.top, text);
            c.check(m->items.empty() && m->vars.empty() && u.modules.size() == 1, "stub-content", text);
        } catch (sv::Error &e) {
            c.fail("stub-unreadable", std::string(e.what()) + "\n" + text);
        }
        // the module itself is as it was
        drive(c, d, join(plain_flow(b.top)));
        return;
    }
    c.label(clash ? "names clash" : "wrapper");
    std::string text;
    try {
        auto &w = kratos::create_wrapper_flatten(b.top, "wrapper");
        Flow f;
        f.check_multiple_driver = f.check_latch = false;
        text = join(c.src.flip() ? default_flow(&w, f) : plain_flow(&w));
    } catch (const std::exception &e) {
        if (clash) return;
        c.fail("wrapper", std::string(e.what()) + "\n" + rdl::show(d));
    }
    if (flat.count("top")) {  // not legal text, the caller has to choose other names
        c.nontrivial = false;
        return;
    }
    c.check(!clash, "clash", "two ports of the same name\n" + text);
    c.sample = text;
    sv::Unit u;
    sv::parse(text, u);
    auto *m = find(u, "wrapper");
    c.check(m != nullptr, "missing", text);
    for (auto const &p : m->ports) c.check(p.d.unpacked.empty() && p.d.type->packed.size() <= 1 && flat.count(p.d.name), "flat", p.d.name + "\n" + text);
    c.check(m->ports.size() == flat.size(), "flat", text);
    DriveOpt o;
    o.flat = true;
    o.top = "wrapper";
    drive(c, d, text, o);
}
static pbt::Reg r25({"P25", "some port of the top module is an array", p25, 20000, 400000, {}, {}});

// ---- P33 ----------------------------------------------------------------------------------
static std::vector<std::string> tokens(const std::string &t) {
    std::vector<std::string> r;
    for (auto const &k : sv::lex(t)) r.push_back(k.s);
    return r;
}
static std::string slurp(const std::string &p) {
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
// comments on everything, also of several lines
static int comment(pbt::Case &c, kratos::Generator &top) {
    int n = 0;
    auto set = [&](kratos::IRNode &x) {
        static const std::vector<std::string> parts = {"word", "\n", "/*", "*/", "end", "endmodule", "\"", "\n\n", "`", ";", "//", " ", "assign a = b;", "{0}", "\t", "*)", "\n"};
        if (c.src.flip()) return;
        x.comment.clear();
        for (int i = 1 + (int)c.src.draw(5); i > 0; i--) x.comment += c.src.pick(parts);
        n++;
    };
    std::function<void(kratos::Stmt &)> stmt = [&](kratos::Stmt &s) {
        set(s);
        switch (s.type()) {
            case kratos::StatementType::If: {
                auto &i = static_cast<kratos::IfStmt &>(s);
                stmt(*i.then_body()), stmt(*i.else_body());
                break;
            }
            case kratos::StatementType::Switch:
                for (auto const &[k, b] : static_cast<kratos::SwitchStmt &>(s).body()) stmt(*b);
                break;
            case kratos::StatementType::For:
                stmt(*static_cast<kratos::ForStmt &>(s).get_loop_body());
                break;
            case kratos::StatementType::Block:
                for (auto const &t : static_cast<kratos::StmtBlock &>(s)) stmt(*t);
                break;
            default:
                break;
        }
    };
    std::function<void(kratos::Generator &)> gen = [&](kratos::Generator &g) {
        for (auto const &v : g.get_all_var_names()) set(*g.get_var(v));
        for (auto const &s : g.get_all_stmts()) stmt(*s);
        set(g);
        for (auto const &k : g.get_child_generators()) gen(*k);
    };
    gen(top);
    return n;
}
static void p33(pbt::Case &c) {
    auto [d, bo, f] = any_setup(c);
    Built b = build(d, bo);
    kratos::SystemVerilogCodeGenOptions plain;
    auto src = default_flow(b.top, f, plain);
    auto again = [&](kratos::SystemVerilogCodeGenOptions o) { return kratos::generate_verilog(b.top, o); };
    std::string text = join(src);
    c.sample = text;
    c.nontrivial = text.find("case") != std::string::npos || src.size() > 1 || text.size() > 600;
    auto toks = [&](const std::map<std::string, std::string> &m) {
        std::map<std::string, std::vector<std::string>> r;
        for (auto const &[n, t] : m) r[n] = tokens(t);
        return r;
    };
    auto t0 = toks(src);
    switch (c.src.draw(4)) {
        case 3: {
            c.label("comments");
            auto o = plain;
            if (c.src.flip()) o.line_wrap = 1 + c.src.draw(120);
            int n = comment(c, *b.top);
            auto s = again(o);
            c.check(toks(s) == t0, "comments", std::to_string(n) + " comments change the text\n" + text + "\n" + join(s));
            break;
        }
        case 0: {
            c.label("line_wrap");
            auto o = plain;
            o.line_wrap = 1 + c.src.draw(120);
            auto s = again(o);
            c.check(toks(s) == t0, "wrap", "wrapping at " + std::to_string(o.line_wrap) + " changes the text\n" + text + "\n" + join(s));
            break;
        }
        case 1: {
            c.label("unique_case");
            auto o = plain;
            o.unique_case = false;
            auto s = again(o);
            auto t = toks(s);
            for (auto &[n, k] : t0) {
                for (size_t i = 0; i + 1 < k.size(); i++) {
                    if (k[i + 1] == "case") c.check(k[i] == "unique", "unique", "a case without unique\n" + src[n]);
                }
                k.erase(std::remove(k.begin(), k.end(), "unique"), k.end());
            }
            c.check(t == t0, "unique", "leaving out unique changes the text\n" + text + "\n" + join(s));
            break;
        }
        default: {
            c.label("package");
            std::string dirn = pbt::scratch_dir() + "/pkg";
            std::filesystem::remove_all(dirn);
            std::filesystem::create_directories(dirn);
            auto o = plain;
            o.package_name = "defs";
            o.output_dir = dirn;
            o.extract_debug_info = c.src.flip();
            // an older and longer file of that name
            if (c.src.flip()) std::ofstream(dirn + "/top.sv") << text << text << text;
            if (c.src.flip()) std::ofstream(dirn + "/defs.svh") << std::string(500, 'x') << "\n";
            again(o);
            std::set<std::string> want = {"defs.svh"}, got;
            for (auto const &[n, t] : src) {
                want.insert(n + ".sv");
                if (o.extract_debug_info) want.insert(n + ".sv.debug");
            }
            for (auto const &e : std::filesystem::directory_iterator(dirn)) got.insert(e.path().filename().string());
            c.check(got == want, "files", "other files are written");
            std::map<std::string, std::string> files;
            std::string hdr = slurp(dirn + "/defs.svh");
            c.check(hdr.rfind("`ifndef", 0) == 0 && hdr.find("package defs;") != std::string::npos && hdr.find("xxx") == std::string::npos, "header", hdr);
            auto stamp = [&]() {
                std::map<std::string, std::pair<int64_t, int64_t>> r;
                for (auto const &n : want) {
                    struct stat st;
                    stat((dirn + "/" + n).c_str(), &st);
                    if (n.find(".debug") == std::string::npos) r[n] = {st.st_mtim.tv_sec, st.st_mtim.tv_nsec};
                }
                return r;
            };
            for (auto const &[n, t] : src) {
                auto x = slurp(dirn + "/" + n + ".sv");
                std::string head = "`include \"defs.svh\"\n\nimport defs::*;\n";
                c.check(x == head + t, "content", "the file of " + n + " is\n" + x + "instead of\n" + head + t);
            }
            for (auto const &n : want) {  // make them old
                struct timespec ts[2] = {{1000, 5}, {1000, 5}};
                utimensat(AT_FDCWD, (dirn + "/" + n).c_str(), ts, 0);
            }
            auto before = stamp();
            // one of them is out of date
            std::string stale;
            if (c.src.flip()) {
                std::vector<std::string> ns;
                for (auto const &[n, t] : src) ns.push_back(n);
                stale = c.src.pick(ns) + ".sv";
                auto now = slurp(dirn + "/" + stale);
                auto at = now.size() - 1 - c.src.draw(now.size());
                switch (c.src.draw(4)) {
                    case 0:  // longer
                        std::ofstream(dirn + "/" + stale, std::ios::app) << "// changed\n";
                        break;
                    case 1:  // shorter
                        std::ofstream(dirn + "/" + stale) << now.substr(0, at);
                        break;
                    case 2:  // of the same length
                        now[at] = now[at] == '#' ? '$' : '#';
                        std::ofstream(dirn + "/" + stale) << now;
                        break;
                    default:
                        std::filesystem::remove(dirn + "/" + stale);
                }
            }
            again(o);
            auto after = stamp();
            for (auto const &[n, t] : before)
                if (n != stale) c.check(after[n] == t, "rewritten", n + " is written again without need");
            for (auto const &[n, t] : src)
                if (n + ".sv" == stale) {
                    auto x = slurp(dirn + "/" + stale), want = "`include \"defs.svh\"\n\nimport defs::*;\n" + t;
                    c.check(x == want, "stale", stale + " was out of date and is\n" + x + "instead of\n" + want);
                }
            std::filesystem::remove_all(dirn);
        }
    }
    drive(c, d, text);
}
static pbt::Reg r33({"P33", "the text has a case, several modules, or more than 600 characters", p33, 10000, 200000, {}, {}});
